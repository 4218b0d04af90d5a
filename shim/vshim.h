/* Control block shared between the simulator shim (C) and the harness (Rust,
 * harness/src/ctl.rs).  All fields little endian, natural alignment. */
#ifndef VSHIM_H
#define VSHIM_H
#include <stdint.h>

#define VS_MAGIC 0x56534d31u
#define MAXRULES 48
#define MAXPRE 32
#define MAXSITES 384
#define MAXPATHS 160
#define PATHLEN 96
#define MAXMUT 2048
#define OUTCAP (4 << 20)
#define ERRCAP 16384
#define MAXREP 64
#define COVBYTES 16384

enum call {
    C_OPEN = 1, C_READ, C_WRITE, C_LSEEK, C_STAT, C_CLOSE, C_FSYNC, C_RENAME, C_UNLINK,
    C_TRUNC, C_MKDIR, C_MMAP, C_THREAD, C_JOIN, C_FWAIT, C_FWAKE, C_CLOCK, C_RAND, C_TTY,
    C_SLEEP, C_YIELD, C_EXIT, C_OTHER, C_ALLOC, C_LINK, C_DIR, C_CHDIR, C_NCALLS
};

enum action {
    A_NONE = 0,
    A_ERRNO,        /* fail with errno = arg */
    A_SHORT,        /* transfer at most arg bytes */
    A_EOF,          /* read returns 0 */
    A_CRASH,        /* process dies before the call takes effect */
    A_CRASH_TORN,   /* write only arg/65536 of the data, then die */
    A_CRASH_AFTER,  /* die right after the call took effect */
    A_SPURIOUS,     /* futex wait returns at once */
    A_JUMP,         /* clock jumps by arg ns */
    A_STALL         /* calling thread is not scheduled until no other can run, or arg ops pass */
};

struct rule {
    uint32_t call, action;
    uint32_t nth, count;      /* fires on matches nth .. nth+count-1 (0 based) */
    int64_t arg;
    char path[PATHLEN];       /* exact, or "*" for any disk file, "" for any */
    uint32_t seen, fired;
};

struct pre { uint64_t op; uint32_t edges; uint32_t choice; };

struct site { uint32_t call, path; uint64_t count, bytes, first_op; };
struct mut { uint32_t kind, path; uint64_t off, len, op; uint32_t path2, pad; };

enum status { S_NONE = 0, S_CRASHED = 1, S_DEADLOCK = 2, S_LIVELOCK = 3, S_INTERNAL = 4 };
enum policy { P_STAY = 0, P_RR = 1, P_RANDOM = 2, P_PRIO = 3, P_OTHERS = 4, P_MAIN = 5 };

struct ctl {
    uint32_t magic, size;
    /* ---- plan ---- */
    uint64_t hash_seed;
    uint64_t sched_seed;
    uint64_t edge_budget, op_budget;
    uint64_t crash_op;            /* 0: none; crash at this op ... */
    uint64_t crash_edges;         /* ... this many edges after it (0: before it takes effect) */
    int64_t clock_mono0, clock_real0, clock_step;
    uint32_t policy;
    uint32_t tty;                 /* 0: not a terminal, else cols | rows<<16 */
    uint32_t read_frag, write_frag; /* 0: off, else max chunk; >=1<<31: random up to low bits */
    uint32_t trace;               /* write a full trace */
    uint32_t nrules, npre;
    uint32_t frag_open_all;       /* fragmentation applies to all disk files */
    uint64_t alloc_fail;          /* fail the n-th allocation (1 based), 0: never */
    uint64_t frag_seed;
    uint64_t latency;             /* extra simulated ns per disk byte */
    uint64_t stat_seed;           /* file times */
    uint32_t ncpu;                /* processors the program sees (0: 4) */
    uint32_t env_seed;            /* values of environment variables that are not set (0: none) */
    char writable[PATHLEN];       /* if set, only this file can be written, and only its directory takes new ones */
    struct rule rules[MAXRULES];
    struct pre pre[MAXPRE];
    /* ---- results ---- */
    uint32_t status, nthreads;
    uint64_t ops, edges, allocs, hash, sched_hash, switches, preempts, simtime;
    uint64_t cov_edges;
    uint64_t frag_reads, frag_writes, blocked_waits, timer_jumps, spurious;
    uint32_t nsites, npaths, nmut, mut_overflow;
    uint64_t out_len, err_len, out_hash;
    uint32_t nrep, pad1;
    struct { uint32_t id; int32_t code; uint64_t op; } rep[MAXREP];
    struct site sites[MAXSITES];
    char paths[MAXPATHS][PATHLEN];
    struct mut mut[MAXMUT];
    char err[ERRCAP];
    char note[256];
    uint8_t cov[COVBYTES];        /* instrumented edges reached */
    char out[OUTCAP];             /* not cleared between runs */
};
#endif
