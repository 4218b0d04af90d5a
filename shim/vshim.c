/* libvshim: puts every source of nondeterminism of a process behind one seam (libc) and
 * resolves each from an explicit plan.  One thread runs at a time; threads are parked on
 * private futexes and released one at a time at interposed calls or, for planned
 * preemptions, at instrumented basic-block edges.  The plan is data: the shim draws no
 * random numbers of its own. */
#define _GNU_SOURCE
#include "vshim.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <poll.h>
#include <sched.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define EXPORT __attribute__((visibility("default")))

static long raw(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static long ret_errno(long r)
{
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

static struct ctl *K;           /* control block; NULL: shim inactive */
static char root[PATH_MAX];
static size_t rootlen;
static char vcwd[PATH_MAX] = "";
static int trace_fd = -1;
static int64_t now_ns, real_off;

/* ------------------------------------------------------------------ threads */
#define MAXT 1024
enum tstate { T_RUN = 0, T_FUTEX, T_SLEEP, T_JOIN, T_EXIT };
struct thr {
    int id, state;
    int go;
    uint32_t *uaddr;
    uint32_t bitset;
    int64_t deadline;           /* -1: none */
    int timedout;
    struct thr *joinee;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg;
    uint64_t seq;
    uint64_t prio;
    uint64_t stall_until;       /* not scheduled before this op unless alone */
};
static struct thr T[MAXT];
static int nthr;
static __thread struct thr *me;
static pthread_key_t exit_key;
static uint64_t waitseq;

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);

static uint64_t edge_next = UINT64_MAX;
static uint64_t edges;
static uint64_t edge_preempt_at = UINT64_MAX, edge_crash_at = UINT64_MAX;
static uint32_t edge_preempt_choice;

static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static void hash64(uint64_t *h, uint64_t v) { *h = mix(*h ^ v) + (*h << 7); }

static void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char *fmt, ...)
{
    if (trace_fd < 0) return;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b) n = sizeof b;
    static long traced;
    if ((traced += n) > (48 << 20)) return;
    raw(SYS_write, trace_fd, (long)b, n, 0, 0, 0);
}

static void sync_counters(void)
{
    K->edges = edges;
    K->simtime = (uint64_t)(now_ns - K->clock_mono0);
}
static void die(int status, const char *note)
{
    sync_counters();
    K->status = status;
    if (note) { strncpy(K->note, note, sizeof K->note - 1); }
    tracef("END status=%d %s\n", status, note ? note : "");
    if (status == S_CRASHED)
        for (;;) raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
    raw(SYS_exit_group, 90 + status, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

/* weak fairness, whatever the policy: a thread that spins does not keep the others out for ever */
#define FAIR_OPS 4000u
#define FAIR_EDGES 20000000ull
static uint32_t streak;
static uint64_t edge_fair_at = FAIR_EDGES;
static void recompute_edge_next(void)
{
    uint64_t n = K->edge_budget ? K->edge_budget : UINT64_MAX;
    if (edge_fair_at < n) n = edge_fair_at;
    if (edge_preempt_at < n) n = edge_preempt_at;
    if (edge_crash_at < n) n = edge_crash_at;
    edge_next = n;
}

static void go(struct thr *t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void park(struct thr *t)
{
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
        raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}

static int runnable(struct thr **r, int skip_stalled)
{
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_RUN && !(skip_stalled && T[i].stall_until > K->ops)) r[n++] = &T[i];
    return n;
}
static int candidates(struct thr **r)
{
    int n = runnable(r, 1);
    if (n == 0) {
        n = runnable(r, 0);
    }
    return n;
}

/* nobody can run: let simulated time pass to the next deadline */
static int fire_timers(void)
{
    struct thr *b = NULL;
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline >= 0)
            if (!b || T[i].deadline < b->deadline || (T[i].deadline == b->deadline && T[i].seq < b->seq)) b = &T[i];
    if (!b) return 0;
    if (b->deadline > now_ns) now_ns = b->deadline;
    b->timedout = 1;
    b->state = T_RUN;
    K->timer_jumps++;
    return 1;
}

static struct thr *choose(struct thr **r, int n, struct thr *self)
{
    /* self is NULL or not runnable when it blocks */
    int self_in = 0;
    for (int i = 0; i < n; i++) if (r[i] == self) self_in = 1;
    switch (K->policy) {
    default:
    case P_STAY:
        if (self_in) return self;
        return r[0];
    case P_MAIN:
        return r[0];
    case P_OTHERS:
        return r[n - 1];
    case P_RR: {
        int id = self ? self->id : -1;
        for (int i = 0; i < n; i++) if (r[i]->id > id) return r[i];
        return r[0];
    }
    case P_RANDOM:
        return r[mix(K->sched_seed ^ mix(K->ops)) % (uint64_t)n];
    case P_PRIO: {
        struct thr *b = r[0];
        for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i];
        return b;
    }
    }
}

static void switch_to(struct thr *t)
{
    if (t == me) return;
    K->switches++;
    streak = 0;
    edge_fair_at = edges + FAIR_EDGES;
    recompute_edge_next();
    hash64(&K->sched_hash, ((uint64_t)t->id << 32) ^ K->ops);
    hash64(&K->hash, 0x5317c4ull ^ (uint64_t)t->id);
    tracef("  switch %d -> %d\n", me->id, t->id);
    struct thr *self = me;
    go(t);
    park(self);
}

static void describe_deadlock(void)
{
    char b[256]; int p = 0;
    for (int i = 0; i < nthr && p < 200; i++)
        p += snprintf(b + p, sizeof b - p, "thread %d:%s ", T[i].id,
                      T[i].state == T_RUN ? "run" : T[i].state == T_FUTEX ? "waits" : T[i].state == T_SLEEP ? "sleeps" :
                      T[i].state == T_JOIN ? "joins" : "ended");
    die(S_DEADLOCK, b);
}

/* calling thread's state is no longer T_RUN: hand over, return when made runnable and chosen */
static void block_me(void)
{
    struct thr *r[MAXT];
    K->blocked_waits++;
    for (;;) {
        int n = candidates(r);
        if (n == 0) {
            if (fire_timers()) continue;
            describe_deadlock();
        }
        struct thr *t = choose(r, n, me);
        if (t == me) return;
        switch_to(t);
        if (me->state == T_RUN) return;
    }
}

static void sched_point(void)
{
    struct thr *r[MAXT];
    if (nthr <= 1) return;
    int n = candidates(r);
    if (n == 0) return;
    struct thr *t = choose(r, n, me);
    /* planned preemption at this op */
    for (uint32_t i = 0; i < K->npre; i++)
        if (K->pre[i].op == K->ops && K->pre[i].edges == 0 && n > 1) {
            struct thr *o[MAXT]; int m = 0;
            for (int j = 0; j < n; j++) if (r[j] != me) o[m++] = r[j];
            if (m) { t = o[K->pre[i].choice % (uint32_t)m]; K->preempts++; if (K->policy == P_PRIO) me->prio >>= 1; }
        }
    if (t == me && n > 1 && ++streak >= FAIR_OPS) {
        streak = 0;
        struct thr *o[MAXT]; int m = 0;
        for (int j = 0; j < n; j++) if (r[j] != me) o[m++] = r[j];
        t = o[mix(K->sched_seed ^ K->ops) % (uint64_t)m];
    }
    switch_to(t);
}

static __attribute__((noinline)) void edge_slow(void)
{
    if (edges >= edge_crash_at) { tracef("crash at edge %lu op %lu\n", edges, K->ops); die(S_CRASHED, "crash at edge"); }
    if (K->edge_budget && edges >= K->edge_budget) die(S_LIVELOCK, "edge budget exhausted");
    if (edges >= edge_fair_at) {
        edge_fair_at = edges + FAIR_EDGES;
        struct thr *r[MAXT], *o[MAXT];
        int n = candidates(r), m = 0;
        for (int j = 0; j < n; j++) if (r[j] != me) o[m++] = r[j];
        recompute_edge_next();
        if (m) switch_to(o[mix(K->sched_seed ^ edges) % (uint64_t)m]);
    }
    if (edges >= edge_preempt_at) {
        edge_preempt_at = UINT64_MAX;
        struct thr *r[MAXT], *o[MAXT];
        int n = candidates(r), m = 0;
        for (int j = 0; j < n; j++) if (r[j] != me) o[m++] = r[j];
        if (m) {
            K->preempts++;
            hash64(&K->hash, 0xed6eull ^ edges);
            if (K->policy == P_PRIO) me->prio >>= 1;
            recompute_edge_next();
            switch_to(o[edge_preempt_choice % (uint32_t)m]);
        }
    }
    recompute_edge_next();
}

EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
    static uint32_t k;
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++k;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    if (unlikely(!K || !me)) return;
    if (unlikely(*g)) { uint32_t i = *g; if (i < COVBYTES * 8u) K->cov[i >> 3] |= (uint8_t)(1u << (i & 7)); *g = 0; K->cov_edges++; }
    if (unlikely(++edges >= edge_next)) edge_slow();
}

/* ------------------------------------------------------------------ paths and files */
#define MAXFD 512
static int fdpath[MAXFD];       /* path id + 1; 0: not simulated */

static int intern(const char *p)
{
    for (uint32_t i = 0; i < K->npaths; i++)
        if (!strncmp(K->paths[i], p, PATHLEN - 1)) return (int)i;
    if (K->npaths >= MAXPATHS) return MAXPATHS - 1;
    strncpy(K->paths[K->npaths], p, PATHLEN - 1);
    return (int)K->npaths++;
}

static void normalise(char *out, const char *in)
{
    /* lexical normalisation of a '/'-separated relative path */
    char buf[PATH_MAX];
    strncpy(buf, in, sizeof buf - 1); buf[sizeof buf - 1] = 0;
    const char *parts[256]; int n = 0;
    for (char *s = strtok(buf, "/"); s && n < 256; s = strtok(NULL, "/")) {
        if (!strcmp(s, ".")) continue;
        if (!strcmp(s, "..")) { if (n) n--; continue; }
        parts[n++] = s;
    }
    out[0] = 0;
    for (int i = 0; i < n; i++) { if (i) strcat(out, "/"); strcat(out, parts[i]); }
}

/* Maps a path the program uses to the real path; returns the interned id of the simulated
 * path (relative to the simulated root) or -1 when it is outside the simulated disk. */
static int map_path(const char *p, char *realp)
{
    char rel[PATH_MAX], norm[PATH_MAX];
    if (!p) { realp[0] = 0; return -1; }
    if (p[0] == '/') {
        if (!strncmp(p, "/sim/", 5) || !strcmp(p, "/sim")) {
            snprintf(realp, PATH_MAX, "%s%s", root, p + 4);
            snprintf(rel, sizeof rel, "%s", p + 4);
        } else if (!strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen])) {
            snprintf(realp, PATH_MAX, "%s", p);
            snprintf(rel, sizeof rel, "%s", p + rootlen);
        } else {
            /* the machine's temp directories are part of the simulated disk, under "@tmp" */
            const char *t = NULL;
            if (!strncmp(p, "/tmp", 4) && (p[4] == '/' || !p[4])) t = p + 4;
            else if (!strncmp(p, "/var/tmp", 8) && (p[8] == '/' || !p[8])) t = p + 8;
            else if (!strncmp(p, "/dev/shm", 8) && (p[8] == '/' || !p[8])) t = p + 8;
            if (!t) { snprintf(realp, PATH_MAX, "%s", p); return -1; }
            normalise(norm, t);
            snprintf(realp, PATH_MAX, "%s/@tmp/%s", root, norm);
            snprintf(rel, sizeof rel, "@tmp/%s", norm);
        }
    } else {
        snprintf(realp, PATH_MAX, "%s", p);
        snprintf(rel, sizeof rel, "%.2000s/%.2000s", vcwd, p);
    }
    normalise(norm, rel);
    return intern(norm);
}

struct act { int action; int64_t arg; };

/* times and identity of files: simulated, from the plan until the program changes the file */
static struct { int set; int64_t mtime; uint64_t ino; } stamp[MAXPATHS];
static uint64_t next_ino = 5000;
static int64_t wall(void) { int64_t v = now_ns - K->clock_mono0 + K->clock_real0 + real_off; return v < 0 ? 0 : v; }
static void stamp_init(int id)
{
    if (id < 0 || stamp[id].set) return;
    uint64_t h = K->stat_seed;
    for (const char *c = K->paths[id]; *c; c++) h = mix(h ^ (unsigned char)*c);
    stamp[id].set = 1;
    /* somewhere within 48 hours around the start, at times with equal or zero sub-second part */
    int64_t back = (int64_t)(h % 172800) * 1000000000ll - 3600ll * 1000000000ll;
    if ((h >> 32) % 4 == 0) back = 0;
    stamp[id].mtime = K->clock_real0 - back + ((h >> 40) % 2 ? (int64_t)((h >> 8) % 1000000000) : 0);
    if (stamp[id].mtime < 0) stamp[id].mtime = 0;
    stamp[id].ino = 1000 + (uint64_t)id;
}
static void stamp_now(int id, int fresh)
{
    if (id < 0) return;
    stamp_init(id);
    stamp[id].mtime = wall();
    if (fresh) stamp[id].ino = ++next_ino;
}

static void add_site(int call, int path, uint64_t len)
{
    for (uint32_t i = 0; i < K->nsites; i++)
        if (K->sites[i].call == (uint32_t)call && K->sites[i].path == (uint32_t)path) {
            K->sites[i].count++; K->sites[i].bytes += len; return;
        }
    if (K->nsites >= MAXSITES) return;
    struct site *s = &K->sites[K->nsites++];
    s->call = call; s->path = path; s->count = 1; s->bytes = len; s->first_op = K->ops;
}

static void add_mut(int kind, int path, uint64_t off, uint64_t len, int path2)
{
    if (kind == C_OPEN) stamp_now(path, 1);
    else if (kind == C_WRITE || kind == C_TRUNC) stamp_now(path, 0);
    else if (kind == C_RENAME && path >= 0 && path2 >= 0) { stamp_init(path); stamp[path2] = stamp[path]; stamp[path].set = 0; }
    if (K->nmut >= MAXMUT) {
        /* extend the last record when sequential, else note the overflow */
        struct mut *m = &K->mut[MAXMUT - 1];
        if (m->kind == (uint32_t)kind && m->path == (uint32_t)path && m->off + m->len == off) { m->len += len; return; }
        K->mut_overflow = 1; return;
    }
    if (K->nmut && kind == C_WRITE) {
        struct mut *m = &K->mut[K->nmut - 1];
        if (m->kind == C_WRITE && m->path == (uint32_t)path && m->off + m->len == off) { m->len += len; return; }
    }
    struct mut *m = &K->mut[K->nmut++];
    m->kind = kind; m->path = path; m->off = off; m->len = len; m->op = K->ops; m->path2 = path2;
}

static const char *const callname[] = {"?", "open", "read", "write", "lseek", "stat", "close", "fsync", "rename", "unlink",
    "trunc", "mkdir", "mmap", "thread", "join", "fwait", "fwake", "clock", "rand", "tty", "sleep", "yield", "exit",
    "other", "alloc", "link", "dir", "chdir"};

/* Every interposed call comes through here. */
static struct act op(int call, int path, uint64_t len)
{
    struct act a = {A_NONE, 0};
    K->ops++;
    if (unlikely(K->op_budget && K->ops > K->op_budget)) die(S_LIVELOCK, "operation budget exhausted");
    now_ns += K->clock_step;
    if (call == C_READ || call == C_WRITE) now_ns += (int64_t)(K->latency * len);
    uint64_t myop = K->ops;
    if (path >= 0) add_site(call, path, len);
    else if (call == C_THREAD) add_site(call, intern("<thread>"), 0);
    else if (call == C_FWAIT || call == C_FWAKE || call == C_JOIN || call == C_CLOCK) add_site(call, intern("<rt>"), 0);
    if (K->crash_op == K->ops) {
        if (K->crash_edges == 0) { tracef("crash at op %lu\n", K->ops); die(S_CRASHED, "crash at op"); }
        edge_crash_at = edges + K->crash_edges;
        recompute_edge_next();
    }
    for (uint32_t i = 0; i < K->npre; i++)
        if (K->pre[i].op == K->ops && K->pre[i].edges) {
            edge_preempt_at = edges + K->pre[i].edges;
            edge_preempt_choice = K->pre[i].choice;
            recompute_edge_next();
        }
    sched_point();
    const char *ps = path >= 0 ? K->paths[path] : "";
    for (uint32_t i = 0; i < K->nrules; i++) {
        struct rule *u = &K->rules[i];
        if (u->call != (uint32_t)call) continue;
        if (u->path[0]) {
            if (u->path[0] == '*') { if (path < 0 || ps[0] == '<') continue; }
            else if (strncmp(u->path, ps, PATHLEN - 1)) continue;
        }
        uint32_t k = u->seen++;
        if (a.action == A_NONE && k >= u->nth && k - u->nth < u->count) {
            u->fired++;
            a.action = (int)u->action; a.arg = u->arg;
        }
    }
    hash64(&K->hash, ((uint64_t)me->id << 56) ^ ((uint64_t)call << 48) ^ ((uint64_t)(path + 1) << 32) ^ len);
    if (a.action) hash64(&K->hash, ((uint64_t)a.action << 40) ^ (uint64_t)a.arg);
    if (unlikely(trace_fd >= 0))
        tracef("%lu t=%ld.%06ld thr%d %s %s len=%lu%s\n", myop, (long)((now_ns - K->clock_mono0) / 1000000000),
               (long)((now_ns - K->clock_mono0) % 1000000000) / 1000, me->id, callname[call], ps, (unsigned long)len,
               a.action ? " FAULT" : "");
    if (unlikely(a.action) && trace_fd >= 0) tracef("    action %d arg %ld\n", a.action, (long)a.arg);
    switch (a.action) {
    case A_CRASH: die(S_CRASHED, "crash before call"); break;
    case A_JUMP:
        if (a.arg >= 0) now_ns += a.arg; else real_off += a.arg;
        break;
    case A_STALL: me->stall_until = K->ops + (uint64_t)a.arg; sched_point(); break;
    }
    return a;
}
static int active(void) { return K != NULL && me != NULL; }

static void capture(int err, const char *b, size_t n)
{
    char *dst = err ? K->err : K->out;
    uint64_t *l = err ? &K->err_len : &K->out_len;
    for (size_t i = 0; i < n; i++) { if (*l < (err ? ERRCAP : OUTCAP)) dst[*l] = b[i]; (*l)++; }
    if (!err) for (size_t i = 0; i < n; i++) K->out_hash = K->out_hash * 1099511628211u + (unsigned char)b[i] + 1;
    uint64_t h = 0; for (size_t i = 0; i < n; i++) h = h * 131 + (unsigned char)b[i];
    hash64(&K->hash, h);
}

static int fdp(int fd) { return (fd >= 0 && fd < MAXFD) ? fdpath[fd] - 1 : -1; }
static void setfd(int fd, int path) { if (fd >= 0 && fd < MAXFD) fdpath[fd] = path + 1; }

static size_t frag(uint32_t mode, size_t n, int path)
{
    if (!mode || n <= 1 || path < 0 || K->paths[path][0] == '<') return n;
    uint32_t lim = mode & 0x7fffffff;
    size_t m = lim;
    if (mode >> 31) m = 1 + mix(K->frag_seed ^ mix(K->ops)) % lim;
    if (n > 200000 && m < n / 10000) m = n / 10000; /* large transfers: the last part in the finest pieces only */
    return m < n ? m : n;
}

/* ---- open family ---- */
static int do_open(int dirfd, const char *p, int flags, mode_t mode)
{
    char rp[PATH_MAX];
    if (!active()) return (int)ret_errno(raw(SYS_openat, dirfd, (long)p, flags, mode, 0, 0));
    int id = (dirfd == AT_FDCWD || p[0] == '/') ? map_path(p, rp) : -1;
    if (id < 0) {
        /* the machine itself (processors, limits, load) is not visible */
        if (p[0] == '/' && (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5))) { errno = ENOENT; return -1; }
        return (int)ret_errno(raw(SYS_openat, dirfd, (long)p, flags, mode, 0, 0));
    }
    struct act a = op(C_OPEN, id, (uint64_t)(flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL)));
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r;
    int existed = raw(SYS_faccessat, AT_FDCWD, (long)rp, F_OK, 0, 0, 0) == 0;
    if (K->writable[0] && strcmp(K->paths[id], K->writable) && strncmp(K->paths[id], "@tmp", 4)) {
        const char *mine = strrchr(K->paths[id], '/'), *his = strrchr(K->writable, '/');
        size_t nm = mine ? (size_t)(mine - K->paths[id]) : 0, nh = his ? (size_t)(his - K->writable) : 0;
        int same_dir = nm == nh && !strncmp(K->paths[id], K->writable, nm);
        if (existed ? (flags & O_ACCMODE) != O_RDONLY || (flags & O_TRUNC) : (flags & O_CREAT) && !same_dir) { errno = EACCES; return -1; }
    }
    r = raw(SYS_openat, AT_FDCWD, (long)rp, flags, mode, 0, 0);
    if (r >= 0) {
        setfd((int)r, id);
        if (!existed) add_mut(C_OPEN, id, 0, 0, 0);
        else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) add_mut(C_TRUNC, id, 0, 0, 0);
        if (flags & O_APPEND) {}
    }
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after open");
    return (int)ret_errno(r);
}
#define OPENMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags | O_LARGEFILE, mode); }
EXPORT int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXPORT int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

EXPORT int close(int fd)
{
    int id = active() ? fdp(fd) : -1;
    if (id < 0 || fd <= 2) return (int)ret_errno(raw(SYS_close, fd, 0, 0, 0, 0, 0));
    struct act a = op(C_CLOSE, id, 0);
    fdpath[fd] = 0;
    long r = raw(SYS_close, fd, 0, 0, 0, 0, 0);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after close");
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    return (int)ret_errno(r);
}

static ssize_t do_read(int fd, void *b, size_t n, int64_t off)
{
    int id = active() ? fdp(fd) : -1;
    if (id < 0)
        return ret_errno(off >= 0 ? raw(SYS_pread64, fd, (long)b, n, off, 0, 0) : raw(SYS_read, fd, (long)b, n, 0, 0, 0));
    struct act a = op(C_READ, id, n);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    if (a.action == A_EOF) return 0;
    size_t m = frag(K->read_frag, n, id);
    if (a.action == A_SHORT && (size_t)a.arg < m) m = a.arg > 0 ? (size_t)a.arg : 1;
    if (m > n) m = n;
    long r = off >= 0 ? raw(SYS_pread64, fd, (long)b, m, off, 0, 0) : raw(SYS_read, fd, (long)b, m, 0, 0, 0);
    if (r > 0 && m < n && (size_t)r == m) K->frag_reads++;
    hash64(&K->hash, (uint64_t)r);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after read");
    return ret_errno(r);
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (!active() || fdp(fd) < 0) return ret_errno(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}

static void broken_pipe(void)
{
    struct sigaction sa;
    if (sigaction(SIGPIPE, NULL, &sa) == 0 && sa.sa_handler == SIG_DFL) {
        sync_counters();
        tracef("SIGPIPE\n");
        raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGPIPE, 0, 0, 0, 0);
    }
}
static ssize_t do_write(int fd, const void *b, size_t n, int64_t off)
{
    int id = active() ? fdp(fd) : -1;
    if (id < 0)
        return ret_errno(off >= 0 ? raw(SYS_pwrite64, fd, (long)b, n, off, 0, 0) : raw(SYS_write, fd, (long)b, n, 0, 0, 0));
    struct act a = op(C_WRITE, id, n);
    if (a.action == A_ERRNO && a.arg == EPIPE) broken_pipe();
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    size_t m = frag(K->write_frag, n, id);
    if (a.action == A_SHORT && (size_t)a.arg < m) m = a.arg > 0 ? (size_t)a.arg : 1;
    if (a.action == A_CRASH_TORN) m = (size_t)(((unsigned __int128)n * (uint64_t)a.arg) >> 16);
    if (m > n) m = n;
    long r;
    if (fd == 1 || fd == 2) {
        capture(fd == 2, b, m);
        r = (long)m;
    } else {
        int64_t pos = off >= 0 ? off : raw(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
        if (raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0) & O_APPEND) { struct stat st; memset(&st, 0, sizeof st); raw(SYS_fstat, fd, (long)&st, 0, 0, 0, 0); pos = st.st_size; }
        r = off >= 0 ? raw(SYS_pwrite64, fd, (long)b, m, off, 0, 0) : raw(SYS_write, fd, (long)b, m, 0, 0, 0);
        if (r > 0) add_mut(C_WRITE, id, (uint64_t)pos, (uint64_t)r, 0);
        uint64_t h = 0; for (size_t i = 0; i < m; i += 61) h = h * 131 + ((const unsigned char *)b)[i];
        hash64(&K->hash, h);
    }
    if (r > 0 && m < n) K->frag_writes++;
    if (a.action == A_CRASH_AFTER || a.action == A_CRASH_TORN) die(S_CRASHED, a.action == A_CRASH_TORN ? "crash inside write" : "crash after write");
    return ret_errno(r);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!active() || fdp(fd) < 0) return ret_errno(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
    /* a vectored write may legally write only its first non-empty part */
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}

static off64_t do_lseek(int fd, off64_t o, int w)
{
    int id = active() ? fdp(fd) : -1;
    if (id < 0) return ret_errno(raw(SYS_lseek, fd, o, w, 0, 0, 0));
    struct act a = op(C_LSEEK, id, (uint64_t)o);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r = raw(SYS_lseek, fd, o, w, 0, 0, 0);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after seek");
    return ret_errno(r);
}
EXPORT off_t lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return do_lseek(fd, o, w); }

static int do_stat(int dirfd, const char *p, void *st, int flags, int fd)
{
    char rp[PATH_MAX];
    int id = -1;
    if (active()) {
        if (fd >= 0) id = fdp(fd);
        else if (dirfd == AT_FDCWD || (p && p[0] == '/')) id = map_path(p, rp);
    }
    if (id < 0) {
        if (fd >= 0) return (int)ret_errno(raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0));
        return (int)ret_errno(raw(SYS_newfstatat, dirfd, (long)p, (long)st, flags, 0, 0));
    }
    struct act a = op(C_STAT, id, 0);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r = fd >= 0 ? raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0) : raw(SYS_newfstatat, dirfd, (long)rp, (long)st, flags, 0, 0);
    if (r == 0 && fd <= 2 && fd >= 0) ((struct stat *)st)->st_ino = 3;
    if (r == 0) {
        struct stat *s = st;
        stamp_init(id);
        struct timespec t = {stamp[id].mtime / 1000000000, stamp[id].mtime % 1000000000};
        s->st_mtim = s->st_atim = s->st_ctim = t;
        s->st_ino = stamp[id].ino; s->st_dev = 2049;
    }
    return (int)ret_errno(r);
}
EXPORT int fstat(int fd, struct stat *s) { return do_stat(0, 0, s, 0, fd); }
EXPORT int fstat64(int fd, struct stat64 *s) { return do_stat(0, 0, s, 0, fd); }
EXPORT int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0, -1); }
EXPORT int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, 0, -1); }
EXPORT int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW, -1); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW, -1); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f, -1); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, s, f, -1); }
EXPORT int statx(int d, const char *p, int flags, unsigned mask, struct statx *sx)
{
    char rp[PATH_MAX];
    int id = -1;
    __asm__("" : "+r"(p)); /* Rust probes statx() with a null path, which the header says cannot be */
    const char *q = p;
    if (active()) {
        if ((flags & AT_EMPTY_PATH) && (!p || !p[0])) id = fdp(d);
        else if (p && (d == AT_FDCWD || p[0] == '/')) { id = map_path(p, rp); q = rp; }
    }
    if (id >= 0) {
        struct act a = op(C_STAT, id, 0);
        if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    }
    long r = raw(SYS_statx, d, (long)q, flags, mask, (long)sx, 0);
    if (r == 0 && id >= 0) {
        stamp_init(id);
        struct statx_timestamp t;
        memset(&t, 0, sizeof t);
        t.tv_sec = stamp[id].mtime / 1000000000; t.tv_nsec = (uint32_t)(stamp[id].mtime % 1000000000);
        sx->stx_mtime = sx->stx_atime = sx->stx_ctime = sx->stx_btime = t;
        sx->stx_ino = stamp[id].ino; sx->stx_dev_major = 8; sx->stx_dev_minor = 1;
    }
    return (int)ret_errno(r);
}
EXPORT int access(const char *p, int m)
{
    char rp[PATH_MAX];
    int id = active() ? map_path(p, rp) : -1;
    if (id < 0) return (int)ret_errno(raw(SYS_faccessat, AT_FDCWD, (long)p, m, 0, 0, 0));
    struct act a = op(C_STAT, id, 0);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    return (int)ret_errno(raw(SYS_faccessat, AT_FDCWD, (long)rp, m, 0, 0, 0));
}

static int do_sync(int fd, long nr)
{
    int id = active() ? fdp(fd) : -1;
    if (id < 0) return (int)ret_errno(raw(nr, fd, 0, 0, 0, 0, 0));
    struct act a = op(C_FSYNC, id, 0);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r = raw(nr, fd, 0, 0, 0, 0, 0);
    add_mut(C_FSYNC, id, 0, 0, 0);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after fsync");
    return (int)ret_errno(r);
}
EXPORT int fsync(int fd) { return do_sync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_ftrunc(int fd, off64_t l)
{
    int id = active() ? fdp(fd) : -1;
    if (id < 0) return (int)ret_errno(raw(SYS_ftruncate, fd, l, 0, 0, 0, 0));
    struct act a = op(C_TRUNC, id, (uint64_t)l);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r = raw(SYS_ftruncate, fd, l, 0, 0, 0, 0);
    if (r == 0) add_mut(C_TRUNC, id, (uint64_t)l, 0, 0);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after truncate");
    return (int)ret_errno(r);
}
EXPORT int ftruncate(int fd, off_t l) { return do_ftrunc(fd, l); }
EXPORT int ftruncate64(int fd, off64_t l) { return do_ftrunc(fd, l); }
static int do_trunc(const char *p, off64_t l)
{
    char rp[PATH_MAX];
    int id = active() ? map_path(p, rp) : -1;
    if (id < 0) return (int)ret_errno(raw(SYS_truncate, (long)p, l, 0, 0, 0, 0));
    struct act a = op(C_TRUNC, id, (uint64_t)l);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r = raw(SYS_truncate, (long)rp, l, 0, 0, 0, 0);
    if (r == 0) add_mut(C_TRUNC, id, (uint64_t)l, 0, 0);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after truncate");
    return (int)ret_errno(r);
}
EXPORT int truncate(const char *p, off_t l) { return do_trunc(p, l); }
EXPORT int truncate64(const char *p, off64_t l) { return do_trunc(p, l); }

static int two_paths(int call, long nr, int d1, const char *p, int d2, const char *q, unsigned flags)
{
    char rp[PATH_MAX], rq[PATH_MAX];
    int id = -1, id2 = -1;
    if (active() && (d1 == AT_FDCWD || p[0] == '/') && (d2 == AT_FDCWD || q[0] == '/')) { id = map_path(p, rp); id2 = map_path(q, rq); }
    if (id < 0 && id2 < 0) return (int)ret_errno(raw(nr, d1, (long)p, d2, (long)q, flags, 0));
    struct act a = op(call, id2 >= 0 ? id2 : id, 0);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r = raw(nr, d1, (long)rp, d2, (long)rq, flags, 0);
    if (r == 0) add_mut(call, id, 0, 0, id2);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after rename");
    return (int)ret_errno(r);
}
EXPORT int rename(const char *p, const char *q) { return two_paths(C_RENAME, SYS_renameat2, AT_FDCWD, p, AT_FDCWD, q, 0); }
EXPORT int renameat(int d, const char *p, int e, const char *q) { return two_paths(C_RENAME, SYS_renameat2, d, p, e, q, 0); }
EXPORT int renameat2(int d, const char *p, int e, const char *q, unsigned f) { return two_paths(C_RENAME, SYS_renameat2, d, p, e, q, f); }
EXPORT int link(const char *p, const char *q) { return two_paths(C_LINK, SYS_linkat, AT_FDCWD, p, AT_FDCWD, q, 0); }
EXPORT int linkat(int d, const char *p, int e, const char *q, int f) { return two_paths(C_LINK, SYS_linkat, d, p, e, q, (unsigned)f); }
EXPORT int symlink(const char *p, const char *q)
{
    char rq[PATH_MAX];
    int id = active() ? map_path(q, rq) : -1;
    if (id < 0) return (int)ret_errno(raw(SYS_symlinkat, (long)p, AT_FDCWD, (long)q, 0, 0, 0));
    struct act a = op(C_LINK, id, 0);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    add_mut(C_LINK, id, 0, 0, 0);
    return (int)ret_errno(raw(SYS_symlinkat, (long)p, AT_FDCWD, (long)rq, 0, 0, 0));
}
static int one_path(int call, long nr, int d, const char *p, long x)
{
    char rp[PATH_MAX];
    int id = (active() && (d == AT_FDCWD || p[0] == '/')) ? map_path(p, rp) : -1;
    if (id < 0) return (int)ret_errno(raw(nr, d, (long)p, x, 0, 0, 0));
    struct act a = op(call, id, 0);
    if (a.action == A_ERRNO) { errno = (int)a.arg; return -1; }
    long r = raw(nr, d, (long)rp, x, 0, 0, 0);
    if (r == 0) add_mut(call, id, 0, 0, 0);
    if (a.action == A_CRASH_AFTER) die(S_CRASHED, "crash after call");
    return (int)ret_errno(r);
}
EXPORT int unlink(const char *p) { return one_path(C_UNLINK, SYS_unlinkat, AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { return one_path(C_UNLINK, SYS_unlinkat, d, p, f); }
EXPORT int rmdir(const char *p) { return one_path(C_UNLINK, SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
EXPORT int remove(const char *p)
{
    int r = one_path(C_UNLINK, SYS_unlinkat, AT_FDCWD, p, 0);
    if (r < 0 && errno == EISDIR) r = one_path(C_UNLINK, SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
    return r;
}
EXPORT int mkdir(const char *p, mode_t m) { return one_path(C_MKDIR, SYS_mkdirat, AT_FDCWD, p, m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { return one_path(C_MKDIR, SYS_mkdirat, d, p, m); }
EXPORT int chmod(const char *p, mode_t m) { return one_path(C_OTHER, SYS_fchmodat, AT_FDCWD, p, m); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; return one_path(C_OTHER, SYS_fchmodat, d, p, m); }

EXPORT int chdir(const char *p)
{
    char rp[PATH_MAX], rel[PATH_MAX * 2];
    if (!active()) return (int)ret_errno(raw(SYS_chdir, (long)p, 0, 0, 0, 0, 0));
    int id = map_path(p, rp);
    op(C_CHDIR, id, 0);
    long r = raw(SYS_chdir, (long)(id >= 0 ? rp : p), 0, 0, 0, 0, 0);
    if (r == 0 && id >= 0) {
        if (p[0] == '/') snprintf(rel, sizeof rel, "%s", !strncmp(p, "/sim", 4) ? p + 4 : p + rootlen);
        else snprintf(rel, sizeof rel, "%s/%s", vcwd, p);
        normalise(vcwd, rel);
    }
    return (int)ret_errno(r);
}
EXPORT char *getcwd(char *b, size_t n)
{
    char t[PATH_MAX + 8];
    if (!active()) { long r = raw(SYS_getcwd, (long)b, n, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return NULL; } return b; }
    snprintf(t, sizeof t, "/sim%s%s", vcwd[0] ? "/" : "", vcwd);
    if (!b) return strdup(t);
    if (strlen(t) + 1 > n) { errno = ERANGE; return NULL; }
    strcpy(b, t);
    return b;
}
EXPORT char *realpath(const char *p, char *out)
{
    static char *(*rr)(const char *, char *);
    if (!rr) rr = dlsym(RTLD_NEXT, "realpath");
    if (!active()) return rr(p, out);
    char rp[PATH_MAX], res[PATH_MAX];
    int id = map_path(p, rp);
    if (id >= 0) { struct act a = op(C_STAT, id, 0); if (a.action == A_ERRNO) { errno = (int)a.arg; return NULL; } }
    if (!rr(id >= 0 ? rp : p, res)) return NULL;
    char fin[PATH_MAX];
    if (!strncmp(res, root, rootlen) && (res[rootlen] == '/' || !res[rootlen])) snprintf(fin, sizeof fin, "/sim%s", res + rootlen);
    else snprintf(fin, sizeof fin, "%s", res);
    if (!out) return strdup(fin);
    strcpy(out, fin);
    return out;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n)
{
    char rp[PATH_MAX];
    int id = active() ? map_path(p, rp) : -1;
    return ret_errno(raw(SYS_readlinkat, AT_FDCWD, (long)(id >= 0 ? rp : p), (long)b, n, 0, 0));
}
EXPORT DIR *opendir(const char *p)
{
    static DIR *(*ro)(const char *);
    if (!ro) ro = dlsym(RTLD_NEXT, "opendir");
    char rp[PATH_MAX];
    int id = active() ? map_path(p, rp) : -1;
    if (id >= 0) { struct act a = op(C_DIR, id, 0); if (a.action == A_ERRNO) { errno = (int)a.arg; return NULL; } }
    return ro(id >= 0 ? rp : p);
}
EXPORT ssize_t copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned f)
{
    int id = active() ? fdp(fo) : -1;
    if (id < 0) return ret_errno(raw(SYS_copy_file_range, fi, (long)oi, fo, (long)oo, n, f));
    (void)oi; (void)oo; (void)f;
    errno = ENOSYS;             /* legal: makes std fall back to read/write, which we see */
    return -1;
}
EXPORT ssize_t sendfile(int fo, int fi, off_t *o, size_t n)
{
    if (!active() || fdp(fo) < 0) return ret_errno(raw(SYS_sendfile, fo, fi, (long)o, n, 0, 0));
    errno = ENOSYS; return -1;
}
EXPORT ssize_t sendfile64(int fo, int fi, off64_t *o, size_t n)
{
    if (!active() || fdp(fo) < 0) return ret_errno(raw(SYS_sendfile, fo, fi, (long)o, n, 0, 0));
    errno = ENOSYS; return -1;
}
EXPORT ssize_t splice(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned f)
{
    if (!active() || fdp(fo) < 0) return ret_errno(raw(SYS_splice, fi, (long)oi, fo, (long)oo, n, f));
    errno = EINVAL; return -1;
}
EXPORT int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap);
    long r = raw(SYS_fcntl, fd, cmd, x, 0, 0, 0);
    if (active() && r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) setfd((int)r, fdp(fd));
    return (int)ret_errno(r);
}
EXPORT int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap);
    long r = raw(SYS_fcntl, fd, cmd, x, 0, 0, 0);
    if (active() && r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) setfd((int)r, fdp(fd));
    return (int)ret_errno(r);
}
EXPORT int dup(int fd) { long r = raw(SYS_dup, fd, 0, 0, 0, 0, 0); if (active() && r >= 0) setfd((int)r, fdp(fd)); return (int)ret_errno(r); }

/* ------------------------------------------------------------------ terminal, clock, randomness */
EXPORT int isatty(int fd)
{
    if (!active()) { struct { char x[64]; } t; return raw(SYS_ioctl, fd, TCGETS, (long)&t, 0, 0, 0) == 0; }
    op(C_TTY, -1, 0);
    if (fd <= 2 && K->tty) return 1;
    errno = ENOTTY; return 0;
}
EXPORT int ioctl(int fd, unsigned long rq, ...)
{
    va_list ap; va_start(ap, rq); void *x = va_arg(ap, void *); va_end(ap);
    if (active() && fd <= 2 && rq == TIOCGWINSZ) {
        op(C_TTY, -1, 0);
        if (!K->tty) { errno = ENOTTY; return -1; }
        struct winsize *w = x; memset(w, 0, sizeof *w);
        w->ws_col = K->tty & 0xffff; w->ws_row = (K->tty >> 16) & 0x7fff;
        return 0;
    }
    return (int)ret_errno(raw(SYS_ioctl, fd, rq, (long)x, 0, 0, 0));
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!active()) return (int)ret_errno(raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
    struct act a = op(C_CLOCK, -1, (uint64_t)c);
    (void)a;
    int64_t v = now_ns;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v = now_ns - K->clock_mono0 + K->clock_real0 + real_off;
    if (v < 0) v = 0;
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return r;
}
EXPORT time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static uint64_t rndctr;
static void fill_random(void *b, size_t n)
{
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)mix(K->hash_seed ^ mix(++rndctr));
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (!active()) return ret_errno(raw(SYS_getrandom, (long)b, n, f, 0, 0, 0));
    op(C_RAND, -1, n);
    fill_random(b, n);
    return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

static void sleep_until(int64_t dl)
{
    op(C_SLEEP, -1, 0);
    me->deadline = dl; me->timedout = 0; me->seq = ++waitseq; me->state = T_SLEEP;
    if (nthr == 1) { if (dl > now_ns) now_ns = dl; me->state = T_RUN; K->timer_jumps++; return; }
    block_me();
}
EXPORT int nanosleep(const struct timespec *q, struct timespec *rem)
{
    if (!active()) return (int)ret_errno(raw(SYS_nanosleep, (long)q, (long)rem, 0, 0, 0, 0));
    sleep_until(now_ns + q->tv_sec * 1000000000ll + q->tv_nsec);
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *rem)
{
    if (!active()) return (int)-raw(SYS_clock_nanosleep, c, fl, (long)q, (long)rem, 0, 0);
    int64_t v = q->tv_sec * 1000000000ll + q->tv_nsec;
    sleep_until((fl & TIMER_ABSTIME) ? v : now_ns + v);
    return 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }
EXPORT int sched_yield(void)
{
    if (!active()) return 0;
    op(C_YIELD, -1, 0);
    /* a thread that yields waits for another: whatever the policy, somebody else gets a turn */
    struct thr *r[MAXT], *o[MAXT];
    int n = candidates(r), m = 0;
    for (int j = 0; j < n; j++) if (r[j] != me) o[m++] = r[j];
    if (m) switch_to(o[mix(K->sched_seed ^ K->ops) % (uint64_t)m]);
    return 0;
}
EXPORT int poll(struct pollfd *p, nfds_t n, int t)
{
    if (!active()) return (int)ret_errno(raw(SYS_poll, (long)p, n, t, 0, 0, 0));
    return (int)ret_errno(raw(SYS_poll, (long)p, n, 0, 0, 0, 0));
}

/* the number of processors the program sees */
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *c)
{
    if (!active()) { long r = raw(SYS_sched_getaffinity, p, (long)n, (long)c, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    uint32_t k = K->ncpu ? K->ncpu : 4;
    memset(c, 0, n);
    for (uint32_t i = 0; i < k && i < n * 8; i++) ((unsigned char *)c)[i >> 3] |= (unsigned char)(1u << (i & 7));
    return 0;
}
EXPORT long sysconf(int name)
{
    static long (*rs)(int);
    if (!rs) rs = dlsym(RTLD_NEXT, "sysconf");
    if (active()) {
        if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return K->ncpu ? K->ncpu : 4;
        if (name == _SC_PHYS_PAGES || name == _SC_AVPHYS_PAGES) return 1 << 20;
    }
    return rs(name);
}
EXPORT int get_nprocs(void) { return active() ? (int)(K->ncpu ? K->ncpu : 4) : 1; }

/* ------------------------------------------------------------------ futex and threads */
static long sim_futex(uint32_t *u, int fop, uint32_t val, const struct timespec *to, uint32_t val3)
{
    int cmd = fop & FUTEX_CMD_MASK;
    switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
        struct act a = op(C_FWAIT, -1, val);
        if (a.action == A_SPURIOUS) { K->spurious++; return 0; }
        if (a.action == A_ERRNO) { K->spurious++; return -a.arg; }
        if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        me->uaddr = u;
        me->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
        me->deadline = -1;
        me->timedout = 0;
        if (to) {
            int64_t v = to->tv_sec * 1000000000ll + to->tv_nsec;
            if (cmd == FUTEX_WAIT_BITSET) {
                if (fop & FUTEX_CLOCK_REALTIME) v = v - K->clock_real0 + K->clock_mono0;
            } else v += now_ns;
            me->deadline = v < 0 ? 0 : v;
        }
        me->seq = ++waitseq;
        me->state = T_FUTEX;
        block_me();
        if (me->timedout) { me->timedout = 0; return -ETIMEDOUT; }
        return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        op(C_FWAKE, -1, val);
        uint32_t bs = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
        uint32_t n = 0;
        while (n < val) {
            struct thr *b = NULL;
            for (int i = 0; i < nthr; i++)
                if (T[i].state == T_FUTEX && T[i].uaddr == u && (T[i].bitset & bs) && (!b || T[i].seq < b->seq)) b = &T[i];
            if (!b) break;
            b->state = T_RUN;
            n++;
        }
        if (n && K->policy == P_OTHERS) sched_point();
        return n;
    }
    default:
        die(S_INTERNAL, "unsupported futex operation");
        return -ENOSYS;
    }
}
EXPORT long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active()) {
        if (n == SYS_futex) return ret_errno(sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f));
        if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
        if (n == SYS_statx) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
        if (n == SYS_copy_file_range || n == SYS_sendfile) { errno = ENOSYS; return -1; }
        if (n == SYS_renameat2) return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
        if (n == SYS_gettid) return 1000 + me->id;
    }
    return ret_errno(raw(n, a, b, c, d, e, f));
}

/* an environment with whatever the program may ask for: the variables that are not set may have a value */
EXPORT char *getenv(const char *name)
{
    extern char **environ;
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (!n || !active() || !K->env_seed) return NULL;
    /* the runtime's own: not the program's behaviour */
    if (!strncmp(name, "RUST_", 5) || !strncmp(name, "LD_", 3) || !strncmp(name, "MALLOC_", 7) || !strncmp(name, "VSIM_", 5)) return NULL;
    static const char *const vals[] = { "1", "1", "0", "", "true", "false", "yes", "2", "0.5", "100", "/sim", "D100", "none", "\xff" };
    uint64_t h = mix(K->env_seed);
    for (size_t i = 0; i < n; i++) hash64(&h, (unsigned char)name[i]);
    if (h % 3 == 0) return NULL;
    return (char *)vals[(h >> 8) % (sizeof vals / sizeof *vals)];
}
EXPORT char *secure_getenv(const char *name) { return getenv(name); }

EXPORT pid_t gettid(void) { return active() ? 1000 + me->id : (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); }
EXPORT pid_t getpid(void) { return active() ? 1000 : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXPORT int kill(pid_t p, int sig)
{
    /* only itself: nothing outside the simulation may be reached */
    if (p == 1000 || !active()) return (int)ret_errno(raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), sig, 0, 0, 0, 0));
    errno = EPERM;
    return -1;
}

static void thread_exit(void *p)
{
    struct thr *t = p;
    if (!K) return;
    /* runs after thread-local destructors; the token passes on and this thread is gone */
    K->ops++;
    hash64(&K->hash, 0xe417ull ^ (uint64_t)t->id);
    tracef("%lu thr%d exits\n", K->ops, t->id);
    t->state = T_EXIT;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_JOIN && T[i].joinee == t) T[i].state = T_RUN;
    struct thr *r[MAXT];
    int n;
    while ((n = candidates(r)) == 0) if (!fire_timers()) describe_deadlock();
    struct thr *nx = choose(r, n, t);
    K->switches++;
    streak = 0;
    edge_fair_at = edges + FAIR_EDGES;
    recompute_edge_next();
    hash64(&K->sched_hash, ((uint64_t)nx->id << 32) ^ K->ops);
    me = NULL;
    go(nx);
}
static void *trampoline(void *p)
{
    struct thr *t = p;
    park(t);
    me = t;
    pthread_setspecific(exit_key, t);
    tracef("%lu thr%d starts\n", K->ops, t->id);
    return t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    if (!active()) {
        if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
        return real_pthread_create(out, at, fn, arg);
    }
    struct act a = op(C_THREAD, -1, 0);
    if (a.action == A_ERRNO) return (int)a.arg;
    if (nthr >= MAXT) die(S_INTERNAL, "too many threads");
    struct thr *t = &T[nthr];
    memset(t, 0, sizeof *t);
    t->id = nthr; t->fn = fn; t->arg = arg; t->deadline = -1;
    t->prio = mix(K->sched_seed ^ (uint64_t)(nthr + 7777));
    nthr++;
    K->nthreads = nthr;
    int r = real_pthread_create(&t->pt, at, trampoline, t);
    if (r) { nthr--; return r; }
    *out = t->pt;
    sched_point();
    return 0;
}
EXPORT int pthread_join(pthread_t p, void **ret)
{
    if (!active()) {
        if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
        return real_pthread_join(p, ret);
    }
    op(C_JOIN, -1, 0);
    struct thr *t = NULL;
    for (int i = 0; i < nthr; i++) if (i && T[i].pt == p) t = &T[i];
    if (t && t->state != T_EXIT) {
        me->joinee = t; me->state = T_JOIN; me->deadline = -1;
        block_me();
    }
    return real_pthread_join(p, ret);
}
/* used by the library driver to record outcomes and by nobody else */
EXPORT void vsim_report(uint32_t id, int32_t code)
{
    if (!active()) return;
    hash64(&K->hash, ((uint64_t)id << 32) ^ (uint32_t)code);
    tracef("report %u = %d\n", id, code);
    if (K->nrep < MAXREP) { K->rep[K->nrep].id = id; K->rep[K->nrep].code = code; K->rep[K->nrep].op = K->ops; K->nrep++; }
}

/* ------------------------------------------------------------------ allocation */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
static int alloc_fault(void)
{
    if (likely(!K) || !me) return 0;
    K->allocs++;
    if (unlikely(K->alloc_fail && K->allocs == K->alloc_fail)) { tracef("allocation %lu fails\n", K->allocs); errno = ENOMEM; return 1; }
    return 0;
}
EXPORT void *malloc(size_t n) { return alloc_fault() ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_fault() ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return alloc_fault() ? NULL : __libc_realloc(p, n); }
EXPORT int posix_memalign(void **o, size_t al, size_t n) { if (alloc_fault()) return ENOMEM; void *p = __libc_memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
EXPORT void *aligned_alloc(size_t al, size_t n) { return alloc_fault() ? NULL : __libc_memalign(al, n); }

/* ------------------------------------------------------------------ start and end */
__attribute__((constructor)) static void vsim_init(void)
{
    const char *c = getenv("VSIM_CTL"), *r = getenv("VSIM_ROOT"), *t = getenv("VSIM_TRACE");
    if (!c || !r) return;
    long fd = raw(SYS_openat, AT_FDCWD, (long)c, O_RDWR | O_CLOEXEC, 0, 0, 0);
    if (fd < 0) { raw(SYS_exit_group, 89, 0, 0, 0, 0, 0); }
    void *m = (void *)raw(SYS_mmap, 0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    raw(SYS_close, fd, 0, 0, 0, 0, 0);
    struct ctl *k = m;
    if (k->magic != VS_MAGIC || k->size != sizeof(struct ctl)) raw(SYS_exit_group, 88, 0, 0, 0, 0, 0);
    strncpy(root, r, sizeof root - 1);
    rootlen = strlen(root);
    unsetenv("LD_PRELOAD"); unsetenv("VSIM_CTL"); unsetenv("VSIM_ROOT"); unsetenv("VSIM_TRACE");
    real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    pthread_key_create(&exit_key, thread_exit);
    if (k->trace && t) trace_fd = (int)raw(SYS_openat, AT_FDCWD, (long)t, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644, 0, 0);
    now_ns = k->clock_mono0;
    T[0].id = 0; T[0].pt = pthread_self(); T[0].deadline = -1; T[0].prio = mix(k->sched_seed ^ 7777);
    nthr = 1;
    k->nthreads = 1;
    K = k;
    intern("<stdin>"); intern("<stdout>"); intern("<stderr>");
    setfd(0, 0); setfd(1, 1); setfd(2, 2);
    recompute_edge_next();
    edges = 0;
    me = &T[0];
}
__attribute__((destructor)) static void vsim_fini(void)
{
    if (!K) return;
    sync_counters();
    tracef("process exits\n");
}
