//! Mirror of shim/vshim.h.  A size mismatch is refused by the shim at start-up.
pub const MAGIC: u32 = 0x56534d31;
pub const MAXRULES: usize = 48;
pub const MAXPRE: usize = 32;
pub const MAXSITES: usize = 384;
pub const MAXPATHS: usize = 160;
pub const PATHLEN: usize = 96;
pub const MAXMUT: usize = 2048;
pub const OUTCAP: usize = 4 << 20;
pub const ERRCAP: usize = 16384;
pub const MAXREP: usize = 64;
pub const COVBYTES: usize = 16384;

pub const CALLS: [&str; 28] = [
    "?", "open", "read", "write", "lseek", "stat", "close", "fsync", "rename", "unlink", "trunc", "mkdir", "mmap",
    "thread", "join", "fwait", "fwake", "clock", "rand", "tty", "sleep", "yield", "exit", "other", "alloc", "link",
    "dir", "chdir",
];
pub fn call_id(name: &str) -> u32 {
    CALLS.iter().position(|c| *c == name).unwrap_or(0) as u32
}
pub const ACTIONS: [&str; 10] =
    ["none", "errno", "short", "eof", "crash", "torn", "crash_after", "spurious", "jump", "stall"];
pub fn action_id(name: &str) -> u32 {
    ACTIONS.iter().position(|c| *c == name).unwrap_or(0) as u32
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CRule {
    pub call: u32,
    pub action: u32,
    pub nth: u32,
    pub count: u32,
    pub arg: i64,
    pub path: [u8; PATHLEN],
    pub seen: u32,
    pub fired: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CPre {
    pub op: u64,
    pub edges: u32,
    pub choice: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CSite {
    pub call: u32,
    pub path: u32,
    pub count: u64,
    pub bytes: u64,
    pub first_op: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CMut {
    pub kind: u32,
    pub path: u32,
    pub off: u64,
    pub len: u64,
    pub op: u64,
    pub path2: u32,
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CRep {
    pub id: u32,
    pub code: i32,
    pub op: u64,
}
#[repr(C)]
pub struct Ctl {
    pub magic: u32,
    pub size: u32,
    pub hash_seed: u64,
    pub sched_seed: u64,
    pub edge_budget: u64,
    pub op_budget: u64,
    pub crash_op: u64,
    pub crash_edges: u64,
    pub clock_mono0: i64,
    pub clock_real0: i64,
    pub clock_step: i64,
    pub policy: u32,
    pub tty: u32,
    pub read_frag: u32,
    pub write_frag: u32,
    pub trace: u32,
    pub nrules: u32,
    pub npre: u32,
    pub frag_open_all: u32,
    pub alloc_fail: u64,
    pub frag_seed: u64,
    pub latency: u64,
    pub stat_seed: u64,
    pub ncpu: u32,
    pub env_seed: u32,
    pub writable: [u8; PATHLEN],
    pub rules: [CRule; MAXRULES],
    pub pre: [CPre; MAXPRE],
    // results
    pub status: u32,
    pub nthreads: u32,
    pub ops: u64,
    pub edges: u64,
    pub allocs: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub preempts: u64,
    pub simtime: u64,
    pub cov_edges: u64,
    pub frag_reads: u64,
    pub frag_writes: u64,
    pub blocked_waits: u64,
    pub timer_jumps: u64,
    pub spurious: u64,
    pub nsites: u32,
    pub npaths: u32,
    pub nmut: u32,
    pub mut_overflow: u32,
    pub out_len: u64,
    pub err_len: u64,
    pub out_hash: u64,
    pub nrep: u32,
    pub pad1: u32,
    pub rep: [CRep; MAXREP],
    pub sites: [CSite; MAXSITES],
    pub paths: [[u8; PATHLEN]; MAXPATHS],
    pub muts: [CMut; MAXMUT],
    pub err: [u8; ERRCAP],
    pub note: [u8; 256],
    pub cov: [u8; COVBYTES],
    pub out: [u8; OUTCAP],
}

pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
