//! Runs one process of the real program under the simulator shim, on a scratch disk.
use crate::ctl::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub type Disk = BTreeMap<String, Arc<Vec<u8>>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rule {
    pub call: String,
    #[serde(default)]
    pub path: String,
    pub nth: u32,
    pub count: u32,
    pub action: String,
    #[serde(default)]
    pub arg: i64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Pre {
    pub op: u64,
    pub edges: u32,
    pub choice: u32,
}

/// Everything that decides one execution, as data.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Plan {
    pub policy: u32,
    pub sched_seed: u64,
    pub hash_seed: u64,
    pub tty: u32,
    pub read_frag: u32,
    pub write_frag: u32,
    pub frag_seed: u64,
    pub clock_real0: i64,
    pub clock_step: i64,
    pub latency: u64,
    pub alloc_fail: u64,
    pub crash_op: u64,
    pub crash_edges: u64,
    pub stat_seed: u64,
    pub ncpu: u32,
    /// values of environment variables that are not set (0: none)
    pub env_seed: u32,
    /// if set, everything else is write-protected
    pub writable: String,
    pub env: Vec<String>,
    pub rules: Vec<Rule>,
    pub pre: Vec<Pre>,
}
impl Default for Plan {
    fn default() -> Plan {
        Plan {
            policy: 0,
            sched_seed: 0,
            hash_seed: 0,
            tty: 0,
            read_frag: 0,
            write_frag: 0,
            frag_seed: 0,
            clock_real0: 1_700_000_000_000_000_000,
            clock_step: 2_000,
            latency: 1,
            alloc_fail: 0,
            crash_op: 0,
            crash_edges: 0,
            stat_seed: 0,
            ncpu: 0,
            env_seed: 0,
            writable: String::new(),
            env: vec![],
            rules: vec![],
            pre: vec![],
        }
    }
}
pub const POLICIES: [&str; 6] = ["stay", "round-robin", "random", "priority", "others-first", "main-first"];

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Crashed,
    Deadlock,
    Livelock,
    Internal,
    Timeout,
}
#[derive(Clone, Debug)]
pub struct Site {
    pub call: String,
    pub path: String,
    pub count: u64,
    pub bytes: u64,
    pub first_op: u64,
}
#[derive(Clone, Debug)]
pub struct Mutation {
    pub kind: String,
    pub path: String,
    pub path2: String,
    pub off: u64,
    pub len: u64,
}
#[derive(Clone, Debug)]
pub struct Run {
    pub end: End,
    pub note: String,
    pub ops: u64,
    pub edges: u64,
    pub allocs: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub preempts: u64,
    pub simtime: u64,
    pub threads: u32,
    pub frag_reads: u64,
    pub frag_writes: u64,
    pub spurious: u64,
    pub timer_jumps: u64,
    pub sites: Vec<Site>,
    /// every name the program used, whether or not there was a file of it
    pub paths: Vec<String>,
    pub muts: Vec<Mutation>,
    pub mut_overflow: bool,
    pub fired: Vec<u32>,
    pub reports: Vec<(u32, i32)>,
    /// what a dump printed, and length and hash of all output
    pub out: String,
    pub out_id: (u64, u64),
    pub err: String,
    pub disk: Disk,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.end == End::Exit(0)
    }
    /// the process ended by itself (success or any kind of failure, including abort)
    pub fn ended(&self) -> bool {
        matches!(self.end, End::Exit(_) | End::Signal(_))
    }
    pub fn failed(&self) -> bool {
        self.ended() && !self.ok()
    }
    pub fn hung(&self) -> bool {
        matches!(self.end, End::Deadlock | End::Livelock | End::Timeout)
    }
    pub fn describe(&self) -> String {
        let why = self.err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" / ");
        let mut s = format!("{:?}", self.end);
        if !self.note.is_empty() {
            s += &format!(" ({})", self.note);
        }
        if !why.is_empty() {
            s += &format!(" stderr: {}", why.chars().take(240).collect::<String>());
        }
        s
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub processes: u64,
    pub simtime: u64,
    pub ops: u64,
    pub edges: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub scheds: std::collections::HashSet<u64>,
    pub hashes: std::collections::HashSet<u64>,
    pub ends: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub cov: Vec<u8>,
    pub policies: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.processes += o.processes;
        self.simtime += o.simtime;
        self.ops += o.ops;
        self.edges += o.edges;
        self.switches += o.switches;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.ends {
            *self.ends.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.counters {
            *self.counters.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.policies {
            *self.policies.entry(k.clone()).or_default() += v;
        }
        self.scheds.extend(o.scheds.iter());
        self.hashes.extend(o.hashes.iter());
        if self.cov.len() < o.cov.len() {
            self.cov.resize(o.cov.len(), 0);
        }
        for (a, b) in self.cov.iter_mut().zip(o.cov.iter()) {
            *a |= b;
        }
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn covered(&self) -> u64 {
        self.cov.iter().map(|b| b.count_ones() as u64).sum()
    }
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn personality(p: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
}

pub struct World {
    pub dir: PathBuf,
    root: PathBuf,
    ctl_path: PathBuf,
    ctl: *mut Ctl,
    on_disk: Disk,
    dirty: bool,
    /// the command line tool and the library driver: release builds and builds with run-time checks
    pub cli: [PathBuf; 2],
    pub driver: [PathBuf; 2],
    pub checked: bool,
    shim: PathBuf,
    pub stats: Stats,
    pub trace: Option<PathBuf>,
    pub edge_budget: u64,
    /// property being decided: histories stop at its first violation
    pub target: String,
    /// fold of the hashes of all executions since `evaluate` began
    pub hashlog: u64,
    /// every execution's hash, kept when wanted
    pub hashes: Option<Vec<u64>>,
    /// something disturbed an execution, or a model was compared with
    pub active: bool,
    refs: std::collections::VecDeque<((bool, bool), Vec<String>, Disk, Run)>,
}
unsafe impl Send for World {}

impl Drop for World {
    fn drop(&mut self) {
        unsafe {
            munmap(self.ctl as *mut u8, std::mem::size_of::<Ctl>());
        }
        let _ = fs::remove_dir_all(&self.dir);
    }
}

impl World {
    pub fn new(scratch: &Path, name: &str, cli: [PathBuf; 2], driver: [PathBuf; 2]) -> World {
        // fixed-length directory names: path lengths must not differ between workers
        let dir = scratch.join(name);
        let root = dir.join("disk");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&root).expect("scratch directory");
        let ctl_path = dir.join("ctl");
        let f = fs::OpenOptions::new().create(true).read(true).write(true).open(&ctl_path).unwrap();
        f.set_len(std::mem::size_of::<Ctl>() as u64).unwrap();
        use std::os::unix::io::AsRawFd;
        let p = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        World {
            dir,
            root,
            ctl_path,
            ctl: p as *mut Ctl,
            on_disk: Disk::new(),
            dirty: true,
            cli,
            driver,
            checked: false,
            shim: crate::build_dir().join("shim/libvshim.so"),
            stats: Stats::default(),
            trace: None,
            edge_budget: 1_200_000_000,
            target: String::new(),
            hashlog: 0,
            hashes: None,
            active: false,
            refs: Default::default(),
        }
    }

    pub fn forget(&mut self) {
        self.refs.clear();
    }
    /// the undisturbed execution, remembered for a while
    pub fn reference(&mut self, driver: bool, args: &[String], disk: &Disk) -> Run {
        if let Some(x) = self.refs.iter().find(|x| x.0 == (driver, self.checked) && x.1 == args && x.2 == *disk) {
            let r = x.3.clone();
            self.hashlog = crate::rng::mix(self.hashlog ^ r.hash);
            return r;
        }
        let b = self.edge_budget;
        self.edge_budget = 1_200_000_000;
        let r = self.run(driver, args, disk, &Plan::default());
        self.edge_budget = b;
        if self.refs.len() >= 12 {
            self.refs.pop_front();
        }
        self.refs.push_back(((driver, self.checked), args.to_vec(), disk.clone(), r.clone()));
        r
    }

    fn materialise(&mut self, disk: &Disk) {
        if self.dirty {
            let _ = fs::remove_dir_all(&self.root);
            fs::create_dir_all(&self.root).unwrap();
            self.on_disk.clear();
            self.dirty = false;
        }
        let _ = fs::create_dir_all(self.root.join("@tmp"));
        let gone: Vec<String> = self.on_disk.keys().filter(|k| !disk.contains_key(*k)).cloned().collect();
        for k in gone {
            let _ = fs::remove_file(self.root.join(&k));
            self.on_disk.remove(&k);
        }
        for (k, v) in disk {
            let same = self.on_disk.get(k).map_or(false, |o| Arc::ptr_eq(o, v) || **o == **v);
            if !same {
                let p = self.root.join(k);
                if let Some(d) = p.parent() {
                    fs::create_dir_all(d).unwrap();
                }
                let _ = fs::remove_file(&p);
                fs::write(&p, &**v).unwrap();
                self.on_disk.insert(k.clone(), v.clone());
            }
        }
    }

    fn scan(&self, dir: &Path, rel: &str, out: &mut Vec<String>) {
        if let Ok(rd) = fs::read_dir(dir) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                let r = if rel.is_empty() { n.clone() } else { format!("{}/{}", rel, n) };
                let ft = e.file_type();
                if ft.map_or(false, |t| t.is_dir()) {
                    self.scan(&e.path(), &r, out);
                } else {
                    out.push(r);
                }
            }
        }
    }

    fn read_back(&mut self) -> Disk {
        let mut names = vec![];
        self.scan(&self.root.clone(), "", &mut names);
        let mut d = Disk::new();
        let mut buf = Vec::new();
        for n in names {
            buf.clear();
            match fs::File::open(self.root.join(&n)).and_then(|mut f| f.read_to_end(&mut buf)) {
                Ok(_) => {
                    let v = match self.on_disk.get(&n) {
                        Some(o) if **o == buf => o.clone(),
                        _ => Arc::new(buf.clone()),
                    };
                    d.insert(n, v);
                }
                Err(_) => {
                    d.insert(n, Arc::new(b"<unreadable>".to_vec()));
                }
            }
        }
        self.on_disk = d.clone();
        d
    }

    /// One simulated execution of the CLI (or the library driver) with `args` on `disk`.
    pub fn run(&mut self, driver: bool, args: &[String], disk: &Disk, plan: &Plan) -> Run {
        self.materialise(disk);
        let c = unsafe { &mut *self.ctl };
        unsafe { std::ptr::write_bytes(self.ctl as *mut u8, 0, std::mem::offset_of!(Ctl, out)) };
        c.magic = MAGIC;
        c.size = std::mem::size_of::<Ctl>() as u32;
        c.hash_seed = plan.hash_seed;
        c.sched_seed = plan.sched_seed;
        c.edge_budget = self.edge_budget;
        c.op_budget = 6_000_000;
        c.crash_op = plan.crash_op;
        c.crash_edges = plan.crash_edges;
        c.clock_mono0 = 1_000_000_000_000;
        c.clock_real0 = plan.clock_real0;
        c.clock_step = plan.clock_step;
        c.policy = plan.policy;
        c.tty = plan.tty;
        c.read_frag = plan.read_frag;
        c.write_frag = plan.write_frag;
        c.frag_seed = plan.frag_seed;
        c.latency = plan.latency;
        c.alloc_fail = plan.alloc_fail;
        c.stat_seed = plan.stat_seed;
        c.ncpu = plan.ncpu;
        c.env_seed = plan.env_seed;
        for (a, b) in c.writable.iter_mut().zip(plan.writable.bytes().take(PATHLEN - 1)) {
            *a = b;
        }
        c.trace = self.trace.is_some() as u32;
        c.nrules = plan.rules.len().min(MAXRULES) as u32;
        for (i, r) in plan.rules.iter().take(MAXRULES).enumerate() {
            let d = &mut c.rules[i];
            d.call = call_id(&r.call);
            d.action = action_id(&r.action);
            d.nth = r.nth;
            d.count = r.count;
            d.arg = r.arg;
            for (a, b) in d.path.iter_mut().zip(r.path.bytes().take(PATHLEN - 1)) {
                *a = b;
            }
        }
        c.npre = plan.pre.len().min(MAXPRE) as u32;
        for (i, p) in plan.pre.iter().take(MAXPRE).enumerate() {
            c.pre[i] = CPre { op: p.op, edges: p.edges, choice: p.choice };
        }
        let bin = if driver { &self.driver[self.checked as usize] } else { &self.cli[self.checked as usize] };
        let mut cmd = Command::new(bin);
        cmd.args(args)
            .env_clear()
            .envs(plan.env.iter().filter_map(|e| e.split_once('=')))
            .env("LD_PRELOAD", &self.shim)
            .env("VSIM_CTL", &self.ctl_path)
            .env("VSIM_ROOT", &self.root)
            .env("RUST_BACKTRACE", "0")
            .current_dir(&self.root)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        if let Some(t) = &self.trace {
            match &self.hashes {
                Some(h) => cmd.env("VSIM_TRACE", format!("{}.{}", t.display(), h.len())),
                None => cmd.env("VSIM_TRACE", t),
            };
        }
        unsafe {
            cmd.pre_exec(|| {
                personality(0x0040000);
                // no core files, bounded address space and file size
                setrlimit(4, &[0, 0]);
                setrlimit(9, &[6 << 30, 6 << 30]);
                setrlimit(1, &[64 << 20, 64 << 20]);
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("cannot start the program under test");
        let t0 = Instant::now();
        let mut timeout = false;
        // blocking wait with a watchdog only for runs that outlive the budgeted work
        let pid = child.id() as i32;
        let done = Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
        let status = {
            let st = child.try_wait().unwrap();
            match st {
                Some(s) => s,
                None => {
                    let d2 = done.clone();
                    let wd = WATCHDOG.with(|w| w.borrow_mut().arm(pid, d2));
                    let s = child.wait().unwrap();
                    *done.0.lock().unwrap() = true;
                    timeout = wd.load(std::sync::atomic::Ordering::SeqCst) == pid as i64;
                    WATCHDOG.with(|w| w.borrow_mut().disarm());
                    s
                }
            }
        };
        let _ = t0;
        let paths: Vec<String> = (0..c.npaths as usize).map(|i| cstr(&c.paths[i])).collect();
        let pn = |i: u32| paths.get(i as usize).cloned().unwrap_or_default();
        let end = if timeout {
            End::Timeout
        } else {
            match c.status {
                1 => End::Crashed,
                2 => End::Deadlock,
                3 => End::Livelock,
                4 => End::Internal,
                _ => match (status.code(), status.signal()) {
                    (Some(88), _) | (Some(89), _) => End::Internal,
                    (Some(x), _) => End::Exit(x),
                    (_, Some(s)) => End::Signal(s),
                    _ => End::Internal,
                },
            }
        };
        let disk_after = self.read_back();
        let dump = args.iter().any(|a| a == "dump_midi");
        let run = Run {
            end,
            note: cstr(&c.note),
            ops: c.ops,
            edges: c.edges,
            allocs: c.allocs,
            hash: c.hash,
            sched_hash: c.sched_hash,
            switches: c.switches,
            preempts: c.preempts,
            simtime: c.simtime,
            threads: c.nthreads,
            paths: paths.clone(),
            frag_reads: c.frag_reads,
            frag_writes: c.frag_writes,
            spurious: c.spurious,
            timer_jumps: c.timer_jumps,
            sites: (0..c.nsites as usize)
                .map(|i| Site {
                    call: CALLS[c.sites[i].call as usize].to_string(),
                    path: pn(c.sites[i].path),
                    count: c.sites[i].count,
                    bytes: c.sites[i].bytes,
                    first_op: c.sites[i].first_op,
                })
                .collect(),
            muts: (0..c.nmut as usize)
                .map(|i| Mutation {
                    kind: CALLS[c.muts[i].kind as usize].to_string(),
                    path: pn(c.muts[i].path),
                    path2: pn(c.muts[i].path2),
                    off: c.muts[i].off,
                    len: c.muts[i].len,
                })
                .collect(),
            mut_overflow: c.mut_overflow != 0,
            fired: (0..c.nrules as usize).map(|i| c.rules[i].fired).collect(),
            reports: (0..c.nrep as usize).map(|i| (c.rep[i].id, c.rep[i].code)).collect(),
            out: if dump { String::from_utf8_lossy(&c.out[..(c.out_len as usize).min(OUTCAP)]).into_owned() } else { String::new() },
            out_id: (c.out_len, c.out_hash),
            err: String::from_utf8_lossy(&c.err[..(c.err_len as usize).min(ERRCAP)]).into_owned(),
            disk: disk_after,
        };
        if std::env::var("VH_DESC").is_ok() {
            eprintln!("{}", run.describe());
        }
        self.account(plan, &run);
        if let Some(h) = &mut self.hashes {
            h.push(run.hash);
        }
        self.hashlog = crate::rng::mix(self.hashlog ^ run.hash);
        run
    }

    fn account(&mut self, plan: &Plan, r: &Run) {
        if r.fired.iter().any(|f| *f > 0) || r.preempts + r.frag_reads + r.frag_writes > 0 || r.end == End::Crashed || r.threads > 1 && plan.policy != 0 {
            self.active = true;
        }
        let s = &mut self.stats;
        s.runs += 1;
        s.processes += 1;
        s.simtime += r.simtime;
        s.ops += r.ops;
        s.edges += r.edges;
        s.switches += r.switches;
        s.scheds.insert(r.sched_hash ^ crate::rng::mix(r.ops));
        s.hashes.insert(r.hash);
        for (i, f) in r.fired.iter().enumerate() {
            if *f > 0 {
                let u = &plan.rules[i];
                let what = match u.action.as_str() {
                    "errno" => format!("{} fails {}", u.call, errno_name(u.arg)),
                    a => format!("{} {}", u.call, a),
                };
                s.fault(&what, *f as u64);
            }
        }
        if plan.crash_op > 0 && r.end == End::Crashed {
            s.fault(if plan.crash_edges > 0 { "kill inside computation" } else { "kill at system call" }, 1);
        }
        if plan.alloc_fail > 0 && r.allocs >= plan.alloc_fail {
            s.fault("allocation fails", 1);
        }
        s.fault("read split", r.frag_reads);
        s.fault("write split", r.frag_writes);
        s.fault("forced preemption", r.preempts);
        if r.threads > 1 {
            *s.policies.entry(POLICIES[plan.policy as usize % 6].to_string()).or_default() += 1;
        }
        let e = match &r.end {
            End::Exit(0) => "success".to_string(),
            End::Exit(101) => "failure (panic)".to_string(),
            End::Exit(_) => "failure (error)".to_string(),
            End::Signal(_) => "failure (abort)".to_string(),
            o => format!("{:?}", o).to_lowercase(),
        };
        *s.ends.entry(e).or_default() += 1;
        let c = unsafe { &*self.ctl };
        if s.cov.len() < COVBYTES {
            s.cov.resize(COVBYTES, 0);
        }
        // edges are numbered per build: those of the release build are counted
        if !self.checked {
            for i in 0..COVBYTES {
                s.cov[i] |= c.cov[i];
            }
        } else {
            *s.counters.entry("processes of the build with overflow checks".into()).or_default() += 1;
        }
    }
}

/// One watchdog thread per worker: kills a run that makes no progress in real time.
struct Watchdog {
    tx: Option<std::sync::mpsc::Sender<Option<i32>>>,
    killed: Arc<std::sync::atomic::AtomicI64>,
}
impl Watchdog {
    fn arm(&mut self, pid: i32, _d: Arc<(std::sync::Mutex<bool>, std::sync::Condvar)>) -> Arc<std::sync::atomic::AtomicI64> {
        if self.tx.is_none() {
            let (tx, rx) = std::sync::mpsc::channel::<Option<i32>>();
            let killed = self.killed.clone();
            std::thread::spawn(move || {
                let mut cur: Option<i32> = None;
                loop {
                    let m = match cur {
                        None => rx.recv().map_err(|_| std::sync::mpsc::RecvTimeoutError::Disconnected),
                        Some(_) => rx.recv_timeout(Duration::from_secs(100)),
                    };
                    match m {
                        Ok(x) => cur = x,
                        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                            if let Some(p) = cur {
                                killed.store(p as i64, std::sync::atomic::Ordering::SeqCst);
                                unsafe { kill(p, 9) };
                            }
                            cur = None;
                        }
                        Err(_) => return,
                    }
                }
            });
            self.tx = Some(tx);
        }
        let _ = self.tx.as_ref().unwrap().send(Some(pid));
        self.killed.clone()
    }
    fn disarm(&mut self) {
        if let Some(t) = &self.tx {
            let _ = t.send(None);
        }
    }
}
thread_local! {
    static WATCHDOG: std::cell::RefCell<Watchdog> = std::cell::RefCell::new(Watchdog { tx: None, killed: Arc::new(std::sync::atomic::AtomicI64::new(0)) });
}

pub fn errno_name(e: i64) -> String {
    match e {
        2 => "ENOENT".into(),
        4 => "EINTR".into(),
        5 => "EIO".into(),
        9 => "EBADF".into(),
        11 => "EAGAIN".into(),
        12 => "ENOMEM".into(),
        13 => "EACCES".into(),
        22 => "EINVAL".into(),
        23 => "ENFILE".into(),
        24 => "EMFILE".into(),
        27 => "EFBIG".into(),
        28 => "ENOSPC".into(),
        32 => "EPIPE".into(),
        122 => "EDQUOT".into(),
        x => format!("errno {}", x),
    }
}
