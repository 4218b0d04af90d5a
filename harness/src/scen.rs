//! Scenarios (explicit, replayable) and their evaluation against the properties.
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Cmd {
    pub what: String, // build_rom all_overworld file_select midi2json gen_fake_rom dump_midi
    pub input: String,
    pub output: String,
    pub skip: bool,
    pub verbose: bool,
    pub addrs: Vec<usize>,
    pub abs: bool,
    /// how the arguments are written, which means nothing: bits, see `args`
    pub form: u32,
    /// bank addresses that are no bank addresses
    pub raw: Option<String>,
}
impl Default for Cmd {
    fn default() -> Cmd {
        Cmd { what: "build_rom".into(), input: String::new(), output: String::new(), skip: false, verbose: false, addrs: vec![], abs: false, form: 0, raw: None }
    }
}
impl Cmd {
    pub fn args(&self) -> Vec<String> {
        let on = |b: u32| self.form >> b & 1 == 1;
        let mut a = vec![];
        match (self.skip, self.verbose) {
            (true, true) if on(0) => a.push(if on(1) { "-sv" } else { "-vs" }.to_string()),
            (s, v) => {
                if s {
                    a.push(if on(1) { "--skip_optimization" } else { "-s" }.to_string());
                }
                if v {
                    a.push(if on(2) { "--verbose" } else { "-v" }.to_string());
                }
                if on(0) {
                    a.reverse();
                }
            }
        }
        a.push(self.what.clone());
        let p = |x: &str| match (self.abs, on(3)) {
            (true, false) => format!("/sim/{}", x),
            (true, true) => format!("/sim/./{}", x),
            (false, false) => x.to_string(),
            (false, true) => format!("./{}", x),
        };
        let mut pos = vec![p(&self.input)];
        if self.what != "dump_midi" {
            pos.push(p(&self.output));
        }
        let mut before = vec![];
        if self.is_rom() {
            let addrs = if self.addrs.is_empty() && on(4) { DEFAULT_ADDRS.to_vec() } else { self.addrs.clone() };
            let mut vals: Vec<String> = addrs
                .iter()
                .map(|&x| {
                    // the same place in the image: the bit that tells ROM from RAM, and the fast mirror of every bank
                    let x = if on(5) { x ^ 0x8000 } else { x };
                    let mut t = if on(6) { format!("{:X}", x) } else { format!("{:x}", x) };
                    if on(7) {
                        t = format!("{:0>8}", t);
                    }
                    t
                })
                .collect();
            if let Some(raw) = &self.raw {
                vals = vec![raw.clone()];
            }
            if !vals.is_empty() {
                match self.form >> 8 & 3 {
                    0 => {
                        pos.push("--bank_addrs".into());
                        pos.push(vals.join(","));
                    }
                    1 => pos.push(format!("--bank_addrs={}", vals.join(","))),
                    2 => {
                        pos.push("--bank_addrs".into());
                        pos.extend(vals);
                    }
                    _ => before = vec![format!("--bank_addrs={}", vals.join(","))],
                }
            }
        }
        a.extend(before);
        a.extend(pos);
        a
    }
    /// the same command written plainly
    pub fn plain(&self) -> Cmd {
        Cmd { form: 0, ..self.clone() }
    }
    pub fn is_rom(&self) -> bool {
        matches!(self.what.as_str(), "build_rom" | "all_overworld" | "file_select")
    }
    pub fn out(&self) -> Option<&str> {
        if self.what == "dump_midi" {
            None
        } else {
            Some(&self.output)
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Step {
    pub cmd: Cmd,
    pub plan: Plan,
    /// after a crash: 0 the process was killed, else power loss with this seed
    pub power: u64,
    /// start from the initial disk instead of from what the previous step left
    pub reset: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Scenario {
    pub mode: String,
    pub files: BTreeMap<String, FileSpec>,
    pub steps: Vec<Step>,
    /// driver calls for mode "conc": (thread, command)
    pub calls: Vec<(usize, Cmd)>,
    pub must: bool,
    /// runs the build with overflow checks and debug assertions, as `cargo build` makes, instead of the release build
    #[serde(default)]
    pub checked: bool,
    /// files that no command names and nothing may depend on
    #[serde(default)]
    pub bait: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub prop: &'static str,
    pub msg: String,
}
pub type Findings = Vec<Finding>;

fn find(f: &mut Findings, prop: &'static str, msg: String) {
    f.push(Finding { prop, msg });
}

pub fn disk_of(sc: &Scenario) -> Disk {
    sc.files.iter().map(|(k, v)| (k.clone(), v.arc())).collect()
}

/// positions where two byte strings differ, summarised
fn diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return format!("lengths {} and {}, first difference at {:#x}", a.len(), b.len(), p);
    }
    let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => "equal".into(),
        Some(p) => format!("{} bytes differ, first at {:#x}: {:02x} and {:02x}", n, p, a[p], b[p]),
    }
}
fn get<'a>(d: &'a Disk, k: &str) -> Option<&'a Vec<u8>> {
    d.get(k).map(|x| &**x)
}
/// the first file, other than `except`, that differs from before, and files that are new
fn others_changed(pre: &Disk, post: &Disk, except: Option<&str>) -> Option<String> {
    for (k, v) in pre {
        if Some(k.as_str()) == except {
            continue;
        }
        match post.get(k) {
            None => return Some(format!("file {} disappeared", k)),
            Some(w) if **w != **v => return Some(format!("file {} changed: {}", k, diff(v, w))),
            _ => {}
        }
    }
    None
}
fn extra_files(pre: &Disk, post: &Disk, except: Option<&str>) -> Option<String> {
    post.keys().find(|k| !pre.contains_key(*k) && Some(k.as_str()) != except).map(|k| format!("file {} was left behind", k))
}

/// What could be on disk after power is lost at the end of `run`: metadata changes survive in
/// order up to some point, un-synced sectors survive independently.
pub fn power_loss(pre: &Disk, run: &Run, seed: u64) -> Disk {
    let mut r = Rng::new(seed);
    struct Ino {
        old: Vec<u8>,
        dirty: bool,
        trunc: bool,
        last: Option<String>,
    }
    let mut inos: Vec<Ino> = vec![];
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    for (k, v) in pre {
        names.insert(k.clone(), inos.len());
        inos.push(Ino { old: (**v).clone(), dirty: false, trunc: false, last: None });
    }
    let meta_total = run.muts.iter().filter(|m| matches!(m.kind.as_str(), "open" | "rename" | "unlink")).count();
    let keep = if meta_total == 0 || r.chance(1, 2) { meta_total } else { r.usize(meta_total + 1) };
    let mut done = 0;
    let mut final_names = names.clone();
    let mut synced_upto = 0;
    for m in &run.muts {
        let id = names.get(&m.path).copied();
        match m.kind.as_str() {
            "open" => {
                names.insert(m.path.clone(), inos.len());
                inos.push(Ino { old: vec![], dirty: true, trunc: false, last: None });
                done += 1;
            }
            "rename" => {
                if let Some(i) = names.remove(&m.path) {
                    names.insert(m.path2.clone(), i);
                }
                done += 1;
            }
            "unlink" => {
                names.remove(&m.path);
                done += 1;
            }
            "write" => {
                if let Some(i) = id {
                    inos[i].dirty = true;
                }
            }
            "trunc" => {
                if let Some(i) = id {
                    inos[i].dirty = true;
                    inos[i].trunc = true;
                }
            }
            "fsync" => {
                if let Some(i) = id {
                    inos[i].dirty = false;
                    inos[i].trunc = false;
                }
                synced_upto = done;
            }
            _ => {}
        }
        if done <= keep.max(synced_upto) {
            final_names = names.clone();
        }
    }
    for (n, i) in &names {
        inos[*i].last = Some(n.clone());
    }
    let mut out = Disk::new();
    for (n, i) in &final_names {
        let ino = &inos[*i];
        let cur: Option<&Vec<u8>> = ino.last.as_ref().and_then(|l| get(&run.disk, l));
        let content = match cur {
            None => ino.old.clone(),
            Some(c) if !ino.dirty => c.clone(),
            Some(c) => {
                let size = if c.len() == ino.old.len() && !ino.trunc {
                    c.len()
                } else {
                    match r.below(3) {
                        0 => c.len(),
                        1 if ino.trunc => r.usize(c.len() + 1),
                        _ => if ino.trunc { c.len() } else { ino.old.len().min(c.len()) + r.usize(c.len().saturating_sub(ino.old.len()) + 1) },
                    }
                };
                let mode = r.below(3);
                let cut = r.usize(size / 512 + 2);
                (0..size)
                    .map(|p| {
                        let s = p / 512;
                        let new = match mode {
                            0 => mix(seed ^ s as u64) & 1 == 0,
                            1 => s >= cut,
                            _ => s < cut,
                        };
                        let old = if ino.trunc { 0 } else { ino.old.get(p).copied().unwrap_or(0) };
                        if new { c.get(p).copied().unwrap_or(old) } else { old }
                    })
                    .collect()
            }
        };
        out.insert(n.clone(), Arc::new(content));
    }
    out
}

#[derive(Default)]
pub struct FaultKinds {
    pub store: bool,   // storage of the output failed hard
    pub read: bool,    // an input read was refused or cut short
    pub hard: bool,    // any hard fault at all
    pub display: bool, // stdout / stderr failed
    pub crash: bool,
    pub soft: bool,    // legal but unusual behaviour
}
pub fn fired_kinds(cmd: &Cmd, pre: &Disk, plan: &Plan, run: &Run) -> FaultKinds {
    let mut k = FaultKinds::default();
    for (u, f) in plan.rules.iter().zip(&run.fired) {
        if *f == 0 {
            continue;
        }
        let out = cmd.out().map_or(false, |o| o == u.path) || u.path == "*";
        match u.action.as_str() {
            "errno" => {
                let soft = (u.arg == 4 && matches!(u.call.as_str(), "read" | "write" | "open")) || u.call == "fwait" || u.call == "clock";
                if soft {
                    k.soft = true;
                } else if u.path.starts_with('<') && u.call == "write" {
                    k.display = true;
                } else {
                    k.hard = true;
                    if matches!(u.call.as_str(), "write" | "lseek" | "fsync" | "trunc" | "close" | "rename" | "unlink")
                        && (out || !pre.contains_key(&u.path))
                        && !u.path.starts_with('<')
                    {
                        k.store = true;
                    }
                    if u.call == "read" {
                        k.read = true;
                    }
                }
            }
            "eof" => {
                k.hard = true;
                k.read = true;
            }
            "crash" | "torn" | "crash_after" => k.crash = true,
            _ => k.soft = true,
        }
    }
    if plan.alloc_fail > 0 && run.allocs >= plan.alloc_fail {
        k.hard = true;
        // an abort because memory ran out is a crash that the program did not choose: the output may
        // be half written (old or new byte by byte, judged below), everything else stays
        if !cmd.is_rom() || run.end == End::Signal(6) {
            k.store = true;
        }
    }
    if plan.crash_op > 0 {
        k.crash = true;
    }
    k
}

pub fn rom_spec<'a>(sc: &'a Scenario, name: &str) -> Option<&'a RomSpec> {
    match sc.files.get(name) {
        Some(FileSpec::Rom(r)) => Some(r),
        _ => None,
    }
}

/// C08: what may differ between two states of the disk
fn confined(sc: &Scenario, cmd: &Cmd, pre: &Disk, post: &Disk, ended: bool, f: &mut Findings) {
    let who = &cmd.what;
    if let Some(m) = others_changed(pre, post, cmd.out()) {
        find(f, "C08", format!("{}: {}", who, m));
    }
    if ended {
        if let Some(m) = extra_files(pre, post, cmd.out()) {
            find(f, "C08", format!("{}: {}", who, m));
        }
    }
    if cmd.is_rom() {
        match (get(pre, &cmd.output), get(post, &cmd.output)) {
            (Some(a), Some(b)) => {
                if a.len() != b.len() {
                    find(f, "C08", format!("{}: the ROM's length changed from {} to {}", who, a.len(), b.len()));
                } else if let Some(spec) = rom_spec(sc, &cmd.output) {
                    let w = spec.writable();
                    if let Some(p) = (0..a.len()).find(|&p| a[p] != b[p] && !w.iter().any(|r| r.0 <= p && p < r.1)) {
                        find(f, "C08", format!("{}: byte {:#x} outside the song chunks changed from {:02x} to {:02x}; song chunks {:x?}", who, p, a[p], b[p], w));
                    }
                }
            }
            (Some(_), None) => find(f, "C08", format!("{}: the ROM is gone", who)),
            (None, Some(_)) if ended => find(f, "C08", format!("{}: a file was created at the missing ROM's path", who)),
            _ => {}
        }
    }
}

/// every byte is the old or the new one
fn old_or_new(old: &[u8], new: &[u8], got: &[u8]) -> Option<String> {
    if got.len() != old.len() {
        return Some(format!("length {} instead of {}", got.len(), old.len()));
    }
    (0..got.len())
        .find(|&i| got[i] != old[i] && new.get(i) != Some(&got[i]))
        .map(|p| format!("byte {:#x} is {:02x}, neither the old {:02x} nor the new {:02x?}", p, got[p], old[p], new.get(p)))
}

/// What the song files assign to each slot; None where it cannot be told (MIDI that does not convert).
pub struct Assign {
    pub want: Vec<Option<(Arc<Vec<Vec<XEv>>>, bool)>>, // 34 slots
}

/// the song a file holds, with tempo commands adjusted to `factor`
pub fn song_of(sc: &Scenario, w: &mut World, name: &str, factor: f64, cache: &mut BTreeMap<String, Option<SongSpec>>) -> Option<Vec<Vec<XEv>>> {
    let f = sc.files.get(name)?;
    let (spec, midi) = match f {
        FileSpec::Song(s) => (s.clone(), None),
        FileSpec::Midi(_) | FileSpec::Sample(_) => {
            if !cache.contains_key(name) {
                let mut d = Disk::new();
                d.insert("in.mid".into(), f.arc());
                let c = Cmd { what: "midi2json".into(), input: "in.mid".into(), output: "out.json".into(), skip: true, ..Cmd::default() };
                let run = w.reference(false, &c.args(), &d);
                let s = if run.ok() {
                    get(&run.disk, "out.json").and_then(|b| serde_json::from_slice::<serde_json::Value>(b).ok()).and_then(|v| SongSpec::from_json(&v))
                } else {
                    None
                };
                cache.insert(name.to_string(), s);
            }
            let s = cache.get(name).unwrap().clone()?;
            (s, Some(f))
        }
        _ => return None,
    };
    let mut x = expand(&spec).ok()?;
    if let Some(f) = midi {
        let tempos: Option<Vec<u32>> = match f {
            FileSpec::Midi(m) => Some(m.tempos()),
            _ => None,
        };
        let n: usize = x.iter().flatten().filter(|e| e.op == 0xe7).count();
        let mut i = 0;
        for e in x.iter_mut().flatten().filter(|e| e.op == 0xe7) {
            e.tempo = match &tempos {
                Some(t) if t.len() == n => Some(((6e7 / t[i] as f64 * factor).min(255.0), factor)),
                _ if factor == 0.2 => None,
                _ => Some(((e.args[0] as f64 * factor / 0.2).min(255.0), factor * 6.0)),
            };
            i += 1;
        }
    }
    Some(x)
}

pub fn join_path(base: &str, rel: &str) -> String {
    let mut parts: Vec<&str> = base.split('/').collect();
    parts.pop();
    let full = if let Some(a) = rel.strip_prefix("/sim/") { a.to_string() } else { parts.iter().map(|s| format!("{}/", s)).collect::<String>() + rel };
    let mut out: Vec<&str> = vec![];
    for p in full.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    out.join("/")
}

pub fn assignment(sc: &Scenario, w: &mut World, cmd: &Cmd, cache: &mut BTreeMap<String, Option<SongSpec>>) -> Option<Assign> {
    let silent = Arc::new(vec![vec![]; 8]);
    let mut want = vec![];
    match cmd.what.as_str() {
        "build_rom" => {
            let m = match sc.files.get(&cmd.input) {
                Some(FileSpec::Manifest(m)) => m.clone(),
                _ => return None,
            };
            let mut memo: BTreeMap<(String, u64), Option<Arc<Vec<Vec<XEv>>>>> = BTreeMap::new();
            for e in &m.entries {
                let p = join_path(&cmd.input, &e.input);
                let t = e.tempo.unwrap_or(0.2);
                let key = (p.clone(), t.to_bits());
                if !memo.contains_key(&key) {
                    let s = song_of(sc, w, &p, t, cache).map(Arc::new);
                    memo.insert(key.clone(), s);
                }
                want.push(memo[&key].clone().map(|s| (s, e.lp.unwrap_or(true))));
            }
        }
        "all_overworld" | "file_select" => {
            let s = song_of(sc, w, &cmd.input, 0.2, cache).map(Arc::new);
            for slot in 0..34 {
                if cmd.what == "all_overworld" || slot == 10 {
                    want.push(s.clone().map(|s| (s, true)));
                } else {
                    want.push(Some((silent.clone(), false)));
                }
            }
        }
        _ => return None,
    }
    Some(Assign { want })
}

pub fn slot_name(slot: usize) -> String {
    if slot < 15 {
        format!("overworld '{}'", OVERWORLD[slot])
    } else if slot < 31 {
        format!("indoor '{}'", INDOOR[slot - 15])
    } else {
        format!("ending '{}'", ENDING[slot - 31])
    }
}

/// play every slot of the ROM and compare with what was assigned
pub fn check_play(spec: &RomSpec, rom: &[u8], a: &Assign) -> Result<u64, String> {
    let mut played = 0;
    let mut slot = 0;
    for (bi, b) in spec.banks.iter().enumerate() {
        let ram = upload(rom, b).map_err(|e| format!("bank {}: {}", bi, e))?;
        for _ in 0..BANK_SONGS[bi] {
            if let Some((want, loops)) = &a.want[slot] {
                let got = play_slot(&ram, slot).map_err(|e| format!("slot {}: {}", slot_name(slot), e))?;
                compare(want, *loops, &got).map_err(|e| format!("slot {}: {}", slot_name(slot), e))?;
                played += 1;
            }
            slot += 1;
        }
        // table entries of the bank that have no song are silent
        for s in slot..(BANK_SONG0[bi] - 0xD000) / 2 {
            if !matches!(play_slot(&ram, s), Ok(Slot::Silent)) {
                return Err(format!("unassigned table entry {} of bank {} is not silent", s, bi));
            }
        }
    }
    Ok(played)
}

/// expected output file contents known independently of the code under test
fn check_output_model(sc: &Scenario, w: &mut World, cmd: &Cmd, pre: &Disk, post: &Disk, cache: &mut BTreeMap<String, Option<SongSpec>>) -> Result<(), (&'static str, String)> {
    if cmd.out().is_none() {
        return Ok(());
    }
    let out = match get(post, &cmd.output) {
        Some(b) => b.clone(),
        None => return Err(("C01", "no output file after success".into())),
    };
    match cmd.what.as_str() {
        "gen_fake_rom" => {
            if let (Some(spec), Some(src)) = (rom_spec(sc, &cmd.input), get(pre, &cmd.input)) {
                if spec.default_ptrs() {
                    let want = dummy_of(spec, src);
                    if want != out {
                        return Err(("C01", format!("gen_fake_rom reported success but the dummy ROM is not the expected one: {}", diff(&want, &out))));
                    }
                }
            }
        }
        "midi2json" => {
            let v: Result<serde_json::Value, _> = serde_json::from_slice(&out);
            match v {
                Err(e) => return Err(("C01", format!("midi2json reported success but its output is not a JSON document: {}", e))),
                Ok(v) => {
                    if SongSpec::from_json(&v).is_none() {
                        return Err(("C01", "midi2json reported success but its output is not a song".into()));
                    }
                }
            }
        }
        _ => {
            if let Some(spec) = rom_spec(sc, &cmd.output) {
                if let Some(a) = assignment(sc, w, cmd, cache) {
                    if let Err(e) = check_play(spec, &out, &a) {
                        return Err(("C01", format!("{} reported success but {}", cmd.what, e)));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Histories of faulted commands: the checks shared by C01-C08.
pub fn eval_history(sc: &Scenario, w: &mut World) -> Findings {
    let mut f: Findings = vec![];
    let initial = disk_of(sc);
    let mut disk = initial.clone();
    let mut cache = BTreeMap::new();
    let mut refs: Vec<(Cmd, Disk, Run)> = vec![];
    for (i, st) in sc.steps.iter().enumerate() {
        if st.reset {
            disk = initial.clone();
        }
        let cmd = &st.cmd;
        let pre = disk.clone();
        let mut quiet = cmd.plain();
        quiet.verbose = false;
        // reference: the same command, undisturbed, from the same disk
        let known = refs.iter().position(|(c, d, _)| *c == quiet && *d == pre);
        let rf = match known {
            Some(k) => refs[k].2.clone(),
            None => {
                w.edge_budget = 1_200_000_000;
                let rf = w.reference(false, &quiet.args(), &pre);
                if rf.hung() {
                    match excused(&quiet, &pre, w, &rf) {
                        Some("") => {}
                        Some(why) => find(&mut f, "C04", format!("{} never ends even undisturbed: {}: {}", cmd.what, why, rf.describe())),
                        None => find(&mut f, "C04", format!("{} never ends even undisturbed: {}", cmd.what, rf.describe())),
                    }
                    return f;
                }
                if rf.end == End::Internal {
                    find(&mut f, "HARNESS", format!("simulator error: {}", rf.describe()));
                    return f;
                }
                confined(sc, &quiet, &pre, &rf.disk, true, &mut f);
                if !sc.bait.is_empty() {
                    let mut d2 = pre.clone();
                    d2.retain(|n, _| !sc.bait.contains(n));
                    let r2 = w.reference(false, &quiet.args(), &d2);
                    let same = cmd.out().map_or(true, |o| get(&r2.disk, o) == get(&rf.disk, o));
                    w.stats.count("runs compared without the files that are no inputs", 1);
                    if r2.ended() && rf.ended() && (r2.ok() != rf.ok() || !same) {
                        find(&mut f, "C05", format!("{}: {} depends on files that are no inputs ({})", cmd.what, if same { "success" } else { "output" }, sc.bait.join(", ")));
                    }
                }
                if rf.ok() {
                    if let Err((p, m)) = check_output_model(sc, w, &quiet, &pre, &rf.disk, &mut cache) {
                        find(&mut f, p, m);
                    }
                    // nothing of an older output file may survive
                    if !cmd.is_rom() {
                        if let Some(o) = cmd.out() {
                            if pre.contains_key(o) {
                                let mut d2 = pre.clone();
                                d2.remove(o);
                                let r2 = w.reference(false, &quiet.args(), &d2);
                                if !r2.ok() || get(&r2.disk, o) != get(&rf.disk, o) {
                                    find(
                                        &mut f,
                                        "C01",
                                        format!("{}: result depends on an older output file: {}", cmd.what, diff(get(&r2.disk, o).unwrap_or(&vec![]), get(&rf.disk, o).unwrap_or(&vec![]))),
                                    );
                                }
                            }
                        }
                    }
                } else {
                    if let Some(m) = others_changed(&pre, &rf.disk, None).or(extra_files(&pre, &rf.disk, None)) {
                        find(&mut f, "C02", format!("{} failed undisturbed ({}) but {}", cmd.what, rf.describe(), m));
                    }
                }
                refs.push((quiet.clone(), pre.clone(), rf.clone()));
                rf
            }
        };
        // a run may do more work than the reference only through retries and verbosity
        w.edge_budget = rf.edges * 20 + 100_000_000;
        let run = w.run(false, &cmd.args(), &pre, &st.plan);
        w.edge_budget = 1_200_000_000;
        if run.end == End::Internal {
            find(&mut f, "HARNESS", format!("simulator error: {}", run.describe()));
            return f;
        }
        let k = fired_kinds(cmd, &pre, &st.plan, &run);
        w.stats.count("steps judged", 1);
        let head = format!("step {} {}", i, cmd.what);
        if run.hung() {
            find(&mut f, "C04", format!("{}: does not end: {}", head, run.describe()));
            return f;
        }
        // a file that could not be removed, or nobody was left to remove, stays
        let stuck = st.plan.rules.iter().zip(&run.fired).any(|(u, f)| *f > 0 && u.call == "unlink" && u.action == "errno") || run.end == End::Signal(6);
        confined(sc, cmd, &pre, &run.disk, run.ended() && !stuck, &mut f);
        let out = cmd.out();
        let newv = out.and_then(|o| get(&rf.disk, o));
        let gotv = out.and_then(|o| get(&run.disk, o));
        let oldv = out.and_then(|o| get(&pre, o));

        if run.ok() {
            w.stats.count("successes under fault judged", (k.hard || k.soft || k.display) as u64);
            if !rf.ok() {
                let m = format!("{}: reports success although the undisturbed command fails ({})", head, rf.describe());
                find(&mut f, "C01", m.clone());
                if k.read {
                    find(&mut f, "C07", m.clone());
                }
                if !k.hard && !k.display {
                    find(&mut f, "C05", m);
                }
            } else if out.is_some() && gotv != newv {
                let m = format!("{}: reports success but {} differs from the complete result: {}", head, out.unwrap(), diff(newv.unwrap_or(&vec![]), gotv.unwrap_or(&vec![])));
                find(&mut f, "C01", m.clone());
                if k.read || st.plan.read_frag != 0 || st.plan.rules.iter().any(|u| u.call == "read") {
                    find(&mut f, "C07", m.clone());
                }
                if !k.hard && !k.display {
                    find(&mut f, "C05", m.clone());
                }
                if k.display {
                    find(&mut f, "C06", m);
                }
            }
        } else if run.failed() {
            w.stats.count("failures under fault judged", (k.hard || k.soft || k.display) as u64);
            let exempt = k.store;
            let except = if exempt { out } else { None };
            if let Some(m) = others_changed(&pre, &run.disk, except).or(if stuck { None } else { extra_files(&pre, &run.disk, except) }) {
                find(&mut f, "C02", format!("{}: reports failure ({}) but {}", head, run.describe(), m));
                if k.display {
                    find(&mut f, "C06", format!("{}: reports failure ({}) after a display error but {}", head, run.describe(), m));
                }
            }
            if exempt && cmd.is_rom() {
                if let (Some(o), Some(n), Some(g)) = (oldv, newv, gotv) {
                    if let Some(m) = old_or_new(o, n, g) {
                        find(&mut f, "C02", format!("{}: failed while storing the ROM, which now has {}", head, m));
                    }
                }
            }
            if rf.ok() && !k.hard && !k.display {
                let m = format!("{}: fails ({}) although nothing failed around it; undisturbed it succeeds", head, run.describe());
                find(&mut f, "C05", m.clone());
                find(&mut f, "C04", m.clone());
                if st.plan.read_frag != 0 || st.plan.rules.iter().any(|u| u.call == "read") {
                    find(&mut f, "C07", m);
                }
            }
            if rf.ok() && k.display && !k.hard && !cmd.verbose && cmd.out().is_some() {
                find(&mut f, "C06", format!("{}: fails ({}) because progress could not be shown", head, run.describe()));
            }
            if rf.ok() && !rf.disk.is_empty() && run.disk != pre {
                // faults have stopped: the same command must now succeed and complete the result
                let again = w.reference(false, &quiet.args(), &run.disk);
                if again.hung() || !again.ok() || out.map_or(false, |o| get(&again.disk, o) != newv) {
                    find(&mut f, "C04", format!("{}: after the faults stopped the command still does not succeed: {}", head, again.describe()));
                }
            }
        }
        // outcome equality under harmless disturbance
        if run.ended() && !k.hard && !k.display && !k.crash && run.end != rf.end && !(run.failed() && rf.failed()) && run.ok() == rf.ok() {
            find(&mut f, "C05", format!("{}: ends with {:?} instead of {:?}", head, run.end, rf.end));
        }
        if run.end == End::Crashed {
            let after = if st.power == 0 { run.disk.clone() } else { power_loss(&pre, &run, st.power) };
            w.stats.count("crash states judged", 1);
            if st.power != 0 {
                w.stats.fault("power loss with unsynced sectors", 1);
                confined(sc, cmd, &pre, &after, false, &mut f);
            }
            if let Some(m) = others_changed(&pre, &after, out) {
                find(&mut f, "C03", format!("{}: crash, then {}", head, m));
            }
            if cmd.is_rom() {
                if let (Some(o), Some(g)) = (oldv, out.and_then(|o| get(&after, o))) {
                    let n = newv.cloned().unwrap_or_default();
                    if let Some(m) = old_or_new(o, &n, g) {
                        find(&mut f, "C03", format!("{}: after a crash ({}) the ROM has {}", head, run.note, m));
                    }
                    if !rf.ok() && o != g {
                        find(&mut f, "C03", format!("{}: a command that would fail was killed and the ROM changed: {}", head, diff(o, g)));
                    }
                } else if oldv.is_some() {
                    find(&mut f, "C03", format!("{}: after a crash the ROM is gone", head));
                }
            }
            // the re-run
            let again = w.reference(false, &quiet.args(), &after);
            w.stats.count("re-runs after a crash", 1);
            if again.hung() {
                find(&mut f, "C04", format!("{}: re-run after a crash does not end: {}", head, again.describe()));
            }
            if rf.ok() != again.ok() || (rf.ok() && out.map_or(false, |o| get(&again.disk, o) != newv)) {
                find(
                    &mut f,
                    "C03",
                    format!(
                        "{}: re-running after a crash gives {} ({}) instead of the uninterrupted result",
                        head,
                        if again.ok() { "another file" } else { "a failure" },
                        if again.ok() { diff(newv.unwrap_or(&vec![]), out.and_then(|o| get(&again.disk, o)).unwrap_or(&vec![])) } else { again.describe() }
                    ),
                );
            }
            disk = after;
        } else {
            disk = run.disk.clone();
        }
        if f.iter().any(|x| x.prop == w.target || x.prop == "HARNESS") {
            return f;
        }
    }
    f
}

/// C09: after every successful step each slot plays what was last assigned.
pub fn eval_play(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let mut disk = disk_of(sc);
    let mut cache = BTreeMap::new();
    let mut cur: BTreeMap<String, Assign> = BTreeMap::new();
    for (i, st) in sc.steps.iter().enumerate() {
        let pre = disk.clone();
        let run = w.run(false, &st.cmd.args(), &pre, &st.plan);
        if run.end == End::Internal {
            find(&mut f, "HARNESS", run.describe());
            return f;
        }
        if run.hung() {
            if excused(&st.cmd, &pre, w, &run).is_none() {
                find(&mut f, "C09", format!("step {} {} never ends: {}", i, st.cmd.what, run.describe()));
            }
            return f;
        }
        let k = fired_kinds(&st.cmd, &pre, &st.plan, &run);
        disk = if run.end == End::Crashed && st.power != 0 { power_loss(&pre, &run, st.power) } else { run.disk.clone() };
        if !st.cmd.is_rom() {
            continue;
        }
        let name = st.cmd.output.clone();
        if run.ok() {
            match assignment(sc, w, &st.cmd, &mut cache) {
                Some(a) => {
                    w.stats.count("successful builds", 1);
                    cur.insert(name.clone(), a);
                }
                None => {
                    cur.remove(&name);
                }
            }
        } else if run.end == End::Crashed || (k.store && run.disk != pre) {
            // interrupted while the ROM was being replaced: bytes are old or new, slots undetermined
            if get(&disk, &name) != get(&pre, &name) {
                cur.remove(&name);
            }
        } else {
            w.stats.count("failed builds", 1);
        }
        if let (Some(a), Some(spec), Some(rom)) = (cur.get(&name), rom_spec(sc, &name), get(&disk, &name)) {
            match check_play(spec, rom, a) {
                Ok(n) => {
                    w.active = true;
                    w.stats.count("slots played", n)
                }
                Err(e) => {
                    find(&mut f, "C09", format!("after step {} ({} {}): {}", i, st.cmd.what, if run.ok() { "succeeded" } else { "failed" }, e));
                    return f;
                }
            }
        }
    }
    f
}

/// The length of the longest track of a MIDI file in commands of 127 driver ticks (lenient: as far as the bytes can be read).
fn length(b: &[u8]) -> u64 {
    if b.len() < 14 || &b[..4] != b"MThd" {
        return 0;
    }
    let tpb = (u16::from_be_bytes([b[12], b[13]]) as u64).max(1);
    let (mut total, mut at) = (0, 14);
    while at + 8 <= b.len() {
        let len = u32::from_be_bytes([b[at + 4], b[at + 5], b[at + 6], b[at + 7]]) as usize;
        let (mut i, mut sum, mut status) = (at + 8, 0, 0u8);
        let num = |i: &mut usize| {
            let mut v = 0u64;
            for _ in 0..4 {
                let x = *b.get(*i)?;
                *i += 1;
                v = v << 7 | (x & 0x7f) as u64;
                if x < 0x80 {
                    break;
                }
            }
            Some(v)
        };
        while let Some(d) = num(&mut i) {
            sum += d;
            let mut op = match b.get(i) {
                Some(&x) => x,
                None => break,
            };
            if op < 0x80 {
                op = status;
            } else {
                i += 1;
            }
            match op {
                0xff if b.get(i) == Some(&0x2f) => break,
                0xf0..=0xff => {
                    i += (op == 0xff) as usize;
                    i += num(&mut i).unwrap_or(0) as usize;
                }
                _ => {
                    status = op;
                    i += if op & 0xe0 == 0xc0 { 1 } else { 2 };
                }
            }
        }
        total = total.max(sum * 24 / tpb / 127);
        at += 8 + len;
    }
    total
}

/// What a run that never ends is, if it is no violation.  The recorded finding: the command ends
/// without loop optimisation, and a song it may read has a silence or note of hours (from a damaged
/// time), hundreds of equal commands in a row.  And a song of days takes longer than can be
/// simulated even without loop optimisation: nothing is said about it.
fn excused(cmd: &Cmd, disk: &Disk, w: &mut World, run: &Run) -> Option<&'static str> {
    if run.end == End::Deadlock {
        return None;
    }
    let total = disk.values().map(|d| length(d)).max().unwrap_or(0);
    if total < 600 {
        return None;
    }
    if cmd.skip {
        w.stats.count("runs set aside: songs of days", (total >= 20_000) as u64);
        return if total >= 20_000 { Some("") } else { None };
    }
    let mut c = cmd.clone();
    c.skip = true;
    if total < 20_000 && w.reference(false, &c.args(), disk).hung() {
        return None;
    }
    w.stats.count("runs set aside: known finding C04 (long runs)", 1);
    Some("loop optimisation of a song with a very long run of one command")
}

/// C10: notes of the MIDI file against notes of the converted song.
pub fn eval_midi(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let disk = disk_of(sc);
    for (i, st) in sc.steps.iter().enumerate() {
        let midi = match sc.files.get(&st.cmd.input) {
            Some(FileSpec::Midi(m)) => m,
            _ => continue,
        };
        let run = w.run(false, &st.cmd.args(), &disk, &st.plan);
        if run.end == End::Internal {
            find(&mut f, "HARNESS", run.describe());
            return f;
        }
        let head = format!("step {} {}{}", i, st.cmd.what, if st.cmd.skip { " -s" } else { "" });
        if run.hung() {
            if midi.late.is_none() {
                find(&mut f, "C10", format!("{} never ends: {}", head, run.describe()));
            }
            return f;
        }
        let k = fired_kinds(&st.cmd, &disk, &st.plan, &run);
        if !run.ok() {
            w.stats.count("conversions refused", 1);
            if sc.must && !k.hard && !k.display {
                find(&mut f, "C10", format!("{}: a file that needs at most eight voices is refused: {}", head, run.describe()));
                return f;
            }
            continue;
        }
        w.active = true;
        w.stats.count("conversions judged", 1);
        let tracks = if st.cmd.what == "midi2json" {
            let v = get(&run.disk, &st.cmd.output).and_then(|b| serde_json::from_slice::<serde_json::Value>(b).ok()).and_then(|v| SongSpec::from_json(&v));
            match v.ok_or_else(|| "output is not a song".to_string()).and_then(|s| {
                // every timed command of an exported song must be representable in the driver's stream
                for c in s.tracks.iter().flatten() {
                    if let Some(d) = c.d {
                        if d > 0x7f {
                            return Err(format!("a {} lasts {} ticks, which the driver cannot express", c.name, d));
                        }
                    }
                    if c.name == "Note" && !(0x80..0xc8).contains(&c.args[0]) {
                        return Err(format!("note code {:#x} is not a note of the driver", c.args[0]));
                    }
                }
                expand(&s)
            }) {
                Ok(x) => xev_to_pev(&x),
                Err(e) => {
                    find(&mut f, "C10", format!("{}: {}", head, e));
                    return f;
                }
            }
        } else {
            let r = rom_spec(sc, &st.cmd.output).and_then(|spec| get(&run.disk, &st.cmd.output).map(|rom| (spec, rom)));
            let (spec, rom) = match r {
                Some(x) => x,
                None => continue,
            };
            match upload(rom, &spec.banks[0]).and_then(|ram| play_slot(&ram, 10)) {
                Ok(Slot::Silent) => vec![vec![]; 8],
                Ok(Slot::Song { tracks, .. }) => tracks,
                Err(e) => {
                    find(&mut f, "C10", format!("{}: the converted song cannot be played: {}", head, e));
                    return f;
                }
            }
        };
        if midi.late.is_some() {
            let last = midi.notes.iter().map(|n| midi.time(n.t) * 24 / midi.tpb as u64).max().unwrap_or(0);
            let there = soundings(&tracks).map(|s| s.iter().map(|s| s.start).max().unwrap_or(0));
            if there.as_ref().map_or(true, |t| *t < last) {
                find(&mut f, "C10", format!("{}: the last note of a song too long to express, at tick {}, starts at tick {:?}", head, last, there));
                return f;
            }
            continue;
        }
        if let Err(e) = check_ends(midi, &tracks) {
            find(&mut f, "C19", format!("{}: {}", head, e));
        } else {
            w.stats.count("songs whose voices end together", (tracks.iter().filter(|t| !t.is_empty()).count() > 1) as u64);
        }
        let s = match soundings(&tracks).and_then(|s| uncut(midi, &tracks, &s).map(|_| s)).and_then(|s| match_notes(midi, &s, false).map(|_| s)) {
            Ok(s) => s,
            Err(e) => {
                find(&mut f, "C10", format!("{}: {}", head, e));
                return f;
            }
        };
        w.stats.count("notes matched", midi.notes.len() as u64);
        if let Err(e) = match_notes(midi, &s, true) {
            find(&mut f, "C16", format!("{}: {}", head, e));
            return f;
        }
        match check_tempo(midi, &tracks, &s, 0.2) {
            Ok(n) => w.stats.count("tempos compared", n as u64),
            Err(e) => {
                find(&mut f, "C16", format!("{}: {}", head, e));
                return f;
            }
        }
    }
    f
}

/// C15: the optimised song plays as the unoptimised one and has no more commands.
pub fn eval_same(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let disk = disk_of(sc);
    let song = |b: Option<&Vec<u8>>| b.and_then(|b| serde_json::from_slice::<serde_json::Value>(b).ok()).and_then(|v| SongSpec::from_json(&v));
    let plain = Cmd { what: "midi2json".into(), input: "in.mid".into(), output: "plain.json".into(), skip: true, ..Cmd::default() };
    let r = w.reference(false, &plain.args(), &disk);
    if !r.ok() {
        w.stats.count("songs refused", 1);
        return f;
    }
    let spec = match song(get(&r.disk, "plain.json")) {
        Some(s) => s,
        None => return f,
    };
    let size = |s: &SongSpec| s.tracks.iter().map(|t| t.len()).sum::<usize>();
    let want = match expand(&spec) {
        Ok(x) => x,
        Err(e) => {
            find(&mut f, "C15", format!("the unoptimised song cannot be played: {}", e));
            return f;
        }
    };
    for (i, st) in sc.steps.iter().enumerate() {
        let run = w.run(false, &st.cmd.args(), &disk, &st.plan);
        if run.end == End::Internal {
            find(&mut f, "HARNESS", run.describe());
            return f;
        }
        let head = format!("step {} {}{}", i, st.cmd.what, if st.cmd.skip { " -s" } else { "" });
        if run.hung() {
            find(&mut f, "C15", format!("{} never ends: {}", head, run.describe()));
            return f;
        }
        let k = fired_kinds(&st.cmd, &disk, &st.plan, &run);
        if !run.ok() {
            w.stats.count("conversions refused", 1);
            if st.cmd.what == "midi2json" && !k.hard && !k.display {
                find(&mut f, "C15", format!("{}: refused although midi2json -s converts the song: {}", head, run.describe()));
                return f;
            }
            continue;
        }
        w.active = true;
        w.stats.count("conversions compared", 1);
        let res = if st.cmd.what == "midi2json" {
            song(get(&run.disk, &st.cmd.output)).ok_or_else(|| "output is not a song".to_string()).and_then(|s| {
                w.stats.count("loops", s.tracks.iter().flatten().filter(|c| c.name == "CallLoop").count() as u64);
                if size(&s) > size(&spec) {
                    return Err(format!("{} commands instead of {}", size(&s), size(&spec)));
                }
                if s.tracks.iter().flatten().any(|c| c.name == "CallLoop" && !(1..=255).contains(&c.args[1])) {
                    return Err("a loop is called a number of times the driver cannot express".into());
                }
                let x = xev_to_pev(&expand(&s)?);
                compare(&want, true, &if x.iter().all(|t| t.is_empty()) { Slot::Silent } else { Slot::Song { loops: true, tracks: x } })
            })
        } else {
            match rom_spec(sc, &st.cmd.output).and_then(|spec| get(&run.disk, &st.cmd.output).map(|rom| (spec, rom))) {
                Some((spec, rom)) => upload(rom, &spec.banks[0]).and_then(|ram| play_slot(&ram, 10)).and_then(|s| compare(&want, true, &s)),
                None => continue,
            }
        };
        if let Err(e) = res {
            find(&mut f, "C15", format!("{}: compared with the unoptimised song, {}", head, e));
            return f;
        }
    }
    f
}

/// C12: what a build sets does not depend on what was there.
pub fn eval_indep(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let pristine = disk_of(sc);
    let (last, hist) = match sc.steps.split_last() {
        Some(x) => x,
        None => return f,
    };
    let rom = last.cmd.output.clone();
    let spec = match rom_spec(sc, &rom) {
        Some(s) => s.clone(),
        None => return f,
    };
    let a = w.reference(false, &last.cmd.plain().args(), &pristine);
    let mut inv = spec.clone();
    inv.invert = !inv.invert;
    let mut d2 = pristine.clone();
    d2.insert(rom.clone(), Arc::new(inv.bytes()));
    let b = w.reference(false, &last.cmd.plain().args(), &d2);
    if a.hung() || b.hung() {
        find(&mut f, "C12", format!("build never ends: {}", a.describe()));
        return f;
    }
    if a.ok() != b.ok() {
        find(&mut f, "C12", format!("{} {} on a ROM and {} when its song data is different", last.cmd.what, a.describe(), b.describe()));
        return f;
    }
    // the history
    let mut disk = pristine.clone();
    let mut seen = vec![];
    for st in hist {
        let pre = disk.clone();
        let run = w.run(false, &st.cmd.args(), &pre, &st.plan);
        if run.hung() || run.end == End::Internal {
            return f;
        }
        seen.push(format!("{} {:?}", st.cmd.what, run.end));
        disk = if run.end == End::Crashed && st.power != 0 { power_loss(&pre, &run, st.power) } else { run.disk };
    }
    let h = get(&disk, &rom).cloned().unwrap_or_default();
    let c = w.run(false, &last.cmd.args(), &disk, &last.plan);
    if c.hung() || c.end == End::Crashed || c.end == End::Internal {
        return f;
    }
    let k = fired_kinds(&last.cmd, &disk, &last.plan, &c);
    if c.ok() != a.ok() && !k.hard && !k.display {
        find(&mut f, "C12", format!("{} on the used ROM ({}): {}; on a pristine one: {}", last.cmd.what, seen.join(", "), c.describe(), a.describe()));
        return f;
    }
    if !c.ok() || !a.ok() {
        return f;
    }
    w.stats.count("builds compared with a pristine build", 1);
    let (p, p2) = (get(&pristine, &rom).unwrap(), get(&d2, &rom).unwrap());
    let (pa, pb, ph) = (get(&a.disk, &rom).cloned().unwrap_or_default(), get(&b.disk, &rom).cloned().unwrap_or_default(), get(&c.disk, &rom).cloned().unwrap_or_default());
    if pa.len() != p.len() || pb.len() != p.len() || ph.len() != h.len() || h.len() != p.len() {
        find(&mut f, "C12", "the ROM's length changed".into());
        return f;
    }
    let mut set = 0u64;
    for i in 0..p.len() {
        if p[i] == p2[i] {
            // outside chunk data (same in both): must simply be what it was everywhere
            if pa[i] != ph[i] && h[i] == p[i] {
                find(&mut f, "C12", format!("byte {:#x} becomes {:02x} on a pristine ROM and {:02x} on a used one", i, pa[i], ph[i]));
                return f;
            }
            continue;
        }
        if pa[i] == pb[i] {
            set += 1;
            if ph[i] != pa[i] {
                find(&mut f, "C12", format!("byte {:#x}, which the build sets to {:02x} on a pristine ROM, is {:02x} (was {:02x}) after the history {}", i, pa[i], ph[i], h[i], seen.join(", ")));
                return f;
            }
        } else {
            if pa[i] != p[i] || pb[i] != p2[i] {
                find(&mut f, "C12", format!("byte {:#x} is written with a value that depends on what was there: {:02x}->{:02x}, {:02x}->{:02x}", i, p[i], pa[i], p2[i], pb[i]));
                return f;
            }
            if ph[i] != h[i] {
                find(&mut f, "C12", format!("byte {:#x} is left alone on a pristine ROM but changed from {:02x} to {:02x} after the history {}", i, h[i], ph[i], seen.join(", ")));
                return f;
            }
        }
    }
    w.stats.count("bytes set by the builds", set);
    // table entries set by the build: what the console plays must not depend on what was there
    for (bi, bank) in spec.banks.iter().enumerate() {
        let (Ok(ra), Ok(rb), Ok(rh)) = (upload(&pa, bank), upload(&pb, bank), upload(&ph, bank)) else { continue };
        for slot in 0..(BANK_SONG0[bi] - 0xD000) / 2 {
            let e = 0xD000 + 2 * slot;
            if ra[e..e + 2] != rb[e..e + 2] {
                continue;
            }
            let (x, y, z) = (play_slot(&ra, slot), play_slot(&rb, slot), play_slot(&rh, slot));
            if x.is_err() && y.is_err() && z.is_err() {
                continue;
            }
            let (x, y, z) = (format!("{:?}", x), format!("{:?}", y), format!("{:?}", z));
            if x != y || x != z {
                let (other, how) = if x != y { (y, "on a ROM whose song data is different") } else { (z, "after a history") };
                let at = x.bytes().zip(other.bytes()).position(|(p, q)| p != q).unwrap_or(0).saturating_sub(30);
                let cut = |s: &str| s.chars().skip(at).take(90).collect::<String>();
                find(&mut f, "C12", format!("table entry {} of bank {} plays ..{} on a pristine ROM and ..{} {}", slot, bi, cut(&x), cut(&other), how));
                return f;
            }
            w.stats.count("table entries played on pristine, inverted and used ROM", 1);
        }
    }
    let again = w.reference(false, &last.cmd.args(), &c.disk);
    if !again.ok() || get(&again.disk, &rom) != Some(&ph) {
        find(&mut f, "C12", format!("repeating the build: {}, {}", again.describe(), diff(&ph, get(&again.disk, &rom).unwrap_or(&vec![]))));
    }
    f
}

/// C13: steps are [export, build from JSON]; the direct route is derived.
pub fn eval_json(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let disk = disk_of(sc);
    if sc.steps.len() < 2 {
        return f;
    }
    let (ex, bu) = (&sc.steps[0], &sc.steps[1]);
    let mut direct = bu.cmd.clone();
    direct.skip = ex.cmd.skip;
    direct.verbose = false;
    let mut dd = disk.clone();
    if direct.what == "build_rom" {
        // the same manifest with the JSON song replaced by the MIDI it was exported from
        match sc.files.get(&direct.input) {
            Some(FileSpec::Manifest(m)) => {
                let mut m = m.clone();
                for e in &mut m.entries {
                    if join_path(&direct.input, &e.input) == ex.cmd.output {
                        e.input = format!("/sim/{}", ex.cmd.input);
                    }
                }
                dd.insert(direct.input.clone(), Arc::new(m.bytes()));
            }
            _ => return f,
        }
    } else {
        direct.input = ex.cmd.input.clone();
    }
    let d = w.reference(false, &direct.args(), &dd);
    let e = w.run(false, &ex.cmd.args(), &disk, &ex.plan);
    if e.hung() || e.end == End::Internal || d.hung() {
        find(&mut f, if e.end == End::Internal { "HARNESS" } else { "C13" }, format!("never ends: {} / {}", e.describe(), d.describe()));
        return f;
    }
    let left = if e.end == End::Crashed && ex.power != 0 { power_loss(&disk, &e, ex.power) } else { e.disk.clone() };
    let b = w.run(false, &bu.cmd.args(), &left, &bu.plan);
    if b.hung() || b.end == End::Internal {
        find(&mut f, "C13", format!("the build from the exported song never ends: {}", b.describe()));
        return f;
    }
    let stale = left.get(&ex.cmd.output).is_some() && left.get(&ex.cmd.output) == disk.get(&ex.cmd.output);
    let k = fired_kinds(&bu.cmd, &left, &bu.plan, &b);
    let rom = &bu.cmd.output;
    if e.ok() {
        w.stats.count("complete exports", 1);
        if !d.ok() && b.ok() {
            // songs that do not fit fail on both routes
            find(&mut f, "C13", format!("the exported song builds although the MIDI itself does not: {}", d.describe()));
        } else if d.ok() && !b.ok() && b.ended() && !k.hard && !k.display {
            find(&mut f, "C13", format!("the MIDI builds but its complete export does not: {}", b.describe()));
        }
    } else {
        w.stats.count("incomplete exports", 1);
    }
    if b.ok() && d.ok() && !stale && get(&b.disk, rom) != get(&d.disk, rom) {
        find(
            &mut f,
            "C13",
            format!(
                "building from the {} export gives another ROM than building from the MIDI: {}",
                if e.ok() { "complete" } else { "interrupted" },
                diff(get(&d.disk, rom).unwrap_or(&vec![]), get(&b.disk, rom).unwrap_or(&vec![]))
            ),
        );
    }
    if b.ok() {
        w.stats.count("ROMs compared", 1);
    }
    f
}

/// C14: step 0 makes the dummy; the other steps are builds carried out on both ROMs.
pub fn eval_dummy(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let disk = disk_of(sc);
    let st = match sc.steps.first() {
        Some(s) => s,
        None => return f,
    };
    let (src, dst) = (st.cmd.input.clone(), st.cmd.output.clone());
    let spec = match rom_spec(sc, &src) {
        Some(s) => s.clone(),
        None => return f,
    };
    let driver = !st.cmd.addrs.is_empty();
    let args = if driver { vec![driver_arg(0, &st.cmd)] } else { st.cmd.args() };
    let run = w.run(driver, &args, &disk, &st.plan);
    if run.end == End::Internal {
        find(&mut f, "HARNESS", run.describe());
        return f;
    }
    if run.hung() {
        find(&mut f, "C14", format!("gen_fake_rom never ends: {}", run.describe()));
        return f;
    }
    let ok = if driver { run.ok() && run.reports == vec![(0, 0)] } else { run.ok() };
    let after = if run.end == End::Crashed && st.power != 0 { power_loss(&disk, &run, st.power) } else { run.disk.clone() };
    if let Some(m) = others_changed(&disk, &after, Some(&dst)) {
        find(&mut f, "C14", format!("gen_fake_rom: {}", m));
        return f;
    }
    let want = dummy_of(&spec, get(&disk, &src).unwrap());
    let k = fired_kinds(&st.cmd, &disk, &st.plan, &run);
    if ok {
        w.stats.count("dummy ROMs judged", 1);
        let got = get(&after, &dst).cloned().unwrap_or_default();
        if got != want && !k.read {
            find(&mut f, "C14", format!("gen_fake_rom reports success but the dummy is wrong: {}", diff(&want, &got)));
            return f;
        }
        if k.read && got != want {
            find(&mut f, "C14", format!("gen_fake_rom was cut off while reading the ROM and reports success with a wrong dummy: {}", diff(&want, &got)));
            return f;
        }
    } else if run.ended() && !k.hard && !k.display {
        find(&mut f, "C14", format!("gen_fake_rom fails on a valid ROM: {}", run.describe()));
        return f;
    }
    // later builds on either; the dummy made undisturbed stands in
    let mut real = disk.clone();
    let mut dummy = disk.clone();
    dummy.insert(src.clone(), Arc::new(if ok { get(&after, &dst).cloned().unwrap_or_default() } else { want }));
    for (i, b) in sc.steps.iter().enumerate().skip(1) {
        let r1 = w.run(false, &b.cmd.args(), &real, &b.plan);
        let r2 = w.run(false, &b.cmd.args(), &dummy, &b.plan);
        if r1.hung() || r2.hung() || r1.end == End::Internal {
            return f;
        }
        if r1.ok() != r2.ok() && r1.ended() && r2.ended() {
            find(&mut f, "C14", format!("step {} {}: on the real ROM {}, on the dummy {}", i, b.cmd.what, r1.describe(), r2.describe()));
            return f;
        }
        if r1.ok() {
            w.stats.count("builds on real and dummy compared", 1);
            let (a0, a1) = (get(&real, &src).unwrap(), get(&r1.disk, &src).unwrap());
            let (d0, d1) = (get(&dummy, &src).unwrap(), get(&r2.disk, &src).unwrap());
            if a1.len() != d1.len() {
                find(&mut f, "C14", format!("step {}: lengths {} and {}", i, a1.len(), d1.len()));
                return f;
            }
            for p in 0..a1.len() {
                if (a1[p] != a0[p] || d1[p] != d0[p]) && a1[p] != d1[p] {
                    find(&mut f, "C14", format!("step {} {}: byte {:#x} is set to {:02x} on the real ROM and {:02x} on the dummy", i, b.cmd.what, p, a1[p], d1[p]));
                    return f;
                }
            }
        }
        real = r1.disk;
        dummy = r2.disk;
    }
    f
}

pub fn driver_arg(t: usize, c: &Cmd) -> String {
    let p = |x: &str| if c.abs { format!("/sim/{}", x) } else { x.to_string() };
    format!(
        "{}|{}|{}|{}|{}|{}|{}",
        t,
        c.what,
        p(&c.input),
        p(&c.output),
        c.skip as u8,
        c.verbose as u8,
        if c.addrs.is_empty() { DEFAULT_ADDRS.iter().map(|x| x.to_string()).collect::<Vec<_>>() } else { c.addrs.iter().map(|x| x.to_string()).collect() }.join(",")
    )
}

/// C11: concurrent and successive calls in one process against each call alone in a fresh one.
pub fn eval_conc(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let disk = disk_of(sc);
    let plan = sc.steps.first().map(|s| s.plan.clone()).unwrap_or_default();
    // alone, one after the other, each in its own process; threads touch disjoint outputs
    let mut solo = disk.clone();
    let mut want: BTreeMap<u32, i32> = BTreeMap::new();
    let mut nth: BTreeMap<usize, u32> = BTreeMap::new();
    let mut order: Vec<&(usize, Cmd)> = sc.calls.iter().collect();
    order.sort_by_key(|c| c.0);
    for (t, c) in order {
        let r = w.reference(true, &[driver_arg(0, c)], &solo);
        if r.hung() || r.end == End::Internal || r.reports.len() != 1 {
            // a call that ends its whole process (allocation failure aside) is not comparable
            if r.hung() {
                find(&mut f, "C11", format!("a single call never ends: {}", r.describe()));
            } else if r.end == End::Internal {
                find(&mut f, "HARNESS", r.describe());
            } else {
                find(&mut f, "C11", format!("a single library call ends the process: {}", r.describe()));
            }
            return f;
        }
        let k = nth.entry(*t).or_default();
        want.insert(*t as u32 * 100 + *k, r.reports[0].1);
        *k += 1;
        solo = r.disk;
    }
    let args: Vec<String> = sc.calls.iter().map(|(t, c)| driver_arg(*t, c)).collect();
    let r = w.run(true, &args, &disk, &plan);
    if r.end == End::Internal {
        find(&mut f, "HARNESS", r.describe());
        return f;
    }
    if r.hung() {
        find(&mut f, "C11", format!("the calls together never end: {}", r.describe()));
        return f;
    }
    if !r.ok() {
        find(&mut f, "C11", format!("the process of several calls dies: {}", r.describe()));
        return f;
    }
    w.stats.count("calls judged", want.len() as u64);
    let got: BTreeMap<u32, i32> = r.reports.iter().cloned().collect();
    let nm = |c: i32| match c {
        0 => "success",
        1 => "an error",
        2 => "a panic",
        _ => "nothing",
    };
    for (id, c) in &want {
        let g = got.get(id).copied().unwrap_or(-1);
        if g != *c {
            find(&mut f, "C11", format!("call {} of thread {} ends in {} but alone in {}", id % 100, id / 100, nm(g), nm(*c)));
            return f;
        }
    }
    if r.disk != solo {
        for (k, v) in &solo {
            match r.disk.get(k) {
                None => find(&mut f, "C11", format!("file {} is missing when the calls run together", k)),
                Some(x) if **x != **v => find(&mut f, "C11", format!("file {} differs from what the calls produce alone: {}", k, diff(v, x))),
                _ => {}
            }
        }
        if let Some(m) = extra_files(&solo, &r.disk, None) {
            find(&mut f, "C11", format!("calls together: {}", m));
        }
    }
    f
}

pub fn evaluate(sc: &Scenario, w: &mut World) -> Findings {
    w.hashlog = 0;
    w.checked = sc.checked;
    match sc.mode.as_str() {
        "history" => eval_history(sc, w),
        "play" => eval_play(sc, w),
        "midi" => eval_midi(sc, w),
        "same" => eval_same(sc, w),
        "indep" => eval_indep(sc, w),
        "json" => eval_json(sc, w),
        "dummy" => eval_dummy(sc, w),
        "conc" => eval_conc(sc, w),
        "trunc" => eval_trunc(sc, w),
        "fits" => eval_fits(sc, w),
        "dump" => eval_dump(sc, w),
        "refuse" => eval_refuse(sc, w),
        m => vec![Finding { prop: "HARNESS", msg: format!("unknown mode {}", m) }],
    }
}

/// C18: valid inputs with enough room are accepted.
pub fn eval_fits(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let mut disk = disk_of(sc);
    let mut cache = BTreeMap::new();
    for (i, st) in sc.steps.iter().enumerate() {
        let run = w.run(false, &st.cmd.args(), &disk, &st.plan);
        if run.end == End::Internal {
            find(&mut f, "HARNESS", run.describe());
            return f;
        }
        let k = fired_kinds(&st.cmd, &disk, &st.plan, &run);
        let head = format!("step {} {}{}", i, st.cmd.what, if st.cmd.skip { " -s" } else { "" });
        if k.hard || k.crash || (k.display && !st.cmd.is_rom()) {
            return f;
        }
        if run.hung() && excused(&st.cmd, &disk, w, &run).is_some() {
            return f;
        }
        w.active = true;
        w.stats.count("commands that have to be accepted", 1);
        if !st.plan.writable.is_empty() {
            w.stats.fault("everything but the output write-protected", 1);
        }
        if !run.ok() {
            let room = rom_spec(sc, &st.cmd.output).map_or(String::new(), |s| format!(" (song chunks {})", s.banks.iter().map(|b| format!("{:#x}+{:#x}", b.chunks[b.base].len, b.chunks[b.base + 1].len)).collect::<Vec<_>>().join(", ")));
            find(&mut f, "C18", format!("{}: valid and with enough room{}, but {}", head, room, run.describe()));
            return f;
        }
        disk = run.disk.clone();
        if !st.cmd.is_rom() {
            continue;
        }
        if let (Some(a), Some(spec), Some(rom)) = (assignment(sc, w, &st.cmd, &mut cache), rom_spec(sc, &st.cmd.output), get(&disk, &st.cmd.output)) {
            match check_play(spec, rom, &a) {
                Ok(n) => w.stats.count("slots played", n),
                Err(e) => {
                    find(&mut f, "C18", format!("{}: accepted, but {}", head, e));
                    return f;
                }
            }
        }
    }
    f
}

/// C07: step i runs on the disk with inputs cut short (files under "cut/" replace their namesakes);
/// the result must be that of the whole file or a failure.
pub fn eval_trunc(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let all = disk_of(sc);
    let whole: Disk = all.iter().filter(|(k, _)| !k.starts_with("cut/")).map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut cut = whole.clone();
    let mut what = vec![];
    for (k, v) in all.iter().filter(|(k, _)| k.starts_with("cut/")) {
        let n = &k[4..];
        what.push(format!("{} cut to {} of {} bytes", n, v.len(), whole.get(n).map_or(0, |x| x.len())));
        cut.insert(n.to_string(), v.clone());
    }
    for st in &sc.steps {
        let a = w.reference(false, &st.cmd.plain().args(), &whole);
        let b = w.run(false, &st.cmd.args(), &cut, &st.plan);
        if a.hung() || b.hung() {
            find(&mut f, "C07", format!("{} never ends ({}): {}", st.cmd.what, what.join(", "), b.describe()));
            return f;
        }
        if b.end == End::Internal {
            find(&mut f, "HARNESS", b.describe());
            return f;
        }
        w.stats.count("cut inputs judged", 1);
        w.stats.fault("input file cut short", 1);
        if b.ok() {
            let o = &st.cmd.output;
            if !a.ok() {
                find(&mut f, "C07", format!("{}: succeeds with {} but fails with the whole file: {}", st.cmd.what, what.join(", "), a.describe()));
            } else if cut.get(o).is_some() && all.contains_key(&format!("cut/{}", o)) {
                // a ROM cut short: what the build sets must all be there, the rest as it was
                let (p, pa, pb, pc) = (get(&whole, o).unwrap(), get(&a.disk, o).unwrap(), get(&b.disk, o), get(&cut, o).unwrap());
                let n = pc.len();
                if let Some(q) = (n..p.len()).find(|&q| pa.get(q) != Some(&p[q])) {
                    find(&mut f, "C07", format!("{}: succeeds with {} although byte {:#x}, which the build sets, is not there", st.cmd.what, what.join(", "), q));
                } else if pb.map(|b| &b[..]) != Some(&pa[..n]) {
                    find(&mut f, "C07", format!("{}: with {} it silently produces another result: {}", st.cmd.what, what.join(", "), diff(&pa[..n], pb.unwrap_or(&vec![]))));
                }
            } else if let (true, Some(spec)) = (st.cmd.what == "gen_fake_rom", rom_spec(sc, &st.cmd.input)) {
                let n = get(&cut, &st.cmd.input).map_or(0, |x| x.len());
                let need = spec.banks.iter().map(|b| b.positions()[b.base + 1] + b.chunks[b.base + 1].len).max().unwrap();
                let (pa, pb) = (get(&a.disk, o).unwrap(), get(&b.disk, o));
                // (with other bank addresses, which gen_fake_rom does not take, there is no telling)
                if n < need && st.cmd.addrs.is_empty() {
                    find(&mut f, "C07", format!("gen_fake_rom succeeds with {} although the banks reach to {:#x}", what.join(", "), need));
                } else if pb.map(|b| &b[..]) != Some(&pa[..n.min(pa.len())]) {
                    find(&mut f, "C07", format!("gen_fake_rom: with {} it silently produces another result: {}", what.join(", "), diff(&pa[..n.min(pa.len())], pb.unwrap_or(&vec![]))));
                }
            } else if get(&a.disk, o) != get(&b.disk, o) {
                find(
                    &mut f,
                    "C07",
                    format!("{}: with {} it silently produces another result: {}", st.cmd.what, what.join(", "), diff(get(&a.disk, o).unwrap_or(&vec![]), get(&b.disk, o).unwrap_or(&vec![]))),
                );
            }
        } else if b.failed() {
            if let Some(m) = others_changed(&cut, &b.disk, None) {
                find(&mut f, "C07", format!("{}: fails with {} but {}", st.cmd.what, what.join(", "), m));
            }
        }
    }
    f
}

/// C20: a dump shows the whole file, whatever disturbs it, or says that it cannot.
pub fn eval_dump(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let disk = disk_of(sc);
    let text = |s: &str| s.find("MidiHandler").map(|i| (s[..i].to_string(), s[i..].to_string())).unwrap_or((s.to_string(), String::new()));
    for (i, st) in sc.steps.iter().enumerate() {
        let head = format!("step {} {}{}", i, if st.cmd.verbose { "-v " } else { "" }, st.cmd.what);
        let spec = match sc.files.get(&st.cmd.input) {
            Some(x) => x,
            None => continue,
        };
        let mut whole = disk.clone();
        let cut = if let FileSpec::Cut(x, _) = spec {
            whole.insert(st.cmd.input.clone(), x.arc());
            true
        } else {
            false
        };
        let mut q = st.cmd.clone();
        q.verbose = false;
        let a = w.reference(false, &q.args(), &whole);
        let b = w.run(false, &st.cmd.args(), &disk, &st.plan);
        if b.end == End::Internal || a.end == End::Internal {
            find(&mut f, "HARNESS", b.describe());
            return f;
        }
        if a.hung() || b.hung() {
            find(&mut f, "C20", format!("{} never ends: {}", head, b.describe()));
            return f;
        }
        let k = fired_kinds(&st.cmd, &disk, &st.plan, &b);
        if b.disk != disk {
            find(&mut f, "C20", format!("{} changes files", head));
            return f;
        }
        if st.plan.rules.iter().zip(&b.fired).any(|(r, n)| *n > 0 && r.path == "<stdout>" && r.action == "errno" && r.arg == 9) {
            // a closed output: nobody to tell
            continue;
        }
        w.active = true;
        w.stats.count("dumps judged", 1);
        if cut {
            w.stats.fault("input file cut short", 1);
        }
        let (before, dump) = text(&b.out);
        let same = if st.cmd.verbose {
            if a.out_id.0 > 1 << 20 || b.out_id.0 > 3 << 20 {
                continue;
            }
            a.end == b.end && dump == text(&a.out).1
        } else {
            a.end == b.end && a.out_id == b.out_id
        };
        let said = !b.ok() || !b.err.trim().is_empty() || if st.cmd.verbose { before.to_lowercase().contains("error") } else { !before.trim().is_empty() };
        let excused = k.hard || k.display || k.crash || cut;
        if !same && !(excused && said) {
            let why = if excused { "without a word of an error" } else { "although no call failed" };
            let at = a.out.bytes().zip(b.out.bytes()).position(|(x, y)| x != y).unwrap_or(a.out.len().min(b.out.len()));
            find(&mut f, "C20", format!("{}: shows something else than undisturbed, {} ({} bytes instead of {}, from byte {} on): {}", head, why, b.out_id.0, a.out_id.0, at, b.describe()));
            return f;
        }
        let (before, dump) = text(&a.out);
        if let (FileSpec::Midi(m), true, true) = (spec, before.trim().is_empty() && a.ok(), a.out_id.0 < crate::ctl::OUTCAP as u64) {
            let ev = midi_events(&m.bytes());
            if let Err(e) = check_dump(&dump, &ev) {
                find(&mut f, "C20", format!("{}: the dump {}", head, e));
                return f;
            }
            w.stats.count("events of the file found in the dump", ev.len() as u64);
        }
    }
    f
}

/// Why the command cannot be carried out on this disk, if it certainly cannot.
pub fn hopeless(cmd: &Cmd, disk: &Disk) -> Option<String> {
    let song = |n: &str| match get(disk, n) {
        None => Some(format!("{} is not there", n)),
        Some(b) if n.ends_with(".mid") => midi_bad(b).map(|e| format!("{} {}", n, e)),
        Some(b) => song_bad(b).map(|e| format!("{} {}", n, e)),
    };
    if cmd.raw.is_some() {
        return Some(format!("the bank addresses are {:?}", cmd.raw.as_ref().unwrap()));
    }
    let input = match get(disk, &cmd.input) {
        None => return Some(format!("{} is not there", cmd.input)),
        Some(b) => b,
    };
    match cmd.what.as_str() {
        "midi2json" => return midi_bad(input).map(|e| format!("{} {}", cmd.input, e)),
        "build_rom" => {
            if let Some(e) = manifest_bad(input) {
                return Some(format!("{} {}", cmd.input, e));
            }
            let v: serde_json::Value = serde_json::from_slice(input).unwrap();
            let names: [(&str, &[&str]); 3] = [("overworld", &OVERWORLD), ("indoor", &INDOOR), ("ending", &ENDING)];
            for (bank, songs) in names.iter() {
                for s in songs.iter() {
                    let rel = v[*bank][*s]["input"].as_str().unwrap();
                    if rel.is_empty() || rel.ends_with('/') {
                        return Some(format!("{} has a directory as the input for {:?}", cmd.input, s));
                    }
                    if let Some(e) = song(&join_path(&cmd.input, rel)) {
                        return Some(e);
                    }
                }
            }
        }
        "all_overworld" | "file_select" => {
            if let Some(e) = song(&cmd.input) {
                return Some(e);
            }
        }
        _ => return None,
    }
    match get(disk, &cmd.output) {
        None => Some(format!("{} is not there", cmd.output)),
        Some(b) => rom_bad(b, if cmd.addrs.is_empty() { &DEFAULT_ADDRS } else { &cmd.addrs }).map(|e| format!("{} {}", cmd.output, e)),
    }
}

/// C21: what cannot be carried out is refused, and nothing is written.
pub fn eval_refuse(sc: &Scenario, w: &mut World) -> Findings {
    let mut f = vec![];
    let disk = disk_of(sc);
    for (i, st) in sc.steps.iter().enumerate() {
        let why = match hopeless(&st.cmd, &disk) {
            Some(e) => e,
            None => continue,
        };
        let run = w.run(false, &st.cmd.args(), &disk, &st.plan);
        if run.end == End::Internal {
            find(&mut f, "HARNESS", run.describe());
            return f;
        }
        let head = format!("step {} {}{}", i, st.cmd.what, if st.cmd.skip { " -s" } else { "" });
        let k = fired_kinds(&st.cmd, &disk, &st.plan, &run);
        if run.hung() && excused(&st.cmd, &disk, w, &run).is_some() {
            return f;
        }
        w.active = true;
        w.stats.count("commands that have to be refused", 1);
        let kind = match why.split(' ').next().unwrap_or("") {
            _ if st.cmd.raw.is_some() => "arguments",
            _ if why.ends_with("not there") => "a missing file",
            n if n.ends_with(".mid") => "MIDI file",
            n if n == st.cmd.output => "ROM",
            n if n == st.cmd.input && st.cmd.what == "build_rom" => "manifest",
            _ => "JSON song",
        };
        w.stats.fault(&format!("input spoiled: {}", kind), 1);
        if run.hung() {
            find(&mut f, "C21", format!("{}: never ends although {}: {}", head, why, run.describe()));
        } else if run.ok() {
            find(&mut f, "C21", format!("{}: succeeds although {}", head, why));
        } else if !k.crash {
            if let Some(m) = others_changed(&disk, &run.disk, None).or(extra_files(&disk, &run.disk, None)) {
                find(&mut f, "C21", format!("{}: fails, as {}, but {}", head, why, m));
            }
        }
        if !f.is_empty() {
            return f;
        }
    }
    f
}
