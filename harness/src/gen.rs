//! Seeded generation of scenarios: inputs, command histories, schedules and fault sequences.
use crate::rng::Rng;
use crate::scen::*;
use crate::sim::*;
use crate::spec::*;
use std::collections::BTreeMap;
use std::sync::Arc;

fn est_song(s: &SongSpec) -> usize {
    40 + s.tracks.iter().map(|t| 7 + t.iter().map(|c| 1 + c.args.len() + if c.d.is_some() { 2 } else { 0 }).sum::<usize>()).sum::<usize>()
}
fn est_midi(m: &MidiSpec) -> usize {
    let unit = m.tpb as f64 / 24.0;
    let end = m.notes.iter().map(|n| n.t + n.len).max().unwrap_or(0) as f64 / unit;
    80 + m.notes.len() * 5 + (end / 127.0) as usize * 4 + m.extras.len() * 6
}
fn est(f: &FileSpec) -> usize {
    match f {
        FileSpec::Song(s) => est_song(s),
        FileSpec::Midi(m) => est_midi(m),
        FileSpec::Sample(_) => 6000,
        _ => 40,
    }
}

#[derive(Clone, Copy)]
pub struct WorldKnobs {
    pub weight: usize,  // commands per track of JSON songs
    pub notes: usize,   // notes of MIDI songs
    pub midi: u64,      // percentage of MIDI songs
    pub fit: u64,       // 0 mixed, 1 ample, 2 around the limit, 3 mostly too small
    pub custom: bool,
    pub tempo: bool,    // non-default tempo adjustment allowed
    pub mono: bool,     // only MIDI files that must convert
}
impl Default for WorldKnobs {
    fn default() -> WorldKnobs {
        WorldKnobs { weight: 25, notes: 30, midi: 30, fit: 0, custom: true, tempo: true, mono: false }
    }
}
pub struct Setup {
    pub files: BTreeMap<String, FileSpec>,
    pub songs: Vec<String>,
    pub manifests: Vec<String>,
    pub rom: String,
    pub addrs: Vec<usize>,
    pub custom: bool,
}

pub fn midi_knobs(r: &mut Rng, notes: usize) -> MidiKnobs {
    MidiKnobs {
        kind: *r.pick(&[MidiKind::Mono, MidiKind::Poly, MidiKind::Loopy, MidiKind::Loose]),
        notes: 1 + r.usize(notes.max(1)),
        percussion: r.chance(1, 4),
        controls: r.chance(1, 2),
        portamento: false,
        pad: if r.chance(1, 6) { r.usize(300) } else { 0 },
        soft: r.chance(1, 4),
    }
}

fn odd<'a>(r: &mut Rng, names: &[&'a str]) -> &'a str {
    if r.chance(1, 2) {
        names[0]
    } else {
        *r.pick(names)
    }
}

pub fn setup(r: &mut Rng, k: &WorldKnobs) -> Setup {
    let mut files = BTreeMap::new();
    let mut songs = vec![];
    let npool = 1 + r.usize(6);
    let dir = *r.pick(&["", "songs/", "a/b/", "old.mid/"]);
    for i in 0..npool {
        let w = 1 + r.log(1, k.weight.max(1) as u64) as usize;
        let (n, f) = if r.below(100) < k.midi {
            let mut mk = midi_knobs(r, k.notes);
            if k.mono {
                mk.kind = MidiKind::Mono;
            }
            (format!("{}{}{}.mid", dir, odd(r, &["t", "t", "t", "a b ", "\u{e9}t\u{e9} \u{266b}", "v1.0-", "x.json.", "T%s{}"]), i), FileSpec::Midi(gen_midi(r, &mk)))
        } else {
            (format!("{}{}{}{}", dir, odd(r, &["s", "s", "pyramid", "\u{fc}ber ", "mid.", "x.mid "]), i, odd(r, &[".json", ".json", ".json", "", ".mid.json", ".JSON", "mid", ".midi"])), FileSpec::Song(gen_song(r, w)))
        };
        // another directory may have a song of the same name
        let base = |n: &str| n.rsplit('/').next().unwrap_or("").to_string();
        let n = match songs.iter().rev().find(|m: &&String| m.ends_with(".mid") == n.ends_with(".mid")) {
            Some(m) if r.chance(1, 8) && !files.contains_key(&format!("twin/{}", base(m))) => format!("twin/{}", base(m)),
            _ => n,
        };
        files.insert(n.clone(), f);
        songs.push(n);
    }
    let mut manifests = vec![];
    let nman = 1 + r.usize(2);
    let mdir = *r.pick(&["", "", "m/"]);
    let mut need = [0usize; 3];
    for i in 0..nman {
        let mut sum = [0usize; 3];
        let entries: Vec<Entry> = (0..34)
            .map(|s| {
                let song = r.pick(&songs).clone();
                let b = if s < 15 { 0 } else if s < 31 { 1 } else { 2 };
                sum[b] += est(&files[&song]);
                let up = if mdir.is_empty() { String::new() } else { "../".to_string() };
                let input = match r.below(12) {
                    0 => format!("/sim/{}", song),
                    1 => format!("{}./{}", up, song),
                    _ => format!("{}{}", up, song),
                };
                Entry {
                    input,
                    tempo: if k.tempo && r.chance(1, 8) { Some(*r.pick(&[0.1, 0.2, 0.25, 0.5, 0.3, 0.75, 1.0, 2.0])) } else { None },
                    lp: match r.below(5) {
                        0 => Some(false),
                        1 => Some(true),
                        _ => None,
                    },
                }
            })
            .collect();
        let n = format!("{}manifest{}.json", mdir, i);
        files.insert(n.clone(), FileSpec::Manifest(ManifestSpec { entries, shuffle: r.below(6) }));
        manifests.push(n);
        for b in 0..3 {
            need[b] = need[b].max(sum[b]);
        }
    }
    if !mdir.is_empty() && r.chance(1, 2) {
        // beside the manifest lies another song under the name of one in the current directory
        let n = r.pick(&songs).clone();
        let kind = |x: &str| x.ends_with(".mid");
        let others: Vec<&String> = songs.iter().filter(|x| kind(x) == kind(&n)).collect();
        let f = files[*r.pick(&others)].clone();
        let at = format!("{}{}", mdir, n);
        files.insert(at.clone(), f);
        for m in &manifests {
            if let Some(FileSpec::Manifest(m)) = files.get_mut(m) {
                for e in m.entries.iter_mut() {
                    if r.chance(1, 6) {
                        e.input = if r.chance(1, 5) { format!("./{}", n) } else { n.clone() };
                    }
                }
            }
        }
        songs.push(at);
    }
    if nman == 2 && r.chance(1, 2) {
        manifests.reverse();
    }
    let mut base_len = [0; 3];
    let mut over_len = [0; 3];
    for b in 0..3 {
        let f = match k.fit {
            1 => 1.5 + r.usize(100) as f64 / 50.0,
            2 => 0.55 + r.usize(100) as f64 / 150.0,
            3 => 0.1 + r.usize(100) as f64 / 120.0,
            _ => match r.below(10) {
                0..=4 => 1.0 + r.usize(100) as f64 / 80.0,
                5..=8 => 0.7 + r.usize(100) as f64 / 160.0,
                _ => 0.2 + r.usize(100) as f64 / 120.0,
            },
        };
        let total = (need[b] as f64 * f) as usize + 0x60;
        let share = match r.below(4) {
            0 => 0.1 + r.usize(20) as f64 / 100.0,
            1 => 0.8,
            _ => 0.3 + r.usize(50) as f64 / 100.0,
        };
        base_len[b] = ((total as f64 * share) as usize).clamp(0x60 + r.usize(64), 0x2f00);
        over_len[b] = total.saturating_sub(base_len[b]).clamp(1 + r.usize(60), 0x7000);
    }
    let custom = k.custom && r.chance(1, 3);
    let rom = gen_rom(r, &RomKnobs { custom_ptrs: custom, base_len, over_len });
    let addrs = if custom { rom.addrs() } else { vec![] };
    files.insert("game.sfc".into(), FileSpec::Rom(rom));
    Setup { files, songs, manifests, rom: "game.sfc".into(), addrs, custom }
}

/// weights: build_rom, all_overworld, file_select, midi2json, gen_fake_rom, dump_midi
pub fn command(r: &mut Rng, s: &Setup, w: &[u64; 6]) -> Cmd {
    let mut c = Cmd { skip: r.chance(1, 3), abs: r.chance(1, 6), output: s.rom.clone(), addrs: s.addrs.clone(), ..Cmd::default() };
    match r.weighted(w) {
        0 => {
            c.what = "build_rom".into();
            c.input = r.pick(&s.manifests).clone();
        }
        1 => {
            c.what = "all_overworld".into();
            c.input = r.pick(&s.songs).clone();
        }
        2 => {
            c.what = "file_select".into();
            c.input = r.pick(&s.songs).clone();
        }
        3 => {
            c.what = "midi2json".into();
            let mids: Vec<&String> = s.songs.iter().filter(|n| n.ends_with(".mid")).collect();
            c.input = if mids.is_empty() { s.songs[0].clone() } else { (*r.pick(&mids)).clone() };
            c.output = "export.json".into();
        }
        4 => {
            c.what = "gen_fake_rom".into();
            c.input = s.rom.clone();
            c.output = "dummy.sfc".into();
        }
        _ => {
            c.what = "dump_midi".into();
            c.input = r.pick(&s.songs).clone();
            c.output = String::new();
        }
    }
    c
}

// ---------------------------------------------------------------- schedules and faults
pub fn add_sched(r: &mut Rng, p: &mut Plan, run: &Run) {
    p.policy = r.below(6) as u32;
    p.sched_seed = r.next();
    for _ in 0..r.usize(7) {
        if p.pre.len() >= 30 {
            break;
        }
        let op = 1 + r.below(run.ops + run.ops / 4 + 2);
        let edges = if r.chance(1, 2) { 0 } else { r.log(1, (run.edges / run.ops.max(1)).max(2) * 20) as u32 };
        p.pre.push(Pre { op, edges, choice: r.below(4) as u32 });
    }
    if r.chance(1, 4) {
        // one thread stalls for a long time, starting at one of its synchronisation calls
        let call = *r.pick(&["fwait", "fwake", "write", "thread", "tty", "clock"]);
        p.rules.push(Rule { call: call.into(), path: if call == "write" { "<stdout>".into() } else { String::new() }, nth: r.below(40) as u32, count: 1, action: "stall".into(), arg: r.log(50, 5_000_000) as i64 });
    }
}
pub fn add_env(r: &mut Rng, p: &mut Plan) {
    if r.chance(3, 4) {
        p.hash_seed = r.next();
    }
    if r.chance(1, 2) {
        p.stat_seed = r.next() >> 1;
    }
    if r.chance(1, 3) {
        p.ncpu = *r.pick(&[1u32, 1, 2, 3, 8, 16, 64]);
    }
    if r.chance(1, 2) {
        p.env_seed = 1 + r.below(u32::MAX as u64) as u32;
    }
    if r.chance(1, 3) {
        for _ in 0..1 + r.usize(3) {
            if r.chance(1, 3) {
                p.env.push(format!("{}={}", r.pick(&["COLUMNS", "COLUMNS", "LINES", "RAYON_NUM_THREADS", "TERM_WIDTH"]), r.log(1, 300)));
            }
            let e = *r.pick(&[
                "TERM=dumb", "TERM=", "TERM=xterm-256color", "COLUMNS=0", "COLUMNS=7", "COLUMNS=5000", "LINES=1", "HOME=/sim", "HOME=/nonexistent", "TZ=Asia/Kathmandu",
                "LANG=C", "LANG=tr_TR.UTF-8", "LC_ALL=de_DE.UTF-8", "LC_NUMERIC=de_DE.UTF-8", "TMPDIR=/tmp", "TMPDIR=/var/tmp", "NO_COLOR=1", "CI=true", "CLICOLOR=0",
                "RUST_LOG=trace", "PWD=/", "USER=nobody", "DEBUG=1", "RAYON_NUM_THREADS=1", "RUST_MIN_STACK=4194304",
            ]);
            p.env.push(e.to_string());
        }
    }
    if r.chance(1, 3) {
        let cols = *r.pick(&[1u32, 2, 10, 17, 40, 80, 132, 300, 65535]);
        p.tty = cols | (1 + r.below(60) as u32) << 16;
    }
    if r.chance(1, 4) {
        p.clock_real0 = *r.pick(&[0i64, 1, 946_684_800_000_000_000, 4_000_000_000_000_000_000, 1_700_000_000_999_999_999]);
    }
    if r.chance(1, 4) {
        p.clock_step = *r.pick(&[0i64, 1, 1_000_000, 1_000_000_000, 400_000_000_000]);
    }
    if r.chance(1, 4) {
        p.latency = r.log(1, 10_000_000);
    }
    if r.chance(1, 4) {
        for _ in 0..1 + r.usize(3) {
            let back = r.chance(1, 2);
            let j = r.log(1, 4_000_000_000_000_000) as i64;
            p.rules.push(Rule { call: "clock".into(), path: String::new(), nth: r.below(60) as u32, count: 1, action: "jump".into(), arg: if back { -j } else { j } });
        }
    }
}
/// behaviour a correct program must not notice
pub fn add_soft(r: &mut Rng, p: &mut Plan, run: &Run) {
    if r.chance(1, 2) {
        p.read_frag = *r.pick(&[1u32, 1, 2, 3, 7, 13, 100, 511, 4096, 0x8000_0000 | 2, 0x8000_0000 | 64, 0x8000_0000 | 5000]);
        p.frag_seed = r.next();
    }
    if r.chance(1, 2) {
        p.write_frag = *r.pick(&[1u32, 2, 3, 100, 511, 512, 4096, 8191, 0x8000_0000 | 10, 0x8000_0000 | 3000, 0x8000_0000 | 60000]);
        p.frag_seed = r.next();
    }
    let n = r.usize(4);
    for _ in 0..n {
        let c = r.pick(&["read", "write", "open", "fwait", "write"]).to_string();
        let sites: Vec<&Site> = run.sites.iter().filter(|s| s.call == c).collect();
        let (path, cnt) = if sites.is_empty() { (String::new(), 4) } else { let s = r.pick(&sites); (s.path.clone(), s.count) };
        match c.as_str() {
            "fwait" => p.rules.push(Rule { call: c, path: String::new(), nth: r.below(cnt.max(1) * 2) as u32, count: 1 + r.below(3) as u32, action: "spurious".into(), arg: 0 }),
            _ => {
                if r.chance(1, 2) || c == "open" {
                    p.rules.push(Rule { call: c, path, nth: r.below(cnt.max(1)) as u32, count: 1 + r.below(3) as u32, action: "errno".into(), arg: 4 })
                } else {
                    p.rules.push(Rule { call: c, path, nth: r.below(cnt.max(1)) as u32, count: 1, action: "short".into(), arg: r.log(1, 30000) as i64 })
                }
            }
        }
    }
}
/// a failing call at a random place among those the command makes
pub fn add_hard(r: &mut Rng, p: &mut Plan, cmd: &Cmd, run: &Run, want: &[&str]) {
    let mut sites: Vec<&Site> = run.sites.iter().filter(|s| want.contains(&s.call.as_str()) && (!s.path.starts_with('<') || s.path == "<thread>")).collect();
    if sites.is_empty() {
        return;
    }
    // the output is where partial effects come from
    if r.chance(1, 3) {
        let o: Vec<&Site> = sites.iter().filter(|s| Some(s.path.as_str()) == cmd.out()).cloned().collect();
        if !o.is_empty() {
            sites = o;
        }
    }
    let s = *r.pick(&sites);
    let last = r.chance(1, 4);
    let mut cnt = s.count.max(1);
    if (s.call == "read" && p.read_frag != 0) || (s.call == "write" && p.write_frag != 0) {
        // pieces: as many calls as the data needs
        let f = (if s.call == "read" { p.read_frag } else { p.write_frag } & 0x7fffffff).max(1) as u64;
        cnt = cnt.max(s.bytes.min(200_000) / f + 1);
    }
    let nth = if last { cnt - 1 } else { r.below(cnt) } as u32;
    let errs: &[i64] = match s.call.as_str() {
        "open" => &[2, 13, 5, 24, 23],
        "read" => &[5, 5, 12, 116],
        "write" => &[28, 28, 5, 122, 27],
        "lseek" => &[22, 5],
        "stat" => &[5, 13],
        "thread" => &[11, 12],
        "trunc" => &[5, 28, 27],
        "rename" | "unlink" => &[13, 28, 5],
        _ => &[5, 28],
    };
    let count = if r.chance(1, 2) { 1 } else { u32::MAX };
    p.rules.push(Rule { call: s.call.clone(), path: if s.path == "<thread>" { String::new() } else { s.path.clone() }, nth, count, action: "errno".into(), arg: *r.pick(errs) });
}
pub fn add_display(r: &mut Rng, p: &mut Plan, run: &Run) {
    let w: u64 = run.sites.iter().filter(|s| s.call == "write" && s.path == "<stdout>").map(|s| s.count).sum::<u64>().max(1);
    let n = 1 + r.usize(2);
    for _ in 0..n {
        let nth = if r.chance(1, 4) { 0 } else { r.below(w + 2) as u32 };
        let err = *r.pick(&[32i64, 32, 5, 28, 11, 9, 4]);
        let path = if r.chance(1, 8) { "<stderr>" } else { "<stdout>" };
        let count = if r.chance(1, 2) { u32::MAX } else { 1 + r.below(5) as u32 };
        if err == 4 && count > 1000 {
            continue;
        }
        p.rules.push(Rule { call: "write".into(), path: path.into(), nth, count, action: "errno".into(), arg: err });
    }
    if r.chance(1, 3) {
        p.rules.push(Rule { call: "write".into(), path: "<stdout>".into(), nth: r.below(w) as u32, count: 1 + r.below(20) as u32, action: "short".into(), arg: 1 + r.below(5) as i64 });
    }
}
pub fn add_crash(r: &mut Rng, p: &mut Plan, cmd: &Cmd, run: &Run) {
    let out = cmd.out().unwrap_or("");
    let ws: Vec<&Site> = run.sites.iter().filter(|s| s.path == out && matches!(s.call.as_str(), "write" | "open" | "lseek" | "close" | "trunc" | "rename" | "fsync")).collect();
    let muts: Vec<&Site> = run.sites.iter().filter(|s| !s.path.starts_with('<') && matches!(s.call.as_str(), "write" | "rename" | "trunc" | "unlink" | "fsync" | "close")).collect();
    match r.below(8) {
        0 | 1 => {
            p.crash_op = 1 + r.below(run.ops);
            if r.chance(1, 2) {
                p.crash_edges = r.log(1, (run.edges / run.ops.max(1)).max(2) * 10);
            }
        }
        2 | 3 | 4 if !ws.is_empty() => {
            // around the replacement of the output, cut up finely
            if r.chance(2, 3) {
                p.write_frag = *r.pick(&[512u32, 4096, 1000, 8192, 0x8000_0000 | 20000]);
                p.frag_seed = r.next();
            }
            let writes: u64 = ws.iter().filter(|s| s.call == "write").map(|s| s.bytes).sum();
            let f = (p.write_frag & 0x7fffffff) as u64;
            let span = if f > 0 { writes / f } else { 0 } + 8;
            let from = ws.iter().filter(|s| s.call != "open").map(|s| s.first_op).max().unwrap_or(1);
            p.crash_op = (from + r.below(span * 2 + 2)).saturating_sub(2).max(1);
        }
        5 | 6 if !muts.is_empty() => {
            let s = r.pick(&muts);
            p.rules.push(Rule { call: s.call.clone(), path: s.path.clone(), nth: r.below(s.count) as u32, count: 1, action: "crash_after".into(), arg: 0 });
        }
        _ => {
            if let Some(s) = muts.iter().find(|s| s.call == "write" && s.path == out).or(muts.iter().find(|s| s.call == "write")) {
                p.rules.push(Rule { call: "write".into(), path: s.path.clone(), nth: r.below(s.count) as u32, count: 1, action: "torn".into(), arg: r.below(65536) as i64 });
            } else {
                p.crash_op = 1 + r.below(run.ops);
            }
        }
    }
}
const ALLCALLS: [&str; 11] = ["open", "read", "write", "lseek", "stat", "close", "fsync", "trunc", "rename", "unlink", "thread"];

/// an input the command cannot use
fn spoil(r: &mut Rng, s: &mut Setup, cmd: &Cmd) {
    let mut targets: Vec<String> = vec![cmd.input.clone()];
    if cmd.is_rom() {
        if let Some(FileSpec::Manifest(m)) = s.files.get(&cmd.input).cloned() {
            // the song may be used late: everything before it has been converted by then
            let i = *r.pick(&[0usize, 14, 15, 30, 31, 33, 33]);
            targets.push(join_path(&cmd.input, &m.entries[i].input));
            targets.push(targets[1].clone());
        }
        targets.push(s.rom.clone());
    }
    let t = r.pick(&targets).clone();
    let old = match s.files.get(&t) {
        Some(f) => f.clone(),
        None => return,
    };
    let n = old.bytes().len().max(1);
    let new = match r.below(8) {
        0 => None,
        1 => Some(FileSpec::Cut(Box::new(old), r.usize(n))),
        2 => Some(FileSpec::Junk(r.log(1, 5000) as usize, r.next())),
        3 => Some(FileSpec::Raw(String::new())),
        4 | 5 => {
            let k = 1 + r.usize(3);
            let from = if r.chance(1, 3) { n * 3 / 4 } else { 0 };
            Some(FileSpec::Patch(Box::new(old), (0..k).map(|_| (from + r.usize(n - from), r.below(256) as u8)).collect()))
        }
        _ => match old {
            FileSpec::Rom(mut rom) => {
                if r.chance(1, 2) {
                    for b in &mut rom.banks {
                        let k = b.base + r.usize(2);
                        b.chunks[k].len = 1 + b.chunks[k].len / (2 + r.usize(6));
                    }
                    // lengths changed: positions follow, but the banks stay where they are
                    let mut ok = true;
                    for i in 0..3 {
                        for j in 0..3 {
                            if i != j && rom.banks[i].start < rom.banks[j].end() && rom.banks[j].start < rom.banks[i].end() {
                                ok = false;
                            }
                        }
                    }
                    if ok { Some(FileSpec::Rom(rom)) } else { None }
                } else {
                    let b = r.usize(3);
                    let k = rom.banks[b].base;
                    rom.banks[b].chunks[k].aram = 0xC000;
                    Some(FileSpec::Rom(rom))
                }
            }
            FileSpec::Song(mut so) => {
                match r.below(4) {
                    0 => so.part = vec![so.tracks.len() + 1],
                    1 => so.part = (0..9).map(|i| i % so.tracks.len().max(1)).collect(),
                    2 => so.tracks.push(vec![NCmd { d: Some(1), v: None, s: None, name: "Wobble".into(), args: vec![] }]),
                    _ => so.tracks[0].push(NCmd { d: Some(0), v: Some(0), s: Some(0), name: "CallLoop".into(), args: vec![99, 2] }),
                }
                Some(FileSpec::Song(so))
            }
            FileSpec::Midi(mut m) => {
                // far more voices at once than there are channels
                let t0 = m.tpb as u32 * 4;
                for k in 0..9 + r.usize(12) {
                    m.notes.push(Note { tr: 0, ch: (k % 9) as u8, p: 30 + k as u8 * 3, t: t0, len: t0, v: 90, off: 0 });
                }
                Some(FileSpec::Midi(m))
            }
            FileSpec::Manifest(mut m) => {
                let i = *r.pick(&[0usize, 20, 33]);
                m.entries[i].input = r.pick(&["nothing.json", "", "/sim/none.mid", "game.sfc"]).to_string();
                Some(FileSpec::Manifest(m))
            }
            _ => None,
        },
    };
    match new {
        None => {
            s.files.remove(&t);
        }
        Some(f) => {
            s.files.insert(t, f);
        }
    }
}

/// files that are no inputs, but have names a program might look for
fn bait(r: &mut Rng, s: &mut Setup) -> Vec<String> {
    let mut v = vec![];
    let all: Vec<String> = s.files.keys().cloned().collect();
    for _ in 0..1 + r.usize(4) {
        let n = r.pick(&all).clone();
        let (dir, base) = match n.rfind('/') {
            Some(i) => n.split_at(i + 1),
            None => ("", n.as_str()),
        };
        let stem = base.rsplit_once('.').map_or(base, |x| x.0);
        let name = match r.below(12) {
            0 | 1 | 2 => format!("{}{}{}", dir, stem, r.pick(&[".json", ".mid", ".midi", ".spc", ".bak", ".tmp", ".old", ".cfg", ".srm", ".sfc", ".smc"])),
            3 | 4 | 5 => format!("{}{}{}", dir, base, r.pick(&[".json", ".bak", ".tmp", ".cache", ".lock", ".new", "~", ".orig", ".journal", ".old"])),
            6 => format!("{}.{}{}", dir, base, r.pick(&["", ".tmp", ".swp", ".lock", ".cache"])),
            7 | 8 => format!("{}{}", dir, r.pick(&["midi2spc.json", "midi2spc.toml", ".midi2spc", "config.json", "manifest.json", "tempo.json", ".midi2spcrc", "bank_addrs", ".env"])),
            9 => format!("{}{}", r.pick(&["json/", "songs/", "backup/", "cache/", ".cache/", "tmp/"]), base),
            10 => base.to_string(),
            _ => format!("{}{}", dir, base.to_uppercase()),
        };
        let taken = |x: &str| s.files.contains_key(x) || all.iter().any(|f| f.starts_with(&format!("{}/", x)) || x.starts_with(&format!("{}/", f)));
        if taken(&name) {
            continue;
        }
        let same = s.files[&n].clone();
        let f = match r.below(5) {
            0 => FileSpec::Junk(r.usize(300), r.next()),
            1 => same,
            2 => FileSpec::Raw(String::new()),
            _ => {
                // something of the kind the name says
                if name.contains(".json") && !name.contains("manifest") {
                    FileSpec::Song(gen_song(r, 6))
                } else if name.contains(".mid") {
                    let mk = midi_knobs(r, 30);
                    FileSpec::Midi(gen_midi(r, &mk))
                } else if let Some(o) = all.iter().filter(|o| **o != n && o.rsplit('.').next() == n.rsplit('.').next()).next() {
                    s.files[o].clone()
                } else {
                    same
                }
            }
        };
        s.files.insert(name.clone(), f);
        v.push(name);
    }
    v
}

/// files under names for which the program looks and finds nothing
fn sought(r: &mut Rng, w: &mut World, s: &mut Setup, cmd: &Cmd) -> Vec<String> {
    let mut p = Plan::default();
    if r.chance(1, 2) {
        // a home directory within the simulation
        p.env.push("HOME=/sim".into());
    }
    let disk: Disk = s.files.iter().map(|(k, v)| (k.clone(), v.arc())).collect();
    let run = w.run(false, &cmd.args(), &disk, &p);
    let mut v = vec![];
    for n in &run.paths {
        let all: Vec<String> = s.files.keys().cloned().collect();
        let known = n.is_empty() || n.starts_with('<') || *n == cmd.output || all.iter().any(|f| f == n || f.starts_with(&format!("{}/", n)) || n.starts_with(&format!("{}/", f)));
        if known || run.disk.contains_key(n) {
            continue;
        }
        let like = r.pick(&all).clone();
        let f = match r.below(5) {
            0 => FileSpec::Junk(r.usize(300), r.next()),
            1 => FileSpec::Raw(String::new()),
            2 => FileSpec::Raw(r.pick(&["1", "0.5", "{}", "[]", "tempo = 1.0\n", "{\"tempoAdjust\": 1.0, \"loop\": false, \"optimize\": false}", "-s"]).bytes().map(|x| format!("{:02x}", x)).collect()),
            3 if n.contains(".mid") => {
                let mk = midi_knobs(r, 30);
                FileSpec::Midi(gen_midi(r, &mk))
            }
            3 => FileSpec::Song(gen_song(r, 6)),
            _ => s.files[&like].clone(),
        };
        s.files.insert(n.clone(), f);
        v.push(n.clone());
    }
    v
}

fn stale(r: &mut Rng, s: &mut Setup) {
    for n in ["export.json", "dummy.sfc"] {
        if r.chance(1, 2) {
            let len = *r.pick(&[0u64, 10, 3000, 150_000]) as usize;
            s.files.insert(n.into(), FileSpec::Junk(len + r.usize(50), r.next()));
        }
    }
    if r.chance(1, 2) {
        s.files.insert("notes.txt".into(), FileSpec::Junk(r.usize(200), r.next()));
    }
}

fn quiet_ref(w: &mut World, files: &BTreeMap<String, FileSpec>, cmd: &Cmd, cache: &mut BTreeMap<String, Arc<Vec<u8>>>) -> Run {
    let mut d = Disk::new();
    for (k, v) in files {
        let b = cache.entry(k.clone()).or_insert_with(|| v.arc()).clone();
        d.insert(k.clone(), b);
    }
    let mut q = cmd.clone();
    q.verbose = false;
    w.reference(false, &q.args(), &d)
}

/// sometimes the target already exists and has the very size, or nearly the content, the command is going to write
fn near(r: &mut Rng, files: &mut BTreeMap<String, FileSpec>, cmd: &Cmd, run: &Run) {
    if !matches!(cmd.what.as_str(), "midi2json" | "gen_fake_rom") || !run.ok() || cmd.input == cmd.output || !r.chance(1, 4) {
        return;
    }
    let Some(b) = run.disk.get(&cmd.output).filter(|b| !b.is_empty()) else { return };
    let mut v = b.to_vec();
    let f = match r.below(6) {
        0 => FileSpec::Junk(v.len(), r.next()),
        1 => FileSpec::Junk(v.len() + 1, r.next()),
        _ if v.len() > 60_000 => FileSpec::Junk(v.len(), r.next()),
        x => {
            match x {
                2 => v.truncate(v.len() - 1 - r.usize(v.len().min(40))),
                3 => {
                    for _ in 0..1 + r.usize(40) {
                        v.push(r.next() as u8);
                    }
                }
                _ => {
                    for _ in 0..1 + r.usize(3) {
                        let i = r.usize(v.len());
                        v[i] ^= 1 + r.below(9) as u8;
                    }
                }
            }
            FileSpec::Raw(v.iter().map(|x| format!("{:02x}", x)).collect())
        }
    };
    files.insert(cmd.output.clone(), f);
}

pub fn generate(prop: &str, seed: u64, idx: u64, w: &mut World) -> Scenario {
    let mut r = Rng::stream(seed, prop, idx);
    // every other scenario runs the build with overflow checks and debug assertions
    w.checked = idx % 2 == 1;
    let mut sc = match prop {
        "C09" => gen_play(&mut r, w),
        "C10" => gen_midi_scen(&mut r, w, idx, false, false),
        "C16" => gen_midi_scen(&mut r, w, idx, true, false),
        "C19" => {
            let controls = r.chance(1, 2);
            gen_midi_scen(&mut r, w, idx, controls, true)
        }
        "C15" => gen_same(&mut r, w, idx),
        "C11" => gen_conc(&mut r, w),
        "C12" => gen_indep(&mut r, w),
        "C13" => gen_json(&mut r, w),
        "C14" => gen_dummy(&mut r, w),
        "C18" => gen_fits(&mut r, w),
        "C20" => gen_dump(&mut r, w, idx),
        "C21" => gen_refuse(&mut r, w),
        "C07" if r.chance(1, 2) => gen_trunc(&mut r, w),
        _ => gen_history(prop, &mut r, w),
    };
    write_args(&mut Rng::stream(seed ^ 0xa265, prop, idx), prop, &mut sc);
    sc
}

/// Bank addresses that are none, or not three
fn bad_addrs(r: &mut Rng, cmd: &Cmd) -> String {
    let l: Vec<String> = (if cmd.addrs.is_empty() { DEFAULT_ADDRS.to_vec() } else { cmd.addrs.clone() }).iter().map(|x| format!("{:x}", x)).collect();
    let n = l.len();
    match r.below(9) {
        0 => l[..n - 1].join(","),
        1 => l[0].clone(),
        2 => format!("{},{}", l.join(","), l[0]),
        3 => format!("{},{},xyz", l[0], l[1]),
        4 => format!("{},0x{},{}", l[0], l[1], l[2]),
        5 => format!("{},{},{:x}", l[0], l[1], 0xff_8000u32 + r.below(0x7fff) as u32),
        6 => format!("ffffffff,{},{}", l[1], l[2]),
        7 => format!("{},{},-{}", l[0], l[1], l[2]),
        _ => format!("{},{},{}00000000", l[0], l[1], l[2]),
    }
}

/// The same commands with their arguments written in other ways, and some with addresses that are none.
fn write_args(r: &mut Rng, prop: &str, sc: &mut Scenario) {
    let how = if prop == "C05" { 60 } else { 25 };
    let bad = prop == "C02" && r.chance(1, 12);
    for st in &mut sc.steps {
        if r.chance(how, 100) {
            st.cmd.form = r.below(1024) as u32 & r.next() as u32;
        }
        if bad && st.cmd.is_rom() {
            st.cmd.raw = Some(bad_addrs(r, &st.cmd));
        }
    }
}

fn gen_history(prop: &str, r: &mut Rng, w: &mut World) -> Scenario {
    let mut k = WorldKnobs { fit: *r.pick(&[1u64, 1, 0, 0, 2]), midi: *r.pick(&[0u64, 30, 60, 100]), ..WorldKnobs::default() };
    if r.chance(1, 10) {
        k.weight = 120;
        k.notes = 150;
    }
    if prop == "C08" {
        k.fit = *r.pick(&[0u64, 2, 2, 3]);
    }
    let mut s = setup(r, &k);
    if r.chance(1, if prop == "C04" { 8 } else { 30 }) {
        let n = r.pick(&s.songs).clone();
        if n.ends_with(".mid") {
            s.files.insert(n, FileSpec::Midi(gen_crowd(r)));
        }
    }
    if prop == "C04" && r.chance(1, 16) {
        if let Some(FileSpec::Rom(x)) = s.files.get("game.sfc").cloned() {
            let beyond = *r.pick(&[0usize, 0, 1, 2, 4, 16]);
            let ptrs = x.banks.iter().all(|b| b.ptr > beyond + 8);
            s.files.insert("game.sfc".into(), if ptrs { FileSpec::Runaway(x, beyond) } else { FileSpec::Rom(x) });
        }
    }
    let mut baits = if prop == "C05" && r.chance(1, 5) { bait(r, &mut s) } else { vec![] };
    stale(r, &mut s);
    let mix: [u64; 6] = match prop {
        "C01" => [40, 15, 15, 15, 15, 0],
        "C02" => [40, 15, 15, 15, 15, 0],
        "C03" => [50, 12, 18, 10, 10, 0],
        "C04" => [45, 15, 20, 8, 6, 6],
        "C05" => [40, 15, 20, 15, 10, 0],
        "C06" => [50, 20, 30, 0, 0, 0],
        "C07" => [45, 12, 13, 20, 10, 0],
        _ => [50, 20, 20, 5, 5, 0],
    };
    let nsteps = match prop {
        "C03" => 1 + r.usize(4),
        "C05" | "C06" => 1 + r.usize(2),
        _ => 1 + r.usize(3),
    };
    let first = command(r, &s, &mix);
    if prop == "C05" && r.chance(1, 4) {
        baits.extend(sought(r, w, &mut s, &first));
    }
    let spoiled = match prop {
        "C02" => r.chance(3, 5),
        "C08" => r.chance(1, 4),
        "C03" | "C04" | "C05" | "C06" | "C07" => r.chance(1, 10),
        _ => r.chance(1, 8),
    };
    if spoiled {
        for _ in 0..10 {
            let mut s2 = Setup { files: s.files.clone(), songs: s.songs.clone(), manifests: s.manifests.clone(), rom: s.rom.clone(), addrs: s.addrs.clone(), custom: s.custom };
            spoil(r, &mut s2, &first);
            if s2.files != s.files {
                s = s2;
                break;
            }
        }
    }
    // spoiled ROMs have no model; commands on them are still judged for everything else
    let mut cache = BTreeMap::new();
    let mut steps = vec![];
    for i in 0..nsteps {
        let mut cmd = if i == 0 || r.chance(2, 3) { first.clone() } else { command(r, &s, &mix) };
        let run = quiet_ref(w, &s.files, &cmd, &mut cache);
        if i == 0 {
            near(r, &mut s.files, &cmd, &run);
            cache.remove(&cmd.output);
        }
        let mut p = Plan::default();
        let mut power = 0;
        let x = r.below(100);
        match prop {
            "C01" => {
                add_env(r, &mut p);
                if x < 45 {
                    add_soft(r, &mut p, &run);
                }
                if x >= 30 && x < 95 {
                    for _ in 0..1 + r.usize(2) {
                        add_hard(r, &mut p, &cmd, &run, &["open", "read", "write", "lseek", "close", "fsync", "trunc", "rename", "write"]);
                    }
                }
                if x >= 80 {
                    add_sched(r, &mut p, &run);
                }
            }
            "C02" => {
                if x < 70 || !spoiled {
                    for _ in 0..1 + r.usize(2) {
                        add_hard(r, &mut p, &cmd, &run, &ALLCALLS);
                    }
                }
                if x % 4 == 0 {
                    add_soft(r, &mut p, &run);
                }
                if x % 5 == 1 {
                    add_display(r, &mut p, &run);
                    cmd.verbose = r.chance(1, 4);
                }
                if x % 5 == 2 {
                    p.alloc_fail = 1 + r.below(run.allocs.max(1));
                }
                if x % 3 == 0 {
                    add_sched(r, &mut p, &run);
                }
                add_env(r, &mut p);
            }
            "C03" => {
                if x < 30 {
                    add_sched(r, &mut p, &run);
                }
                add_env(r, &mut p);
                add_crash(r, &mut p, &cmd, &run);
                if r.chance(1, 2) {
                    power = 1 + r.next() / 2;
                }
            }
            "C04" => {
                add_sched(r, &mut p, &run);
                add_env(r, &mut p);
                if x < 35 {
                    add_display(r, &mut p, &run);
                }
                if x >= 25 && x < 60 {
                    add_hard(r, &mut p, &cmd, &run, &ALLCALLS);
                }
                if x >= 50 {
                    add_soft(r, &mut p, &run);
                }
                if x % 10 == 3 {
                    p.alloc_fail = 1 + r.below(run.allocs.max(1));
                }
                if x % 7 == 1 {
                    cmd.verbose = true;
                }
            }
            "C05" => {
                add_env(r, &mut p);
                if x < 70 {
                    add_sched(r, &mut p, &run);
                }
                if x >= 30 {
                    add_soft(r, &mut p, &run);
                }
                cmd.verbose = x % 5 == 0;
            }
            "C06" => {
                add_display(r, &mut p, &run);
                add_env(r, &mut p);
                if x < 60 {
                    add_sched(r, &mut p, &run);
                }
                if x % 4 == 0 {
                    add_soft(r, &mut p, &run);
                }
                cmd.verbose = x % 5 == 1;
            }
            "C07" => {
                p.read_frag = *r.pick(&[0u32, 1, 1, 2, 3, 5, 64, 1000, 0x8000_0000 | 3, 0x8000_0000 | 300]);
                p.frag_seed = r.next();
                if x < 60 {
                    add_hard(r, &mut p, &cmd, &run, &["read"]);
                }
                let reads: Vec<Site> = run.sites.iter().filter(|s| s.call == "read" && !s.path.ends_with(".sfc") && !s.path.starts_with('<')).cloned().collect();
                if x >= 50 && x < 80 && !reads.is_empty() {
                    let st = r.pick(&reads);
                    let f = (p.read_frag & 0x7fffffff) as u64;
                    let cnt = if f > 0 { st.count.max(st.bytes.min(100_000) / f) } else { st.count };
                    // the file ends here although its length said otherwise: it stays at its end
                    p.rules.push(Rule { call: "read".into(), path: st.path.clone(), nth: r.below(cnt.max(1)) as u32, count: u32::MAX, action: "eof".into(), arg: 0 });
                }
                if x >= 70 {
                    add_soft(r, &mut p, &run);
                }
                if x % 5 == 0 {
                    add_sched(r, &mut p, &run);
                }
            }
            _ => {
                // C08: anything
                if x < 40 {
                    add_hard(r, &mut p, &cmd, &run, &ALLCALLS);
                }
                if x % 3 == 0 {
                    add_soft(r, &mut p, &run);
                }
                if x % 4 == 0 {
                    add_sched(r, &mut p, &run);
                }
                if x % 6 == 1 {
                    add_display(r, &mut p, &run);
                    cmd.verbose = r.chance(1, 3);
                }
                if x % 5 == 3 {
                    add_crash(r, &mut p, &cmd, &run);
                    if r.chance(1, 2) {
                        power = 1 + r.next() / 2;
                    }
                }
                if x % 13 == 5 {
                    p.alloc_fail = 1 + r.below(run.allocs.max(1));
                }
                add_env(r, &mut p);
            }
        }
        if !baits.is_empty() && r.chance(1, 2) {
            p.env.retain(|e| !e.starts_with("HOME="));
            p.env.push("HOME=/sim".into());
        }
        steps.push(Step { cmd, plan: p, power, reset: i > 0 && r.chance(1, 3) });
    }
    Scenario { mode: "history".into(), files: s.files, steps, calls: vec![], must: false, checked: w.checked, bait: baits }
}

/// steps of a history that disturbs a ROM in every way
fn disturb(r: &mut Rng, w: &mut World, s: &Setup, n: usize, faulty: u64) -> Vec<Step> {
    let mut cache = BTreeMap::new();
    let mut steps = vec![];
    for _ in 0..n {
        let cmd = command(r, s, &[50, 20, 30, 0, 0, 0]);
        let mut p = Plan::default();
        let mut power = 0;
        if r.below(100) < faulty {
            let run = quiet_ref(w, &s.files, &cmd, &mut cache);
            add_env(r, &mut p);
            match r.below(5) {
                0 => add_hard(r, &mut p, &cmd, &run, &ALLCALLS),
                1 => add_soft(r, &mut p, &run),
                2 => add_sched(r, &mut p, &run),
                3 => add_display(r, &mut p, &run),
                _ => {
                    add_crash(r, &mut p, &cmd, &run);
                    if r.chance(1, 2) {
                        power = 1 + r.next() / 2;
                    }
                }
            }
        }
        steps.push(Step { cmd, plan: p, power, reset: false });
    }
    steps
}

fn gen_play(r: &mut Rng, w: &mut World) -> Scenario {
    let mut k = WorldKnobs { fit: *r.pick(&[0u64, 1, 2, 2]), midi: *r.pick(&[0u64, 0, 20, 50]), ..WorldKnobs::default() };
    if r.chance(1, 6) {
        k.weight = 100;
    }
    let mut s = setup(r, &k);
    if r.chance(1, 4) {
        // some song is unusable, so some builds fail
        let c = command(r, &s, &[1, 0, 0, 0, 0, 0]);
        let before = s.files.get(&s.rom).cloned();
        spoil(r, &mut s, &c);
        if let Some(b) = before {
            let rom = s.rom.clone();
            s.files.insert(rom, b);
        }
    }
    if r.chance(1, 6) {
        let c = command(r, &s, &[50, 20, 30, 0, 0, 0]);
        tighten(r, w, &mut s, &c);
    }
    let n = 1 + r.usize(4);
    let steps = disturb(r, w, &s, n, 40);
    Scenario { mode: "play".into(), files: s.files, steps, calls: vec![], must: false, checked: w.checked, bait: vec![] }
}

/// The bytes the command sets in the two song chunks of each bank, up to the last one, with room for everything.
fn used(w: &mut World, s: &Setup, cmd: &Cmd, lens: ([usize; 3], [usize; 3]), r: &mut Rng) -> Option<Vec<[usize; 2]>> {
    let mut spec = gen_rom(r, &RomKnobs { custom_ptrs: false, base_len: lens.0, over_len: lens.1 });
    let mut c = cmd.clone();
    c.addrs = vec![];
    let mut out = vec![[0usize; 2]; 3];
    for invert in [false, true] {
        spec.invert = invert;
        let mut files = s.files.clone();
        files.insert(s.rom.clone(), FileSpec::Rom(spec.clone()));
        let before = spec.bytes();
        let run = quiet_ref(w, &files, &c, &mut BTreeMap::new());
        let after = run.disk.get(&s.rom)?;
        if !run.ok() || after.len() != before.len() {
            return None;
        }
        for (i, b) in spec.banks.iter().enumerate() {
            for k in 0..2 {
                let (p, n) = (b.positions()[b.base + k], b.chunks[b.base + k].len);
                if let Some(q) = (0..n).rev().find(|q| before[p + q] != after[p + q]) {
                    out[i][k] = out[i][k].max(q + 1);
                }
            }
        }
    }
    Some(out)
}
/// Replaces the ROM by one that has just the room the command needs.
fn tighten(r: &mut Rng, w: &mut World, s: &mut Setup, cmd: &Cmd) -> bool {
    const BIG: ([usize; 3], [usize; 3]) = ([0x2f00; 3], [0x7000; 3]);
    let u = match used(w, s, cmd, BIG, r) {
        Some(u) => u,
        None => return false,
    };
    let mut lens = BIG;
    let mut again = false;
    for i in 0..3 {
        let table = BANK_SONG0[i] - 0xD000;
        let slack = *r.pick(&[0usize, 0, 0, 1, 2, 19]);
        if u[i][1] > 0 {
            // more than one chunk holds: the same again with no room left
            lens.1[i] = u[i][1] + slack;
            continue;
        }
        let n = u[i][0].max(table);
        match r.below(4) {
            0 => {
                lens.0[i] = n + slack;
                let most = *r.pick(&[1usize, 30, 3000]);
                lens.1[i] = 1 + r.usize(most);
            }
            1 => {
                // not even the first song goes into the first chunk
                lens.0[i] = table + r.usize(20);
                lens.1[i] = (n - table).max(1) + slack;
            }
            2 => {
                lens.0[i] = table + r.usize(n - table + 1);
                lens.1[i] = n + slack;
            }
            _ => {
                lens.0[i] = table + r.usize(n - table + 1);
                again = true;
            }
        }
    }
    if again {
        if let Some(v) = used(w, s, cmd, lens, r) {
            for i in 0..3 {
                if lens.1[i] == BIG.1[i] {
                    lens.1[i] = v[i][1].max(1);
                }
            }
        }
    }
    let custom = s.custom;
    let rom = gen_rom(r, &RomKnobs { custom_ptrs: custom, base_len: lens.0, over_len: lens.1 });
    s.addrs = if custom { rom.addrs() } else { vec![] };
    s.files.insert(s.rom.clone(), FileSpec::Rom(rom));
    true
}
/// C18: valid inputs, enough room, and nothing but what a correct program does not notice
fn gen_fits(r: &mut Rng, w: &mut World) -> Scenario {
    let k = WorldKnobs { fit: 1, mono: true, weight: *r.pick(&[4usize, 10, 20, 30]), notes: *r.pick(&[5usize, 20, 40]), midi: *r.pick(&[0u64, 30, 60, 100]), ..WorldKnobs::default() };
    let mut s = setup(r, &k);
    let mut cmd = command(r, &s, &[60, 10, 10, 10, 6, 4]);
    if matches!(cmd.what.as_str(), "midi2json" | "dump_midi") && !cmd.input.ends_with(".mid") || cmd.what == "gen_fake_rom" && s.custom {
        cmd = command(r, &s, &[1, 0, 0, 0, 0, 0]);
    }
    if cmd.is_rom() && tighten(r, w, &mut s, &cmd) {
        cmd.addrs = s.addrs.clone();
    }
    if !cmd.is_rom() && r.chance(1, 2) {
        stale(r, &mut s);
    }
    let mut steps = vec![];
    let mut cache = BTreeMap::new();
    let run = quiet_ref(w, &s.files, &cmd, &mut cache);
    for _ in 0..1 + r.usize(2) {
        let mut p = Plan::default();
        add_env(r, &mut p);
        if r.chance(2, 3) {
            add_soft(r, &mut p, &run);
        }
        if r.chance(1, 2) {
            add_sched(r, &mut p, &run);
        }
        if cmd.is_rom() && r.chance(1, 4) {
            add_display(r, &mut p, &run);
        }
        if cmd.out().is_some() && r.chance(1, 2) {
            p.writable = cmd.output.clone();
        }
        steps.push(Step { cmd: cmd.clone(), plan: p, power: 0, reset: false });
    }
    Scenario { mode: "fits".into(), files: s.files, steps, calls: vec![], must: true, checked: w.checked, bait: vec![] }
}

/// One voice for each channel is enough but for notes that overlap others of their channel, and those never need more
/// than the voices left over. Which of such notes gets the channel's own voice is up to the converter, and one that
/// got another keeps it until it ends, so all of them count.
fn modest(m: &MidiSpec) -> bool {
    let used: std::collections::BTreeSet<u8> = m.notes.iter().map(|n| n.ch).collect();
    if used.len() > 8 || m.notes.iter().any(|n| n.off == 2) {
        return false;
    }
    let end = |n: &crate::spec::Note| n.t + n.len.max(1) + m.tpb as u32 / 12 + 1;
    let spare: Vec<&crate::spec::Note> =
        m.notes.iter().enumerate().filter(|(i, a)| m.notes.iter().enumerate().any(|(j, b)| *i != j && a.ch == b.ch && a.t < end(b) && b.t < end(a))).map(|x| x.1).collect();
    spare.iter().all(|a| spare.iter().filter(|b| b.t <= a.t && a.t < end(b)).count() <= 8 - used.len())
}

/// Events that say nothing to the converter, of all sizes, anywhere in the file.
fn chatter(r: &mut Rng, m: &mut MidiSpec) {
    let end = m.notes.iter().map(|n| n.t + n.len).max().unwrap_or(500) as u64;
    for _ in 0..1 + r.usize(4) {
        let len = if r.chance(1, 12) { *r.pick(&[4096usize, 16384, 66_000]) } else if r.chance(1, 8) { 0 } else { r.log(1, 400) as usize };
        let mut b = vec![0; len];
        fill(&mut b, r.next());
        for x in &mut b {
            *x &= 0x7f;
        }
        let (tr, at) = (r.usize(m.ntracks), if r.chance(1, 3) { 0 } else { r.below(end + 1) as u32 });
        let ty = *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 0x7f, 0, 0x20, 0x21, 0x54, 0x58, 0x59]);
        let n = match ty {
            0 | 0x59 => 2,
            0x20 | 0x21 => 1,
            0x54 => 5,
            0x58 => 4,
            _ => b.len(),
        };
        b.resize(n, 1);
        m.extras.push((tr, at, if r.chance(1, 4) { b.push(0xf7); Ev::SysEx(b) } else { Ev::Text(ty, b) }));
    }
}

/// Voices that fall silent long before the others, and a file that goes on after its last note.
fn fade(r: &mut Rng, m: &mut MidiSpec) {
    let end = m.notes.iter().map(|n| n.t + n.len).max().unwrap_or(0);
    let chans: std::collections::BTreeSet<u8> = m.notes.iter().map(|n| n.ch).collect();
    let keep = r.pick(&chans.iter().copied().collect::<Vec<_>>()[..]).to_owned();
    for c in chans {
        if c != keep && r.chance(2, 3) {
            let to = r.below(end as u64 + 1) as u32;
            m.notes.retain(|n| n.ch != c || n.t + n.len <= to);
        }
    }
    for i in 0..m.notes.len() {
        let n = m.notes[i].clone();
        if n.off == 2 && !m.notes.iter().any(|k| k.ch == n.ch && k.p == n.p && k.t == n.t + n.len) {
            m.notes[i].off = 0;
        }
    }
    if r.chance(1, 3) {
        let (tr, at) = (r.usize(m.ntracks), end + r.log(1, 6000) as u32);
        let ch = r.below(16) as u8;
        m.extras.push((tr, at, match r.below(4) {
            0 => Ev::Cc(ch, 7, r.below(128) as u8),
            1 => Ev::Bend(ch, 0x2000),
            2 => Ev::Prog(ch, r.below(128) as u8),
            _ => Ev::Cc(ch, 10, 64),
        }));
    }
}

fn gen_midi_scen(r: &mut Rng, w: &mut World, idx: u64, controls: bool, ends: bool) -> Scenario {
    let most = if r.chance(1, 5) { 400 } else { 90 };
    let mut k = midi_knobs(r, most);
    k.kind = [MidiKind::Mono, MidiKind::Poly, MidiKind::Loopy, MidiKind::Loose][(idx % 4) as usize];
    k.pad = 0;
    if controls {
        k.controls = true;
        k.percussion = r.chance(2, 5);
        k.notes = 1 + k.notes / 2;
    }
    k.portamento = r.chance(1, if controls { 4 } else { 7 });
    let crowd = r.chance(1, 25);
    let mut m = if crowd { gen_crowd(r) } else { gen_midi(r, &k) };
    if !controls && r.chance(1, 40) && !m.notes.is_empty() {
        // a pause of more than 32 bits, in MIDI ticks or only in driver ticks; anything else would pass for a shorter one
        if r.chance(1, 2) {
            m.tpb = 1 + r.below(12) as u16;
        }
        let wrap = if m.tpb < 24 && r.chance(2, 3) { (m.tpb as u64) << 32 } else { 24u64 << 32 };
        let from = r.pick(&m.notes).t;
        let by = (wrap + 23) / 24;
        m.late = Some((from, (by + r.log(1, 3000)).saturating_sub(if r.chance(1, 3) { r.below(from as u64 + 1) } else { 0 })));
    }
    if ends && !m.notes.is_empty() && m.late.is_none() {
        fade(r, &mut m);
    }
    if r.chance(1, 5) {
        chatter(r, &mut m);
    }
    let must = (k.kind == MidiKind::Mono && !crowd || modest(&m)) && m.late.is_none();
    let e = est_midi(&m) * 3;
    let rom = gen_rom(
        r,
        &RomKnobs { custom_ptrs: false, base_len: [(e / 2).clamp(0x200, 0x2f00), 0x300, 0x300], over_len: [(e * 2).clamp(0x1000, 0x7000), 0x300, 0x300] },
    );
    let mut files = BTreeMap::new();
    files.insert("in.mid".to_string(), FileSpec::Midi(m));
    files.insert("game.sfc".to_string(), FileSpec::Rom(rom));
    let mut steps = vec![];
    for (i, skip) in [(0, r.chance(1, 2)), (1, r.chance(1, 2))] {
        let cmd = if i == 0 {
            Cmd { what: "midi2json".into(), input: "in.mid".into(), output: "out.json".into(), skip, ..Cmd::default() }
        } else {
            Cmd { what: "file_select".into(), input: "in.mid".into(), output: "game.sfc".into(), skip, ..Cmd::default() }
        };
        let mut p = Plan::default();
        add_env(r, &mut p);
        if r.chance(1, 2) {
            let run = quiet_ref(w, &files, &cmd, &mut BTreeMap::new());
            p.read_frag = *r.pick(&[0u32, 1, 3, 50, 0x8000_0000 | 9]);
            p.frag_seed = r.next();
            if r.chance(1, 2) {
                add_soft(r, &mut p, &run);
            }
            if i == 1 && r.chance(1, 2) {
                add_sched(r, &mut p, &run);
            }
            if r.chance(1, 5) {
                add_hard(r, &mut p, &cmd, &run, &["read", "open"]);
            }
        }
        steps.push(Step { cmd, plan: p, power: 0, reset: false });
    }
    Scenario { mode: "midi".into(), files, steps, calls: vec![], must, checked: w.checked, bait: vec![] }
}

/// The same song with and without loop optimisation.
fn gen_same(r: &mut Rng, w: &mut World, idx: u64) -> Scenario {
    let m = match idx % 4 {
        3 => {
            let mut k = midi_knobs(r, 200);
            k.pad = 0;
            k.portamento = r.chance(1, 3);
            gen_midi(r, &k)
        }
        x => {
            let most = if x == 0 && r.chance(1, 6) { 1500 } else if x == 1 { 60 } else { 250 };
            gen_phrases(r, most)
        }
    };
    let e = est_midi(&m) * 3;
    let rom = gen_rom(
        r,
        &RomKnobs { custom_ptrs: false, base_len: [(e / 2).clamp(0x200, 0x2f00), 0x300, 0x300], over_len: [(e * 2).clamp(0x1000, 0x7000), 0x300, 0x300] },
    );
    let mut files = BTreeMap::new();
    files.insert("in.mid".to_string(), FileSpec::Midi(m));
    files.insert("game.sfc".to_string(), FileSpec::Rom(rom));
    let mut steps = vec![];
    for i in 0..2 + r.usize(2) {
        let skip = i % 2 == 1;
        let mut cmd = if r.chance(1, 2) {
            Cmd { what: "midi2json".into(), input: "in.mid".into(), output: "out.json".into(), skip, ..Cmd::default() }
        } else {
            Cmd { what: "file_select".into(), input: "in.mid".into(), output: "game.sfc".into(), skip, ..Cmd::default() }
        };
        cmd.verbose = r.chance(1, 6);
        let mut p = Plan::default();
        add_env(r, &mut p);
        if r.chance(1, 2) {
            let run = quiet_ref(w, &files, &cmd, &mut BTreeMap::new());
            p.read_frag = *r.pick(&[0u32, 1, 3, 50, 0x8000_0000 | 9]);
            p.frag_seed = r.next();
            if r.chance(1, 2) {
                add_soft(r, &mut p, &run);
            }
            if cmd.what == "file_select" && r.chance(1, 2) {
                add_sched(r, &mut p, &run);
            }
            if r.chance(1, 5) {
                add_hard(r, &mut p, &cmd, &run, &["read", "open", "write"]);
            }
        }
        steps.push(Step { cmd, plan: p, power: 0, reset: false });
    }
    Scenario { mode: "same".into(), files, steps, calls: vec![], must: false, checked: w.checked, bait: vec![] }
}

fn gen_conc(r: &mut Rng, w: &mut World) -> Scenario {
    let k = WorldKnobs { weight: 10, notes: 20, midi: 50, fit: *r.pick(&[0u64, 1, 2]), custom: true, ..WorldKnobs::default() };
    let mut s = setup(r, &k);
    let nthreads = 1 + r.usize(4);
    let mut calls = vec![];
    let rom = s.files["game.sfc"].clone();
    // bad inputs make some calls fail or panic
    s.files.insert("bad.json".into(), FileSpec::Junk(40, r.next()));
    s.files.insert("bad.mid".into(), FileSpec::Junk(60, r.next()));
    if let Some(m) = s.songs.iter().find(|n| n.ends_with(".mid")).cloned() {
        let f = s.files[&m].clone();
        let n = f.bytes().len();
        s.files.insert("cut.mid".into(), FileSpec::Cut(Box::new(f), r.usize(n)));
    }
    for t in 0..nthreads {
        let rn = format!("game{}.sfc", t);
        s.files.insert(rn.clone(), rom.clone());
        for j in 0..1 + r.usize(3) {
            let mut c = command(r, &s, &[40, 12, 18, 15, 15, 0]);
            if c.addrs.is_empty() {
                // the library takes the three pointer addresses as they are
                c.addrs = DEFAULT_ADDRS.to_vec();
            }
            match c.what.as_str() {
                "midi2json" => c.output = format!("export{}_{}.json", t, j),
                "gen_fake_rom" => c.output = format!("dummy{}_{}.sfc", t, j),
                _ => c.output = rn.clone(),
            }
            if c.what == "gen_fake_rom" {
                c.input = rn.clone();
            }
            if r.chance(1, 5) {
                c.input = r.pick(&["bad.json", "bad.mid", "cut.mid", "absent.json"]).to_string();
                if c.what == "build_rom" && r.chance(1, 2) {
                    c.what = "file_select".into();
                }
            }
            c.verbose = r.chance(1, 10);
            if r.chance(1, 2) && !matches!(c.what.as_str(), "gen_fake_rom") && s.files.contains_key(&c.input) {
                // the input is a private copy that changes between the calls of this thread
                let cls = |n: &str| n.rsplit('.').next().unwrap_or("").to_string() + if n.contains("manifest") { "m" } else { "" };
                let depth = c.input.rfind('/').map_or(String::new(), |i| c.input[..=i].to_string());
                let alike: Vec<String> =
                    s.files.keys().filter(|k| cls(k) == cls(&c.input) && k.rfind('/').map_or(String::new(), |i| k[..=i].to_string()) == depth && !k.contains("private") && !k.starts_with("export")).cloned().collect();
                let pv = format!("{}private{}.{}", depth, t, if cls(&c.input) == "mid" { "mid" } else { "json" });
                for _ in 0..1 + r.usize(2) {
                    let src = r.pick(&alike).clone();
                    calls.push((t, Cmd { what: "copy".into(), input: src, output: pv.clone(), addrs: DEFAULT_ADDRS.to_vec(), ..Cmd::default() }));
                    let mut c2 = c.clone();
                    c2.input = pv.clone();
                    if c2.what == "midi2json" && r.chance(1, 2) {
                        c2.output = format!("export{}.json", t);
                        calls.push((t, c2.clone()));
                        c2.what = "file_select".into();
                        c2.input = c2.output.clone();
                        c2.output = rn.clone();
                    }
                    calls.push((t, c2));
                }
                continue;
            }
            calls.push((t, c));
        }
    }
    s.files.remove("game.sfc");
    let mut p = Plan::default();
    add_env(r, &mut p);
    // the number of operations is not known; draw preemption points over a plausible range
    let fake = w.reference(true, &calls.iter().map(|(t, c)| driver_arg(*t, c)).collect::<Vec<_>>(), &s.files.iter().map(|(k, v)| (k.clone(), v.arc())).collect());
    add_sched(r, &mut p, &fake);
    add_sched(r, &mut p, &fake);
    if r.chance(1, 3) {
        add_soft(r, &mut p, &fake);
    }
    let st = Step { cmd: Cmd::default(), plan: p, power: 0, reset: false };
    Scenario { mode: "conc".into(), files: s.files, steps: vec![st], calls, must: false, checked: w.checked, bait: vec![] }
}

fn gen_indep(r: &mut Rng, w: &mut World) -> Scenario {
    let k = WorldKnobs { fit: *r.pick(&[0u64, 1, 2]), midi: *r.pick(&[0u64, 20, 40]), ..WorldKnobs::default() };
    let s = setup(r, &k);
    let n = 1 + r.usize(4);
    let mut steps = disturb(r, w, &s, n, 60);
    let cmd = command(r, &s, &[50, 20, 30, 0, 0, 0]);
    let mut p = Plan::default();
    add_env(r, &mut p);
    if r.chance(1, 2) {
        let run = quiet_ref(w, &s.files, &cmd, &mut BTreeMap::new());
        add_sched(r, &mut p, &run);
        if r.chance(1, 2) {
            add_soft(r, &mut p, &run);
        }
    }
    steps.push(Step { cmd, plan: p, power: 0, reset: false });
    Scenario { mode: "indep".into(), files: s.files, steps, calls: vec![], must: false, checked: w.checked, bait: vec![] }
}

fn gen_json(r: &mut Rng, w: &mut World) -> Scenario {
    let k = WorldKnobs { midi: 100, notes: *r.pick(&[20usize, 60, 120]), fit: *r.pick(&[1u64, 1, 0]), tempo: false, custom: true, ..WorldKnobs::default() };
    let mut s = setup(r, &k);
    stale(r, &mut s);
    let mid = r.pick(&s.songs).clone();
    let skip = r.chance(1, 2);
    let export = Cmd { what: "midi2json".into(), input: mid.clone(), output: "export.json".into(), skip, ..Cmd::default() };
    let mut build = command(r, &s, &[40, 20, 40, 0, 0, 0]);
    build.skip = r.chance(1, 2);
    if build.what == "build_rom" {
        // some slots of the manifest use the export
        build.skip = skip;
        if let Some(FileSpec::Manifest(m)) = s.files.get(&build.input).cloned() {
            let mut m = m;
            let p = 1 + r.usize(4);
            for e in &mut m.entries {
                if join_path(&build.input, &e.input) == mid && r.usize(4) < p {
                    e.input = "/sim/export.json".into();
                }
            }
            s.files.insert(build.input.clone(), FileSpec::Manifest(m));
        }
    } else {
        build.input = "export.json".into();
    }
    let mut cache = BTreeMap::new();
    let run = quiet_ref(w, &s.files, &export, &mut cache);
    near(r, &mut s.files, &export, &run);
    cache.remove(&export.output);
    let mut p = Plan::default();
    add_env(r, &mut p);
    let mut power = 0;
    match r.below(6) {
        0 | 1 => add_soft(r, &mut p, &run),
        2 => {
            p.write_frag = *r.pick(&[0u32, 1, 100, 0x8000_0000 | 200, 1000]);
            add_hard(r, &mut p, &export, &run, &["write", "open", "read", "close"]);
        }
        3 | 4 => {
            add_crash(r, &mut p, &export, &run);
            if r.chance(1, 2) {
                power = 1 + r.next() / 2;
            }
        }
        _ => {
            p.alloc_fail = 1 + r.below(run.allocs.max(1));
        }
    }
    let mut bp = Plan::default();
    add_env(r, &mut bp);
    let ref2 = w.reference(false, &build.args(), &run.disk);
    match r.below(4) {
        0 => add_soft(r, &mut bp, &ref2),
        1 => add_sched(r, &mut bp, &ref2),
        2 => {
            // the export is cut off while it is being read
            add_hard(r, &mut bp, &build, &ref2, &["read"]);
            if let Some(st) = ref2.sites.iter().find(|s| s.call == "read" && s.path == "export.json") {
                bp.rules.push(Rule { call: "read".into(), path: "export.json".into(), nth: r.below(st.count) as u32, count: u32::MAX, action: "eof".into(), arg: 0 });
            }
        }
        _ => {}
    }
    let (mut export, mut build) = (export, build);
    export.verbose = r.chance(1, 3);
    build.verbose = r.chance(1, 3);
    Scenario {
        mode: "json".into(),
        files: s.files,
        steps: vec![Step { cmd: export, plan: p, power, reset: false }, Step { cmd: build, plan: bp, power: 0, reset: false }],
        calls: vec![],
        must: false,
        checked: w.checked,
        bait: vec![],
    }
}

fn gen_dummy(r: &mut Rng, w: &mut World) -> Scenario {
    let k = WorldKnobs { weight: 12, notes: 15, midi: 20, fit: *r.pick(&[0u64, 1, 2, 3]), ..WorldKnobs::default() };
    let mut s = setup(r, &k);
    if r.chance(1, 4) {
        // banks far apart, large image
        if let Some(FileSpec::Rom(rom)) = s.files.get_mut("game.sfc") {
            rom.size += r.usize(200_000);
        }
    }
    stale(r, &mut s);
    let gen = Cmd { what: "gen_fake_rom".into(), input: s.rom.clone(), output: "dummy.sfc".into(), addrs: s.addrs.clone(), ..Cmd::default() };
    let mut p = Plan::default();
    add_env(r, &mut p);
    let mut power = 0;
    if s.addrs.is_empty() {
        let run = quiet_ref(w, &s.files, &gen, &mut BTreeMap::new());
        near(r, &mut s.files, &gen, &run);
        match r.below(5) {
            0 | 1 => add_soft(r, &mut p, &run),
            2 => add_hard(r, &mut p, &gen, &run, &ALLCALLS),
            3 => {
                add_crash(r, &mut p, &gen, &run);
                if r.chance(1, 2) {
                    power = 1 + r.next() / 2;
                }
            }
            _ => {}
        }
    } else {
        p.write_frag = *r.pick(&[0u32, 1000, 0x8000_0000 | 9000]);
        p.read_frag = *r.pick(&[0u32, 1000, 0x8000_0000 | 9000]);
        p.frag_seed = r.next();
    }
    let mut steps = vec![Step { cmd: gen, plan: p, power, reset: false }];
    for _ in 0..r.usize(3) {
        let cmd = command(r, &s, &[50, 20, 30, 0, 0, 0]);
        let mut p = Plan::default();
        add_env(r, &mut p);
        if r.chance(1, 3) {
            let run = quiet_ref(w, &s.files, &cmd, &mut BTreeMap::new());
            add_sched(r, &mut p, &run);
            add_soft(r, &mut p, &run);
        }
        steps.push(Step { cmd, plan: p, power: 0, reset: false });
    }
    Scenario { mode: "dummy".into(), files: s.files, steps, calls: vec![], must: false, checked: w.checked, bait: vec![] }
}

fn gen_trunc(r: &mut Rng, w: &mut World) -> Scenario {
    let _ = w;
    let k = WorldKnobs { fit: 1, midi: *r.pick(&[0u64, 70, 100]), ..WorldKnobs::default() };
    let mut s = setup(r, &k);
    let cmd = command(r, &s, &[40, 10, 20, 30, 5, 0]);
    let mut targets = vec![cmd.input.clone()];
    if let Some(FileSpec::Manifest(m)) = s.files.get(&cmd.input) {
        targets.push(join_path(&cmd.input, &m.entries[r.usize(34)].input));
        targets.push(targets[1].clone());
    }
    if cmd.is_rom() && r.chance(1, 5) || cmd.what == "gen_fake_rom" {
        targets = vec![s.rom.clone()];
    }
    let t = r.pick(&targets).clone();
    let f = s.files[&t].clone();
    let n = f.bytes().len();
    let mut at = r.usize(n);
    if let FileSpec::Midi(m) = &f {
        // around the boundaries between the tracks
        if r.chance(1, 2) {
            let offs = m.encode().1;
            let o = *r.pick(&offs);
            at = (o + r.usize(12)).saturating_sub(2).min(n - 1);
        }
    } else if let FileSpec::Rom(rom) = &f {
        // inside the last bank, or around any chunk's boundaries
        let b = rom.banks.iter().max_by_key(|b| b.start).unwrap();
        at = match r.below(3) {
            0 => r.usize(n),
            1 => b.start + r.usize(b.end() - b.start),
            _ => {
                let pos = b.positions();
                let i = r.usize(pos.len());
                (*r.pick(&[pos[i], pos[i] + b.chunks[i].len, b.end()]) + r.usize(9)).saturating_sub(5)
            }
        }
        .min(n - 1);
    } else if r.chance(1, 4) {
        at = n - 1 - r.usize(n.min(8));
    }
    s.files.insert(format!("cut/{}", t), FileSpec::Cut(Box::new(f), at));
    let mut p = Plan::default();
    p.read_frag = *r.pick(&[0u32, 0, 1, 7, 0x8000_0000 | 20]);
    p.frag_seed = r.next();
    if r.chance(1, 3) {
        add_env(r, &mut p);
    }
    Scenario { mode: "trunc".into(), files: s.files, steps: vec![Step { cmd, plan: p, power: 0, reset: false }], calls: vec![], must: false, checked: w.checked, bait: vec![] }
}

fn gen_dump(r: &mut Rng, w: &mut World, idx: u64) -> Scenario {
    let most = if r.chance(1, 6) { 200 } else { 40 };
    let mut k = midi_knobs(r, most);
    k.kind = [MidiKind::Mono, MidiKind::Poly, MidiKind::Loopy, MidiKind::Loose][(idx % 4) as usize];
    k.pad = 0;
    k.controls = r.chance(1, 2);
    k.portamento = r.chance(1, 5);
    let mut m = if r.chance(1, 30) { gen_crowd(r) } else { gen_midi(r, &k) };
    if r.chance(1, 4) {
        chatter(r, &mut m);
        m.extras.retain(|x| !matches!(&x.2, Ev::Text(_, b) | Ev::SysEx(b) if b.len() > 5000));
    }
    let n = m.bytes().len();
    let mut files = BTreeMap::new();
    if r.chance(1, 3) {
        let offs = m.encode().1;
        let at = match r.below(3) {
            0 => r.usize(n),
            1 => (r.pick(&offs[..]) + r.usize(14)).saturating_sub(3).min(n - 1),
            _ => n - 1 - r.usize(n.min(12)),
        };
        files.insert("cut.mid".to_string(), FileSpec::Cut(Box::new(FileSpec::Midi(m.clone())), at));
    }
    files.insert("in.mid".to_string(), FileSpec::Midi(m));
    let names: Vec<String> = files.keys().cloned().collect();
    let mut steps = vec![];
    for i in 0..2 + r.usize(3) {
        let input = if i == 0 { "in.mid".to_string() } else { r.pick(&names).clone() };
        let cmd = Cmd { what: "dump_midi".into(), input, skip: r.chance(1, 4), verbose: r.chance(1, 5), ..Cmd::default() };
        let mut p = Plan::default();
        add_env(r, &mut p);
        let run = w.reference(false, &cmd.args(), &files.iter().map(|(k, v)| (k.clone(), v.arc())).collect());
        if r.chance(2, 3) {
            add_soft(r, &mut p, &run);
        }
        match r.below(6) {
            0 => add_display(r, &mut p, &run),
            1 => add_hard(r, &mut p, &cmd, &run, &["read", "open"]),
            2 => {
                // the output takes only a little at a time
                let w = run.sites.iter().filter(|s| s.call == "write" && s.path == "<stdout>").map(|s| s.count).sum::<u64>().max(1);
                p.rules.push(Rule { call: "write".into(), path: "<stdout>".into(), nth: r.below(w) as u32, count: r.log(1, 500) as u32, action: "short".into(), arg: 1 + r.below(30) as i64 });
                p.rules.push(Rule { call: "write".into(), path: "<stdout>".into(), nth: r.below(w) as u32, count: 1 + r.below(3) as u32, action: "errno".into(), arg: 4 });
            }
            3 if r.chance(1, 3) => p.alloc_fail = 1 + r.below(run.allocs.max(1)),
            _ => {}
        }
        steps.push(Step { cmd, plan: p, power: 0, reset: true });
    }
    Scenario { mode: "dump".into(), files, steps, calls: vec![], must: false, checked: w.checked, bait: vec![] }
}

/// One of the values inside, as a path of keys
fn inside(r: &mut Rng, v: &serde_json::Value, depth: usize) -> Vec<String> {
    let mut path = vec![];
    let mut cur = v;
    for _ in 0..depth {
        let keys: Vec<String> = match cur {
            serde_json::Value::Object(m) => m.keys().cloned().collect(),
            serde_json::Value::Array(a) if !a.is_empty() => {
                // now and then the last one: everything before it is right
                let i = if r.chance(1, 3) { a.len() - 1 } else { r.usize(a.len()) };
                vec![i.to_string()]
            }
            _ => break,
        };
        if keys.is_empty() {
            break;
        }
        path.push(r.pick(&keys).clone());
        let k = path.last().unwrap();
        cur = match cur {
            serde_json::Value::Object(m) => &m[k],
            serde_json::Value::Array(a) => &a[k.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    path
}

fn garble_json(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    use serde_json::{json, Value};
    if r.chance(1, 5) {
        // numbers that are bytes, but none the driver knows in that place
        if let Some(mut so) = serde_json::from_slice(b).ok().and_then(|v| SongSpec::from_json(&v)) {
            let t = r.usize(so.tracks.len().max(1));
            if so.tracks.get(t).map_or(false, |t| !t.is_empty()) {
                let n = so.tracks[t].len();
                let i = if r.chance(1, 3) { n - 1 } else { r.usize(n) };
                let how = r.below(8);
                let all = so.tracks.len();
                for c in so.tracks[t].iter_mut().skip(i) {
                    match how {
                        0 => c.d = Some(*r.pick(&[128u8, 129, 200, 255])),
                        1 => c.v = Some(*r.pick(&[16u8, 17, 127, 128, 255])),
                        2 => c.s = Some(*r.pick(&[8u8, 9, 15, 16, 255])),
                        3 if c.name == "Note" => c.args = vec![*r.pick(&[0usize, 1, 60, 127, 0xe0, 0xff])],
                        4 if c.name == "Note" => c.d = None,
                        5 if c.name == "CallLoop" => c.args[1] = 0,
                        6 => *c = NCmd { d: Some(0), v: Some(0), s: Some(0), name: "CallLoop".into(), args: vec![r.usize(all), 2] },
                        _ => continue,
                    }
                    break;
                }
                return so.bytes();
            }
        }
    }
    let text = String::from_utf8_lossy(b).trim_end().to_string();
    match r.below(10) {
        0 => return b[..r.usize(text.len())].to_vec(),
        1 => return format!("{}{}", text, r.pick(&["}", ",", "]", "\u{0}", " x", "{}"])).into_bytes(),
        2 => {
            // a byte that is no text, or one that is no JSON
            let mut v = b.to_vec();
            let i = r.usize(v.len());
            v[i] = *r.pick(&[0xffu8, 0, 0xc3, b'\n', b'\'', b',', b'"', b'{', b':', b';', b'-', b'.', b'x']);
            return v;
        }
        _ => {}
    }
    let mut v: Value = match serde_json::from_slice(b) {
        Ok(v) => v,
        Err(_) => return vec![],
    };
    let depth = 1 + r.usize(8);
    let path = inside(r, &v, depth);
    let (last, up) = match path.split_last() {
        Some(x) => x,
        None => return vec![],
    };
    let mut cur = &mut v;
    for k in up {
        cur = match cur {
            Value::Object(m) => m.get_mut(k).unwrap(),
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    let how = r.below(4);
    let junk = |r: &mut Rng, old: &Value| match (r.below(3), old) {
        (0, Value::Number(n)) => {
            let n = n.as_f64().unwrap_or(0.0);
            r.pick(&[json!(n + 256.0), json!(n as i64 + 256), json!(-1), json!(n + 0.5), json!(n.to_string()), json!([n as i64]), json!(1u64 << 32)]).clone()
        }
        (0, Value::String(s)) => r.pick(&[json!(s.to_lowercase() + "."), json!([s]), json!({ s.clone(): 1 }), json!("")]).clone(),
        (0, Value::Bool(b)) => r.pick(&[json!(b.to_string()), json!(*b as u8)]).clone(),
        _ => r.pick(&[json!(null), json!([]), json!({}), json!("x"), json!(7), json!(true), json!("0.5"), json!("false")]).clone(),
    };
    match cur {
        Value::Object(m) => match how {
            0 => {
                m.remove(last);
            }
            1 => {
                let x = m.remove(last).unwrap();
                let name = match r.below(3) {
                    0 => last.to_lowercase(),
                    1 => format!("{} ", last),
                    _ => last.to_uppercase(),
                };
                m.insert(name, x);
            }
            _ => {
                let x = junk(r, &m[last]);
                m.insert(last.clone(), x);
            }
        },
        Value::Array(a) => {
            let i = last.parse::<usize>().unwrap();
            match how {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    for _ in 0..1 + r.usize(8) {
                        a.push(x.clone());
                    }
                }
                _ => a[i] = junk(r, &a[i].clone()),
            }
        }
        _ => {}
    }
    if r.chance(1, 2) { serde_json::to_vec(&v).unwrap() } else { serde_json::to_vec_pretty(&v).unwrap() }
}

fn garble_midi(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    if n < 30 {
        return vec![];
    }
    match r.below(6) {
        0 => v[r.usize(4)] ^= 1 << r.below(8),
        1 => v[12] |= 0x80,
        2 => v[12..14].copy_from_slice(r.pick(&[[0xe2u8, 80], [0xe8, 4], [0xe7, 40], [0xff, 0xff], [0x80, 0]])),
        3 => v.truncate(r.usize(n)),
        4 => v.truncate(n - 1 - r.usize(9)),
        _ => {
            // a track that says it is longer than the file
            let mut tr = vec![];
            let mut p = 14;
            while p + 8 <= n {
                tr.push(p);
                p += 8 + v[p + 4..p + 8].iter().fold(0usize, |a, x| a << 8 | *x as usize);
            }
            let p = *r.pick(&tr);
            let k = 4 + r.usize(4);
            v[p + k] = v[p + k].saturating_add(1 + r.below(120) as u8);
        }
    }
    v
}

fn gen_refuse(r: &mut Rng, w: &mut World) -> Scenario {
    let k = WorldKnobs { fit: *r.pick(&[0u64, 1, 1]), weight: *r.pick(&[4usize, 10, 20]), notes: *r.pick(&[5usize, 20]), midi: *r.pick(&[0u64, 40, 100]), ..WorldKnobs::default() };
    let mut s = setup(r, &k);
    let mut cmd = command(r, &s, &[60, 15, 15, 10, 0, 0]);
    if cmd.what == "midi2json" && !cmd.input.ends_with(".mid") {
        cmd = command(r, &s, &[1, 0, 0, 0, 0, 0]);
    }
    if r.chance(1, 2) {
        stale(r, &mut s);
    }
    let good = s.files.clone();
    let args = cmd.is_rom() && r.chance(1, 10);
    if args {
        cmd.raw = Some(bad_addrs(r, &cmd));
    }
    let disk = |f: &BTreeMap<String, FileSpec>| -> Disk { f.iter().map(|(k, v)| (k.clone(), v.arc())).collect() };
    for _ in 0..if args { 0 } else { 30 } {
        s.files = good.clone();
        let mut t = cmd.input.clone();
        match r.below(10) {
            0 | 1 if cmd.is_rom() => t = s.rom.clone(),
            2..=6 => {
                if let Some(FileSpec::Manifest(m)) = s.files.get(&cmd.input) {
                    // mostly one of the last to be read: everything before it has been converted by then
                    let i = *r.pick(&[0usize, 14, 15, 30, 31, 33, 33]);
                    t = join_path(&cmd.input, &m.entries[i].input);
                }
            }
            _ => {}
        }
        let old = match s.files.get(&t) {
            Some(f) => f.clone(),
            None => continue,
        };
        if t.starts_with("m/") && t != cmd.input && r.chance(1, 2) {
            s.files.remove(&t);
        } else if r.chance(1, 8) {
            // not there, but perhaps where nobody said it would be
            let rel = match s.files.get(&cmd.input) {
                Some(FileSpec::Manifest(m)) => m.entries.iter().map(|e| e.input.clone()).find(|x| join_path(&cmd.input, x) == t),
                _ => None,
            };
            s.files.remove(&t);
            let base = t.rsplit('/').next().unwrap().to_string();
            let dir = cmd.input.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
            let at = match (r.below(7), rel) {
                (0 | 1, Some(rel)) => join_path("x", &rel),
                (2, _) => base,
                (3, _) => format!("{}{}", dir, base),
                (4, _) => if t.ends_with(".mid") { format!("{}i", t) } else { format!("{}.json", t) },
                (5, _) => if r.chance(1, 2) { t.to_uppercase() } else { t.to_lowercase() },
                _ => String::new(),
            };
            if !at.is_empty() && at != cmd.output && !s.files.contains_key(&at) && !s.files.keys().any(|k| k.starts_with(&format!("{}/", at)) || at.starts_with(&format!("{}/", k))) {
                s.files.insert(at, old);
            }
        } else if let FileSpec::Rom(mut rom) = old {
            let b = r.usize(3);
            let base = rom.banks[b].base;
            match r.below(4) {
                0 => {
                    let p = rom.banks[b].positions();
                    let k = r.usize(rom.banks[b].chunks.len());
                    s.files.insert(t, FileSpec::Cut(Box::new(FileSpec::Rom(rom)), p[k] + r.usize(5)));
                }
                1 => {
                    rom.banks[b].chunks[base].aram = *r.pick(&[0xC000usize, 0xD001, 0xD100, 0x00D0, 0]);
                    s.files.insert(t, FileSpec::Rom(rom));
                }
                2 => {
                    let need = [0x36, 0x46, 0x46][b];
                    rom.banks[b].chunks[base].len = 1 + r.usize(need - 1);
                    s.files.insert(t, FileSpec::Rom(rom));
                }
                _ => {
                    // an address beyond the end
                    let (p, n) = (rom.banks[b].ptr, rom.bytes().len());
                    let hi = ((n >> 15) + r.usize(20)).min(255) as u8;
                    s.files.insert(t, FileSpec::Patch(Box::new(FileSpec::Rom(rom)), vec![(p + 8, hi)]));
                }
            }
        } else {
            let b = old.bytes();
            let x = if t.ends_with(".mid") { garble_midi(r, &b) } else { garble_json(r, &b) };
            s.files.insert(t, FileSpec::Raw(x.iter().map(|c| format!("{:02x}", c)).collect()));
        }
        if hopeless(&cmd, &disk(&s.files)).is_some() {
            break;
        }
    }
    let mut steps = vec![];
    let run = quiet_ref(w, &s.files, &cmd, &mut BTreeMap::new());
    for _ in 0..1 + r.usize(2) {
        let mut p = Plan::default();
        add_env(r, &mut p);
        if r.chance(1, 2) {
            add_soft(r, &mut p, &run);
        }
        if r.chance(1, 2) {
            add_sched(r, &mut p, &run);
        }
        if r.chance(1, 5) {
            add_display(r, &mut p, &run);
        }
        let mut c = cmd.clone();
        c.verbose = r.chance(1, 6);
        steps.push(Step { cmd: c, plan: p, power: 0, reset: false });
    }
    Scenario { mode: "refuse".into(), files: s.files, steps, calls: vec![], must: false, checked: w.checked, bait: vec![] }
}
