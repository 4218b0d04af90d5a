//! Independent oracles: the console's view of a ROM (bank upload and N-SPC song player), what a
//! song file asks for, the exact dummy ROM, and the notes of a MIDI file.
use crate::spec::*;

/// One step of a channel as the sound driver sees it, loops expanded.
#[derive(Clone, Debug, PartialEq)]
pub struct PEv {
    pub op: u8,
    pub args: Vec<u8>,
    /// duration, sustain (bits 4-6) and velocity (bits 0-3) in force; only for notes, ties and rests
    pub d: u8,
    pub sus: Option<u8>,
    pub vel: Option<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Slot {
    Silent,
    Song { loops: bool, tracks: Vec<Vec<PEv>> },
}

const NARGS: [usize; 27] = [1, 1, 2, 3, 0, 1, 2, 1, 2, 1, 1, 3, 0, 1, 2, 3, 1, 3, 3, 0, 1, 3, 0, 3, 3, 3, 1];
const MAXEV: usize = 200_000;

/// Upload a bank the way the console does: follow the pointer, copy each chunk to its address.
pub fn upload(rom: &[u8], b: &BankSpec) -> Result<Vec<u8>, String> {
    let mut ram = vec![0u8; 0x10000];
    fill(&mut ram, 0xA7A7); // whatever was there before
    let at = |p: usize| rom.get(p).copied().ok_or_else(|| format!("read beyond the ROM at {:#x}", p));
    let (lo, hi, bank) = (at(b.ptr)? as usize, at(b.ptr + 4)? as usize, at(b.ptr + 8)? as usize);
    let mut p = (bank << 15) | ((hi << 8 | lo) & 0x7fff);
    for _ in 0..200 {
        let len = at(p)? as usize | (at(p + 1)? as usize) << 8;
        let dst = at(p + 2)? as usize | (at(p + 3)? as usize) << 8;
        if len == 0 {
            return Ok(ram);
        }
        for i in 0..len {
            ram[(dst + i) & 0xffff] = at(p + 4 + i)?;
        }
        p += 4 + len;
    }
    Err("the bank never ends".into())
}

fn play_track(ram: &[u8], start: usize) -> Result<Vec<PEv>, String> {
    let mut pc = start;
    let mut out = vec![];
    let mut d: Option<u8> = None;
    let (mut sus, mut vel): (Option<u8>, Option<u8>) = (None, None);
    let mut ret: Option<(usize, usize, u32)> = None; // return, loop start, left
    let mut steps = 0usize;
    loop {
        steps += 1;
        if steps > MAXEV * 4 || out.len() > MAXEV {
            return Err(format!("track at {:#x} never ends", start));
        }
        let b = ram[pc & 0xffff];
        pc += 1;
        match b {
            0 => match ret {
                None => return Ok(out),
                Some((r, s, n)) => {
                    if n > 1 {
                        ret = Some((r, s, n - 1));
                        pc = s;
                    } else {
                        ret = None;
                        pc = r;
                    }
                }
            },
            0x01..=0x7f => {
                d = Some(b);
                if ram[pc & 0xffff] != 0 && ram[pc & 0xffff] < 0x80 {
                    let q = ram[pc & 0xffff];
                    pc += 1;
                    sus = Some(q >> 4);
                    vel = Some(q & 0x0f);
                }
                // the driver now expects a command, a note, a tie or a rest
                let nx = ram[pc & 0xffff];
                if nx < 0x80 {
                    return Err(format!("track at {:#x}: {:#04x} follows a duration at {:#x}", start, nx, pc & 0xffff));
                }
            }
            0x80..=0xc9 => {
                let d = d.ok_or_else(|| format!("track at {:#x}: note without duration", start))?;
                out.push(PEv { op: b, args: vec![], d, sus, vel });
            }
            0xca..=0xdf => {
                let d = d.ok_or_else(|| format!("track at {:#x}: drum without duration", start))?;
                out.push(PEv { op: b, args: vec![], d, sus, vel });
            }
            0xe0..=0xfa => {
                let n = NARGS[(b - 0xe0) as usize];
                let args: Vec<u8> = (0..n).map(|i| ram[(pc + i) & 0xffff]).collect();
                pc += n;
                if b == 0xef {
                    if ret.is_some() {
                        return Err(format!("track at {:#x}: loop call inside a loop", start));
                    }
                    let t = args[0] as usize | (args[1] as usize) << 8;
                    if args[2] == 0 {
                        return Err(format!("track at {:#x}: loop called 0 times", start));
                    }
                    ret = Some((pc, t, args[2] as u32));
                    pc = t;
                } else {
                    out.push(PEv { op: b, args, d: 0, sus: None, vel: None });
                }
            }
            _ => return Err(format!("track at {:#x}: undefined command {:#04x} at {:#x}", start, b, (pc - 1) & 0xffff)),
        }
    }
}

/// Play slot number `slot` (0..34) of an uploaded bank.
pub fn play_slot(ram: &[u8], slot: usize) -> Result<Slot, String> {
    let w = |a: usize| ram[a & 0xffff] as usize | (ram[(a + 1) & 0xffff] as usize) << 8;
    let song = w(0xD000 + 2 * slot);
    if song == 0 {
        return Ok(Slot::Silent);
    }
    let part = w(song);
    if part < 0x100 {
        return Err(format!("song at {:#x} starts with {:#06x}", song, part));
    }
    let (nx, tgt) = (w(song + 2), w(song + 4));
    let loops = match nx {
        0 => false,
        0xff => {
            if tgt != song {
                return Err(format!("song at {:#x} loops to {:#x}", song, tgt));
            }
            true
        }
        x => return Err(format!("song at {:#x}: part list continues with {:#06x}", song, x)),
    };
    if loops && w(song + 6) != 0 {
        return Err(format!("song at {:#x}: part list not terminated", song));
    }
    let mut tracks = vec![];
    for i in 0..8 {
        let a = w(part + 2 * i);
        tracks.push(if a == 0 { vec![] } else { play_track(ram, a)? });
    }
    if tracks.iter().all(|t| t.is_empty()) {
        return Ok(Slot::Silent);
    }
    Ok(Slot::Song { loops, tracks })
}

// ------------------------------------------------------------------ what a song file asks for
#[derive(Clone, Debug)]
pub struct XEv {
    pub op: u8,
    pub args: Vec<u8>,
    pub d: Option<u8>,
    pub vel: Option<u8>,
    pub sus: Option<u8>,
    pub tempo: Option<(f64, f64)>, // a tempo only known to within rounding before its adjustment by the second
}
pub fn op_of(name: &str, args: &[usize]) -> Option<u8> {
    Some(match name {
        "Note" => args[0] as u8,
        "Tie" => 0xc8,
        "Rest" => 0xc9,
        n => CMDS.iter().find(|c| c.0 == n)?.2,
    })
}
pub fn expand(s: &SongSpec) -> Result<Vec<Vec<XEv>>, String> {
    let mut out = vec![];
    for (ch, &ti) in s.part.iter().enumerate() {
        let mut ev = vec![];
        let tr = s.tracks.get(ti).ok_or("bad track number")?;
        if !tr.is_empty() {
            // a track that also plays on the first channel starts like that one
            let pre: &[(u8, u8)] = if ch == 0 || ti == s.part[0] { &[(0xfa, 0x19), (0xe5, 0xc8), (0xed, 0xc8)] } else { &[(0xed, 0xc8)] };
            for (op, a) in pre {
                ev.push(XEv { op: *op, args: vec![*a], d: None, vel: None, sus: None, tempo: None });
            }
        }
        fn put(ev: &mut Vec<XEv>, c: &NCmd) -> Result<(), String> {
            let op = op_of(&c.name, &c.args).ok_or("unknown command")?;
            let args = if op >= 0xe0 { c.args.iter().map(|x| *x as u8).collect() } else { vec![] };
            ev.push(XEv { op, args, d: c.d.filter(|d| *d > 0), vel: c.v.filter(|v| *v > 0), sus: c.s.filter(|s| *s > 0), tempo: None });
            Ok(())
        }
        for c in tr {
            if c.name == "CallLoop" {
                let sub = s.tracks.get(c.args[0]).ok_or("bad loop")?;
                for _ in 0..c.args[1] {
                    for k in sub {
                        put(&mut ev, k)?;
                    }
                }
            } else {
                put(&mut ev, c)?;
            }
        }
        out.push(ev);
    }
    while out.len() < 8 {
        out.push(vec![]);
    }
    Ok(out)
}

pub fn compare(want: &[Vec<XEv>], loops: bool, got: &Slot) -> Result<(), String> {
    let silent = want.iter().all(|t| t.is_empty());
    match got {
        Slot::Silent if silent => return Ok(()),
        Slot::Silent => return Err("is silent".into()),
        Slot::Song { .. } if silent => return Err("plays something but should be silent".into()),
        Slot::Song { loops: l, .. } if *l != loops => return Err(format!("{} but should {}", if *l { "loops" } else { "ends" }, if loops { "loop" } else { "end" })),
        Slot::Song { tracks, .. } => {
            for ch in 0..8 {
                let (w, g) = (&want[ch], &tracks[ch]);
                let mut last = None;
                for i in 0..w.len().max(g.len()) {
                    match (w.get(i), g.get(i)) {
                        (Some(w), Some(g)) => {
                            let tempo_ok = match w.tempo {
                                // beats per minute are rounded up before they are adjusted
                                Some((t, factor)) => g.op == 0xe7 && (g.args[0] as f64 - t).abs() <= 0.5 + factor.max(1.0) + t * 0.001,
                                None => false,
                            };
                            if !tempo_ok && (w.op != g.op || (w.op >= 0xe0 && w.args != g.args)) {
                                return Err(format!("channel {} step {}: plays {:02x}{:02x?}, should play {:02x}{:02x?}", ch, i, g.op, g.args, w.op, w.args));
                            }
                            if w.op < 0xe0 {
                                last = w.d.or(last);
                                if let Some(d) = last {
                                    if d != g.d {
                                        return Err(format!("channel {} step {} ({:02x}): lasts {}, should last {}", ch, i, w.op, g.d, d));
                                    }
                                }
                                if (0x80..0xc8).contains(&w.op) {
                                    if g.vel.is_none() {
                                        return Err(format!("channel {} step {} ({:02x}): no velocity is ever set", ch, i, w.op));
                                    }
                                    if w.vel.is_some() && w.vel != g.vel || w.sus.is_some() && w.sus != g.sus {
                                        return Err(format!(
                                            "channel {} step {} ({:02x}): velocity/sustain {:?}/{:?}, should be {:?}/{:?}",
                                            ch, i, w.op, g.vel, g.sus, w.vel, w.sus
                                        ));
                                    }
                                }
                            }
                        }
                        (Some(w), None) => return Err(format!("channel {} stops after {} steps, {:02x} missing", ch, i, w.op)),
                        (None, Some(g)) => return Err(format!("channel {} plays {:02x} after its end (step {})", ch, g.op, i)),
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ dummy ROM
pub fn dummy_of(rom: &RomSpec, bytes: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; bytes.len()];
    for b in &rom.banks {
        for o in [0, 4, 8] {
            v[b.ptr + o] = bytes[b.ptr + o];
        }
        let mut hs: Vec<usize> = b.positions().iter().map(|p| p - 4).collect();
        hs.push(b.end() - 4);
        for h in hs {
            v[h..h + 4].copy_from_slice(&bytes[h..h + 4]);
        }
    }
    v
}

// ------------------------------------------------------------------ MIDI notes
/// A sounding note of the converted song: start, length and sustain in driver ticks (1/24 beat).
#[derive(Clone, Debug)]
pub struct Sounding {
    pub ch: usize,
    pub pitch: u8,
    pub start: u64,
    pub len: u64,
    pub sus: u8,
    pub vel: Option<u8>,
    /// instrument and channel volume in force when it starts
    pub inst: Option<u8>,
    pub vol: Option<u8>,
    /// reached by a pitch slide from the note before, not struck: delay and time of the slide
    pub glide: Option<(u8, u8)>,
    /// duration of the command before, if that is a note or a tie
    pub after: Option<u8>,
}
/// Timeline of every channel: notes with their ties, rests skipped.
pub fn soundings(tracks: &[Vec<PEv>]) -> Result<Vec<Sounding>, String> {
    let mut out = vec![];
    for (ch, t) in tracks.iter().enumerate() {
        let mut now = 0u64;
        let mut open: Option<Sounding> = None;
        let (mut inst, mut vol) = (None, None);
        // where a pitch slide of the sounding note leads; one of length 0 never starts
        let (mut slide, mut slid): (Option<u8>, Option<(u8, u8)>) = (None, None);
        let (mut last, mut prev): (Option<u8>, Option<u8>) = (None, None);
        for e in t {
            let to = if e.op < 0xe0 { slide.take() } else { None };
            if e.op != 0xf9 {
                last = prev;
                prev = if e.op <= 0xc8 { Some(e.d) } else { None };
            }
            match e.op {
                0x80..=0xc7 => {
                    if let Some(o) = open.take() {
                        out.push(o);
                    }
                    open = Some(Sounding { ch, pitch: e.op - 0x80 + 24, start: now, len: e.d as u64, sus: e.sus.unwrap_or(7), vel: e.vel, inst, vol, glide: None, after: last });
                    now += e.d as u64;
                }
                0xc8 => {
                    if let (Some(pitch), Some(o)) = (to, open.take_if(|_| to.is_some())) {
                        out.push(o);
                        open = Some(Sounding { ch, pitch, start: now, len: 0, sus: 7, vel: e.vel, inst, vol, glide: slid, after: last });
                    }
                    match open.as_mut() {
                        Some(o) => {
                            o.len += e.d as u64;
                            if let Some(s) = e.sus {
                                o.sus = s;
                            }
                        }
                        None => return Err(format!("channel {}: tie without a note at tick {}", ch, now)),
                    }
                    now += e.d as u64;
                }
                0xc9 => {
                    if let Some(o) = open.take() {
                        out.push(o);
                    }
                    now += e.d as u64;
                }
                0xe0 => inst = e.args.first().copied(),
                0xf9 => {
                    if !(0x80..=0xc7).contains(&e.args[2]) {
                        return Err(format!("channel {}: pitch slide to {:02x}", ch, e.args[2]));
                    }
                    slid = Some((e.args[0], e.args[1]));
                    slide = if e.args[1] > 0 { Some(e.args[2] - 0x80 + 24) } else { open.as_ref().map(|o| o.pitch) };
                }
                0xed => vol = e.args.first().copied(),
                0xca..=0xdf => return Err(format!("channel {}: unexpected drum command {:02x}", ch, e.op)),
                _ => {}
            }
        }
        if let Some(o) = open.take() {
            out.push(o);
        }
    }
    out.sort_by_key(|s| (s.start, s.ch));
    Ok(out)
}

pub fn xev_to_pev(x: &[Vec<XEv>]) -> Vec<Vec<PEv>> {
    x.iter()
        .map(|t| {
            let mut d = 0;
            let (mut v, mut s) = (None, None);
            t.iter()
                .map(|e| {
                    d = e.d.unwrap_or(d);
                    v = e.vel.or(v);
                    s = e.sus.or(s);
                    PEv { op: e.op, args: e.args.clone(), d, sus: s, vel: v }
                })
                .collect()
        })
        .collect()
}

/// Driver instrument of each General MIDI program.
pub const INSTRUMENTS: [u8; 128] = [
    24, 24, 24, 24, 24, 24, 24, 24, 14, 14, 14, 14, 14, 14, 14, 14,
    21, 21, 21, 21, 21, 9, 13, 23, 24, 24, 24, 24, 24, 24, 24, 24,
    24, 24, 24, 24, 24, 24, 24, 24, 9, 9, 9, 9, 9, 9, 15, 2,
    9, 9, 9, 9, 21, 21, 21, 9, 17, 11, 18, 17, 18, 18, 18, 18,
    17, 17, 11, 11, 18, 18, 18, 22, 22, 22, 13, 13, 13, 13, 8, 13,
    3, 4, 13, 6, 6, 6, 7, 7, 5, 5, 5, 21, 5, 5, 5, 5,
    1, 1, 1, 1, 1, 1, 1, 1, 24, 24, 24, 24, 24, 18, 9, 18,
    14, 14, 2, 19, 2, 2, 2, 12, 23, 23, 16, 8, 14, 23, 1, 23,
];

/// the last value of a controller of the note's channel when the note starts
fn control(m: &MidiSpec, n: &Note, c: u8) -> u8 {
    let mut v: Vec<(u32, usize, usize, u8)> =
        m.extras.iter().enumerate().filter_map(|(i, (tr, t, e))| if let Ev::Cc(ch, k, v) = e { Some((*t, *tr, i, *v)).filter(|x| *ch == n.ch && *k == c && x.0 <= n.t) } else { None }).collect();
    v.sort();
    v.last().map_or(0, |x| x.3)
}
/// A note is reached by a pitch slide only with portamento on, and then whenever it directly
/// follows a note on its voice, in the portamento time, ending at its start.
fn check_glide(m: &MidiSpec, n: &Note, g: &Sounding, got: &[Sounding]) -> Result<(), String> {
    let on = control(m, n, 65) >= 64;
    let time = (control(m, n, 5) as u64) << 8 | control(m, n, 37) as u64;
    let ticks = (time * 24 + m.tpb as u64 - 1) / m.tpb as u64;
    match (g.glide, g.after) {
        (Some(_), _) if !on => Err(format!("starts with a pitch slide on voice {} although portamento is off on its channel", g.ch)),
        (Some((delay, t)), Some(d)) if ticks <= 0x7f && (t as u64 != ticks || delay != d - t.min(d)) => {
            Err(format!("starts on voice {} with a slide of {} after {} ticks, but the portamento time is {} and the command before takes {}", g.ch, t, delay, ticks, d))
        }
        (None, Some(_)) if on && time > 0 => {
            // directly after a note of the file that lasts until this one starts
            let unit = m.tpb as f64 / 24.0;
            let legato = got.iter().any(|p| {
                p.ch == g.ch && p.start + p.len == g.start && p.sus == 7 && m.notes.iter().any(|k| k.t + k.len == n.t && k.p == p.pitch && k.ch != 9 && ((k.t as f64 / unit) - p.start as f64).abs() <= 1.0 + 1e-6)
            });
            if legato {
                return Err(format!("is struck on voice {} although portamento is on and another note leads to it", g.ch));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// The instrument a note of the file must have, and the channel volumes it may have.
pub fn timbres(m: &MidiSpec) -> Vec<(Option<u8>, Option<Vec<u8>>)> {
    let mut progs: Vec<(u32, usize, usize, u8, u8)> = vec![];
    let mut vols: Vec<(u32, usize, usize, u8, u8)> = vec![];
    for (i, (tr, t, e)) in m.extras.iter().enumerate() {
        match e {
            Ev::Prog(c, p) => progs.push((*t, *tr, i, *c, *p)),
            Ev::Cc(c, 7, v) => vols.push((*t, *tr, i, *c, *v)),
            _ => {}
        }
    }
    progs.sort();
    vols.sort();
    m.notes
        .iter()
        .map(|n| {
            let inst = if n.ch == 9 {
                Some(if n.p == 38 || n.p == 40 { 19 } else { 12 })
            } else {
                progs.iter().filter(|p| p.3 == n.ch && p.0 <= n.t).last().map(|p| INSTRUMENTS[p.4 as usize])
            };
            let at = vols.iter().filter(|p| p.3 == n.ch && p.0 <= n.t).last();
            let vol = at.map(|a| std::iter::once(a).chain(vols.iter().filter(|p| p.3 == n.ch && p.0 > n.t && p.0 <= n.t + n.len)).map(|p| p.4 * 2).collect());
            (inst, vol)
        })
        .collect()
}

/// Do tempo changes take effect where the file has them (or from the start of the note that
/// sounds then on the voice that carries them: the driver cannot change tempo inside a command)?
pub fn check_tempo(m: &MidiSpec, tracks: &[Vec<PEv>], got: &[Sounding], factor: f64) -> Result<usize, String> {
    let unit = m.tpb as f64 / 24.0;
    let tiny = m.notes.iter().filter(|n| (n.len as f64) < unit).count() as f64;
    let tol = 2.0 + tiny;
    let (mut have, mut end, mut voice) = (vec![], 0u64, 0);
    for (ch, t) in tracks.iter().enumerate() {
        let mut now = 0u64;
        for e in t {
            if e.op < 0xe0 {
                now += e.d as u64;
            } else if e.op == 0xe7 {
                have.push((now as f64, e.args[0]));
                voice = ch;
            }
        }
        end = end.max(now);
    }
    have.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    // time, earliest time, value
    let want: Vec<(f64, f64, f64)> = m
        .tempo_map()
        .iter()
        .map(|(t, u)| {
            let q = *t as f64 / unit;
            let lo = got.iter().filter(|g| g.ch == voice && g.start as f64 <= q + tol && (g.start + g.len) as f64 >= q - tol).map(|g| g.start as f64).fold(q.min(end as f64), f64::min);
            (q, lo, (6e7 / *u as f64 * factor).min(255.0))
        })
        .collect();
    let mut at: Vec<f64> = vec![];
    at.extend(want.iter().flat_map(|w| [w.1 - tol - 0.5, w.0 + tol + 0.5]));
    at.extend(have.iter().flat_map(|h| [h.0 - 0.5, h.0]));
    let mut n = 0;
    for x in at {
        if x < 0.0 || x >= end as f64 || want.iter().any(|w| w.1 - tol <= x && x <= w.0 + tol) {
            continue;
        }
        n += 1;
        let w = want.iter().rev().find(|w| w.0 <= x).map(|w| w.2);
        let h = have.iter().rev().find(|h| h.0 <= x).map(|h| h.1);
        let same = match (w, h) {
            (None, None) => true,
            (_, Some(0)) => return Err(format!("at {:.1} (in 1/24 beats) the tempo is 0, which stops the song, and should be {:?}", x, w)),
            (Some(w), Some(h)) => (h as f64 - w).abs() <= 1.5 + w * 0.001,
            _ => false,
        };
        if !same {
            return Err(format!("at {:.1} (in 1/24 beats) the tempo is {:?} but should be {:?}", x, h, w));
        }
    }
    Ok(n)
}

/// How much later than its true time a voice may be, for each note too short for the driver needs a tick.
fn slack(m: &MidiSpec) -> u64 {
    1 + m.notes.iter().filter(|n| n.len as u64 * 24 < m.tpb as u64).count() as u64
}

/// Ends of the voices that play anything.
fn ends(tracks: &[Vec<PEv>]) -> Vec<(usize, u64)> {
    tracks.iter().enumerate().filter(|t| !t.1.is_empty()).map(|(i, t)| (i, t.iter().filter(|e| e.op < 0xe0).map(|e| e.d as u64).sum())).collect()
}

/// The driver ends a part, and so repeats or ends the song, as soon as any voice ends: all must end together,
/// no sooner than the last note and no later than the file.
pub fn check_ends(m: &MidiSpec, tracks: &[Vec<PEv>]) -> Result<(), String> {
    let e = ends(tracks);
    let (lo, hi) = match (e.iter().min_by_key(|x| x.1), e.iter().max_by_key(|x| x.1)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    if lo.1 + slack(m) < hi.1 {
        return Err(format!("voice {} lasts {} ticks, but voice {} lasts {}", lo.0, lo.1, hi.0, hi.1));
    }
    let at = |t: u32| t as u64 * 24 / m.tpb as u64;
    let last = m.notes.iter().map(|n| at(n.t + n.len)).max().unwrap_or(0);
    if lo.1 + 1 < last {
        return Err(format!("the song ends at tick {}, before its last note ends at {}", lo.1, last));
    }
    let file = m.notes.iter().map(|n| n.t + n.len).chain(m.extras.iter().map(|x| x.1)).map(at).max().unwrap_or(0);
    let file = file + at(m.tail) + 1;
    if hi.1 > file + slack(m) {
        return Err(format!("the song ends at tick {}, but the file at {}", hi.1, file));
    }
    Ok(())
}

/// No note is cut off by the end of another voice.
pub fn uncut(m: &MidiSpec, tracks: &[Vec<PEv>], got: &[Sounding]) -> Result<(), String> {
    if let Some((v, cut)) = ends(tracks).into_iter().min_by_key(|x| x.1) {
        for g in got {
            if g.start + g.len * g.sus as u64 / 8 > cut + slack(m) {
                return Err(format!("the note {} of voice {} from tick {} for {} is cut off: voice {} ends at {}, and the song with it", g.pitch, g.ch, g.start, g.len, v, cut));
            }
        }
    }
    Ok(())
}

/// Does the song play exactly the notes of the MIDI file?  With `timbre`: each with the
/// instrument and volume of its channel.
pub fn match_notes(m: &MidiSpec, got: &[Sounding], timbre: bool) -> Result<(), String> {
    let tim = if timbre { timbres(m) } else { vec![(None, None); m.notes.len()] };
    let unit = m.tpb as f64 / 24.0;
    let mut want: Vec<(f64, f64, u8, &Note, &(Option<u8>, Option<Vec<u8>>))> = m
        .notes
        .iter()
        .zip(&tim)
        .map(|(n, x)| {
            let p = if n.ch == 9 && (n.p == 38 || n.p == 40) { 68 } else { n.p };
            (n.t as f64 / unit, (n.t + n.len) as f64 / unit, p, n, x)
        })
        .collect();
    want.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    // notes too short for the driver each need at least one tick and may push what follows on their voice
    let tiny = want.iter().filter(|w| w.1 - w.0 < 1.0).count() as f64;
    let tol = 1.0 + 1e-6 + if tiny > 0.0 { tiny } else { 0.0 };
    let fold_ok = |want: u8, got: u8| {
        if (24..=95).contains(&want) {
            want == got
        } else {
            want % 12 == got % 12
        }
    };
    // candidates of every wanted note, then a maximum matching (equal notes may overlap)
    let mut cand: Vec<Vec<usize>> = vec![];
    let starts: Vec<u64> = got.iter().map(|g| g.start).collect();
    for w in &want {
        let from = starts.partition_point(|s| (*s as f64) < w.0 - tol);
        let mut c: Vec<(u64, usize)> = vec![];
        let mut near: Option<String> = None;
        for j in from..got.len() {
            let g = &got[j];
            if g.start as f64 > w.0 + tol {
                break;
            }
            if !fold_ok(w.2, g.pitch) {
                continue;
            }
            // sounding part: d ticks of the g.len the command takes, sustain in eighths rounded down
            let ok = (1..=g.len).rev().take_while(|d| *d as f64 + g.start as f64 >= w.1 - tol).any(|d| {
                // a gap of one tick before the voice's next note may be filled
                (g.start as f64 + d as f64 - w.1) >= -tol && (g.start as f64 + d as f64 - w.1) <= tol + 1.0 && ((d * 8 / g.len).clamp(1, 7) as u8 == g.sus || (g.sus == 7 && d == g.len))
            });
            let loud = (w.3.v / 8).max(1);
            if ok && g.vel != Some(loud) {
                near = Some(format!("has velocity {} but plays with loudness {:?} of 15", w.3.v, g.vel));
                continue;
            }
            if ok && w.4 .0.is_some() && w.4 .0 != g.inst {
                near = Some(format!("should have instrument {} but plays at tick {} on voice {} with {:?}", w.4 .0.unwrap(), g.start, g.ch, g.inst));
                continue;
            }
            if ok && w.4 .1.as_ref().map_or(false, |v| !g.vol.map_or(false, |x| v.contains(&x))) {
                near = Some(format!("should have channel volume {:?} but plays at tick {} on voice {} with {:?}", w.4 .1.as_ref().unwrap(), g.start, g.ch, g.vol));
                continue;
            }
            if ok && timbre {
                if let Err(e) = check_glide(m, w.3, g, got) {
                    near = Some(e);
                    continue;
                }
            }
            if !ok {
                near = Some(format!("plays from {} for {} (sustain {}/8)", g.start, g.len, g.sus));
                continue;
            }
            c.push((((g.start as f64 - w.0).abs() * 1000.0) as u64, j));
        }
        if c.is_empty() {
            return Err(format!(
                "note {} of channel {} from {:.2} to {:.2} (in 1/24 beats) {}",
                w.3.p,
                w.3.ch,
                w.0,
                w.1,
                near.unwrap_or_else(|| "is not played".into())
            ));
        }
        c.sort();
        cand.push(c.into_iter().map(|x| x.1).collect());
    }
    let mut owner: Vec<Option<usize>> = vec![None; got.len()];
    fn augment(i: usize, cand: &[Vec<usize>], owner: &mut [Option<usize>], seen: &mut [usize], mark: usize) -> bool {
        for &j in &cand[i] {
            if seen[j] == mark {
                continue;
            }
            seen[j] = mark;
            if owner[j].is_none() || augment(owner[j].unwrap(), cand, owner, seen, mark) {
                owner[j] = Some(i);
                return true;
            }
        }
        false
    }
    let mut seen = vec![usize::MAX; got.len()];
    for (i, w) in want.iter().enumerate() {
        if !augment(i, &cand, &mut owner, &mut seen, i) {
            return Err(format!("note {} of channel {} from {:.2} to {:.2} (in 1/24 beats) is not played", w.3.p, w.3.ch, w.0, w.1));
        }
    }
    if let Some(j) = owner.iter().position(|u| u.is_none()) {
        let g = &got[j];
        return Err(format!("voice {} plays pitch {} at {} which is not in the file", g.ch, g.pitch, g.start));
    }
    Ok(())
}

/// One event of a MIDI file: time since the one before, name (none for meta events), numbers.
pub type MidiEv = (u64, Option<&'static str>, Vec<i64>);

/// The events of all tracks of a well-formed MIDI file, one after the other.
pub fn midi_events(b: &[u8]) -> Vec<MidiEv> {
    let mut out = vec![];
    let be = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    let mut p = 14;
    while p + 8 <= b.len() && &b[p..p + 4] == b"MTrk" {
        let end = p + 8 + be(p + 4);
        p += 8;
        let mut run = 0u8;
        let vlq = |p: &mut usize| {
            let mut x = 0u64;
            loop {
                let c = b[*p];
                *p += 1;
                x = x << 7 | (c & 0x7f) as u64;
                if c < 0x80 {
                    return x;
                }
            }
        };
        while p < end {
            let dt = vlq(&mut p);
            if b[p] >= 0x80 {
                run = b[p];
                p += 1;
            }
            let (name, n) = match run >> 4 {
                0x8 => (Some("NoteOff"), 2),
                0x9 => (Some("NoteOn"), 2),
                0xa => (Some("PolyphonicKeyPressure"), 2),
                0xb => (Some("ControlChange"), 2),
                0xc => (Some("ProgramChange"), 1),
                0xd => (Some("ChannelPressure"), 1),
                0xe => (Some("PitchBendChange"), 2),
                _ => {
                    let tempo = run == 0xff && b[p] == 0x51;
                    p += (run == 0xff) as usize;
                    let n = vlq(&mut p) as usize;
                    out.push((dt, if tempo { Some("SetTempo") } else { None }, b[p..p + n].iter().map(|x| *x as i64).collect()));
                    p += n;
                    continue;
                }
            };
            let mut v = vec![(run & 15) as i64];
            if run >> 4 != 0xe {
                v.extend(b[p..p + n].iter().map(|x| *x as i64));
            }
            p += n;
            out.push((dt, name, v));
        }
        p = end;
    }
    out
}

/// Does a dump begin with exactly these events?
pub fn check_dump(dump: &str, want: &[MidiEv]) -> Result<(), String> {
    let mut parts = dump.split("delta_time:").skip(1);
    for (i, w) in want.iter().enumerate() {
        let part = parts.next().ok_or_else(|| format!("shows {} events instead of {}", i, want.len()))?;
        let (dt, rest) = part.split_once(',').unwrap_or((part, ""));
        let rest = rest.trim_start().strip_prefix("event:").unwrap_or(rest).trim_start();
        let n = rest.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(rest.len());
        let (name, rest) = rest.split_at(n);
        let mut got = vec![];
        let mut tok = String::new();
        for c in rest.chars().chain(" ".chars()) {
            if c.is_alphanumeric() || c == '-' || c == '_' {
                tok.push(c);
            } else {
                if let Ok(x) = tok.parse::<i64>() {
                    got.push(x);
                }
                tok.clear();
            }
        }
        if w.1.is_none() && got.len() == w.2.len() + 1 {
            // an unknown type
            got.remove(0);
        }
        if w.1 == Some("PitchBendChange") {
            got.truncate(1);
        }
        let named = w.1.map_or(true, |x| x == name);
        if dt.trim().parse() != Ok(w.0) || !named || got != w.2 {
            let few = |v: &[i64]| format!("{:?}", &v[..v.len().min(8)]);
            return Err(format!("shows event {} as {} after {} with {}, but the file has {} after {} with {}", i, name, dt.trim(), few(&got), w.1.unwrap_or("a meta or exclusive event"), w.0, few(&w.2)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- what is certainly no input
/// Why these bytes are no manifest, if they certainly are none.
pub fn manifest_bad(b: &[u8]) -> Option<String> {
    let v: serde_json::Value = match serde_json::from_slice(b) {
        Ok(v) => v,
        Err(_) => return Some("is not JSON".into()),
    };
    if !v.is_object() {
        return Some("is no JSON object".into());
    }
    let names: [(&str, &[&str]); 3] = [("overworld", &OVERWORLD), ("indoor", &INDOOR), ("ending", &ENDING)];
    for (bank, songs) in names.iter() {
        if !v[*bank].is_object() {
            return Some(format!("has no object {:?}", bank));
        }
        for s in songs.iter() {
            let e = &v[*bank][*s];
            if !e.is_object() {
                return Some(format!("has no object {:?} in {:?}", s, bank));
            }
            if !e["input"].is_string() {
                return Some(format!("has no input for {:?}", s));
            }
            if !(e["tempoAdjust"].is_null() || e["tempoAdjust"].is_number()) {
                return Some(format!("has no number for the tempo of {:?}", s));
            }
            if !(e["loop"].is_null() || e["loop"].is_boolean()) {
                return Some(format!("does not say true or false for the loop of {:?}", s));
            }
        }
    }
    None
}

/// Why these bytes are no song, if they certainly are none.
pub fn song_bad(b: &[u8]) -> Option<String> {
    let v: serde_json::Value = match serde_json::from_slice(b) {
        Ok(v) => v,
        Err(_) => return Some("is not JSON".into()),
    };
    if v.is_array() {
        return None; // a list of the fields' values may do
    }
    let byte = |x: &serde_json::Value| x.as_u64().map_or(false, |x| x < 256);
    let (parts, tracks) = match (v["parts"].as_array(), v["tracks"].as_array()) {
        (Some(p), Some(t)) => (p, t),
        _ => return Some("has no list of parts or no list of tracks".into()),
    };
    if parts.is_empty() {
        return Some("has no part".into());
    }
    for p in parts {
        if p.is_array() {
            return None;
        }
        match p["tracks"].as_array() {
            None => return Some("has a part without tracks".into()),
            Some(l) => {
                if l.iter().any(|x| x.as_u64().is_none()) {
                    return Some("has a track number that is none".into());
                }
            }
        }
    }
    let first = parts[0]["tracks"].as_array().unwrap();
    if first.len() > 8 {
        return Some("has more than eight tracks at once".into());
    }
    if let Some(x) = first.iter().filter_map(|x| x.as_u64()).find(|x| *x >= tracks.len() as u64) {
        return Some(format!("plays track {} of {}", x, tracks.len()));
    }
    let (mut called, mut calling) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
    for (i, t) in tracks.iter().enumerate() {
        if t.is_array() {
            return None;
        }
        let cs = match t["commands"].as_array() {
            None => return Some("has a track without commands".into()),
            Some(c) => c,
        };
        let mut timed = false;
        for c in cs {
            if c.is_array() {
                return None;
            }
            for k in ["duration", "velocity", "sustain"] {
                if !(c[k].is_null() || byte(&c[k])) {
                    return Some(format!("has a command with a {} that is no byte", k));
                }
                if c[k].as_u64().unwrap_or(0) > (if k == "duration" { 127 } else if k == "velocity" { 15 } else { 7 }) {
                    return Some(format!("has a {} of {}", k, c[k]));
                }
            }
            let arity = |n: &str| match n {
                "Note" => Some(1),
                "Rest" | "Tie" => Some(0),
                _ => CMDS.iter().find(|x| x.0 == n).map(|x| x.1),
            };
            match &c["command"] {
                serde_json::Value::String(s) => {
                    if arity(s) != Some(0) {
                        return Some(format!("has a command {:?}", s));
                    }
                    timed |= c["duration"].as_u64().unwrap_or(0) > 0;
                }
                serde_json::Value::Object(m) if m.len() == 1 => {
                    let (n, a) = m.iter().next().unwrap();
                    let bad = match arity(n) {
                        None => true,
                        Some(0) => return None,
                        Some(1) => !byte(a) && !a.is_array(),
                        Some(k) => match a.as_array() {
                            None => true,
                            Some(l) if l.len() != k => true,
                            Some(l) if n == "CallLoop" => l[0].as_u64().map_or(true, |x| x >= tracks.len() as u64) || !byte(&l[1]),
                            Some(l) => l.iter().any(|x| !byte(x)),
                        },
                    };
                    if bad {
                        return Some(format!("has a command {:?} with {}", n, a));
                    }
                    if n == "Note" && a.as_u64().map_or(false, |x| !(0x80..0xe0).contains(&x)) {
                        return Some(format!("has a note {}", a));
                    }
                    timed |= c["duration"].as_u64().unwrap_or(0) > 0;
                    if n == "Note" && !timed {
                        return Some("has a note that lasts nobody knows how long".into());
                    }
                    if n == "CallLoop" {
                        timed = false;
                        if a[1].as_u64() == Some(0) {
                            return Some("calls a loop no times".into());
                        }
                        called.insert(a[0].as_u64().unwrap_or(0) as usize);
                        calling.insert(i);
                    }
                }
                x => return Some(format!("has a command {}", x)),
            }
        }
    }
    called.intersection(&calling).next().map(|x| format!("has a loop in its loop {}", x))
}

/// Why these bytes are no MIDI file, if they certainly are none.
pub fn midi_bad(b: &[u8]) -> Option<String> {
    if b.len() < 14 {
        return Some("is shorter than a MIDI header".into());
    }
    if &b[..4] != b"MThd" {
        return Some("does not begin like a MIDI file".into());
    }
    let be = |p: usize, n: usize| b[p..p + n].iter().fold(0usize, |a, x| a << 8 | *x as usize);
    if be(4, 4) != 6 {
        return None;
    }
    if b[12] & 0x80 != 0 {
        return Some("counts time in frames, not beats".into());
    }
    let (mut p, mut n) = (14, 0);
    while p + 8 <= b.len() && n < be(10, 2) {
        if &b[p..p + 4] != b"MTrk" {
            return None;
        }
        let len = be(p + 4, 4);
        if p + 8 + len > b.len() {
            return Some(format!("ends within track {}", n));
        }
        p += 8 + len;
        n += 1;
    }
    if n < be(10, 2) {
        return Some(format!("has {} of {} tracks", n, be(10, 2)));
    }
    None
}

/// Why these bytes are no ROM to build into, if they certainly are none.
pub fn rom_bad(b: &[u8], addrs: &[usize]) -> Option<String> {
    let pc = |a: usize| (a & 0x7fff) + ((a >> 1) & 0x7f8000);
    for (i, &a) in addrs.iter().enumerate() {
        let at = |k: usize| b.get(pc(a + k)).map(|x| *x as usize);
        let mut p = match (at(0), at(4), at(8)) {
            (Some(l), Some(m), Some(h)) => pc(h << 16 | m << 8 | l),
            _ => return Some(format!("ends before the address of bank {}", i)),
        };
        let mut found = false;
        loop {
            if p + 4 > b.len() {
                return Some(format!("ends within bank {}", i));
            }
            let (len, aram) = (b[p] as usize | (b[p + 1] as usize) << 8, b[p + 2] as usize | (b[p + 3] as usize) << 8);
            if len == 0 {
                break;
            }
            if aram == 0xd000 {
                if found {
                    return None;
                }
                found = true;
                if len < [0x36, 0x46, 0x46][i] {
                    return Some(format!("has no room for the song table of bank {}", i));
                }
            }
            p += 4 + len;
        }
        if !found {
            return Some(format!("has no song chunk in bank {}", i));
        }
    }
    None
}
