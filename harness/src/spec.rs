//! Inputs as data: ROM images, MIDI files, JSON songs, manifests - generators and encoders.
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub const OVERWORLD: [&str; 15] = [
    "Title", "World Map", "Beginning", "Rabbit", "Forest", "Intro", "Town", "Warp", "Dark World", "Master Sword",
    "File Select", "Soldier", "Mountain", "Shop", "Fanfare",
];
pub const INDOOR: [&str; 16] = [
    "Castle", "Palace", "Cave", "Clear", "Church", "Boss", "Dungeon", "Psychic", "Secret Way", "Rescue", "Crystal",
    "Fountain", "Pyramid", "Kill Agahnim", "Ganon Room", "Last Boss",
];
pub const ENDING: [&str; 3] = ["Triforce", "Ending", "Staff"];
pub const BANK_SONGS: [usize; 3] = [15, 16, 3];
pub const BANK_FIRST: [usize; 3] = [0, 15, 31];
pub const BANK_SONG0: [usize; 3] = [0xD036, 0xD046, 0xD046];
pub const DEFAULT_ADDRS: [usize; 3] = [0x914, 0x926, 0x932];

// ---------------------------------------------------------------- ROM
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ChunkSpec {
    pub len: usize,
    pub aram: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BankSpec {
    pub ptr: usize,   // position (pc) of the low pointer byte; +4 high, +8 bank
    pub start: usize, // pc of the first chunk header
    pub chunks: Vec<ChunkSpec>,
    pub base: usize, // index of the chunk loaded at D000; the overflow chunk follows
    pub term_aram: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RomSpec {
    pub size: usize,
    pub seed: u64,       // content outside chunk data and headers
    pub data: u64,       // content of the chunk data; see `fill`
    pub invert: bool,    // complement of chunk data
    pub banks: Vec<BankSpec>,
    /// where the ROM also has the chunk headers of a bank (bank, position), as left by a tool that moved it
    #[serde(default)]
    pub decoys: Vec<(usize, usize)>,
}
impl BankSpec {
    /// pc positions (data start) of every chunk
    pub fn positions(&self) -> Vec<usize> {
        let mut p = self.start;
        let mut v = vec![];
        for c in &self.chunks {
            v.push(p + 4);
            p += 4 + c.len;
        }
        v
    }
    pub fn end(&self) -> usize {
        self.start + self.chunks.iter().map(|c| 4 + c.len).sum::<usize>() + 4
    }
}
impl RomSpec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.size];
        fill(&mut v, self.seed);
        for &(i, to) in &self.decoys {
            let b = &self.banks[i];
            let mut put = |p: usize, len: usize, aram: usize| {
                for (k, x) in [len & 0xff, len >> 8, aram & 0xff, aram >> 8].iter().enumerate() {
                    if let Some(y) = v.get_mut(p + k) {
                        *y = *x as u8;
                    }
                }
            };
            for (c, p) in b.chunks.iter().zip(b.positions()) {
                put(p - 4 - b.start + to, c.len, c.aram);
            }
            put(b.end() - 4 - b.start + to, 0, b.term_aram);
        }
        for b in &self.banks {
            let bank = (b.start >> 15) as u8;
            v[b.ptr] = (b.start & 0xff) as u8;
            v[b.ptr + 4] = 0x80 | ((b.start >> 8) & 0x7f) as u8;
            v[b.ptr + 8] = bank;
            for (k, (c, p)) in b.chunks.iter().zip(b.positions()).enumerate() {
                v[p - 4] = (c.len & 0xff) as u8;
                v[p - 3] = (c.len >> 8) as u8;
                v[p - 2] = (c.aram & 0xff) as u8;
                v[p - 1] = (c.aram >> 8) as u8;
                fill(&mut v[p..p + c.len], if self.data == 0 { 0 } else { mix(self.data ^ (b.start as u64) << 8 ^ k as u64) });
                if self.invert {
                    for x in &mut v[p..p + c.len] {
                        *x = !*x;
                    }
                }
            }
            let t = b.end() - 4;
            v[t] = 0;
            v[t + 1] = 0;
            v[t + 2] = (b.term_aram & 0xff) as u8;
            v[t + 3] = (b.term_aram >> 8) as u8;
        }
        v
    }
    /// ranges of the data of the two song chunks of each bank
    pub fn writable(&self) -> Vec<(usize, usize)> {
        let mut r = vec![];
        for b in &self.banks {
            let p = b.positions();
            for k in [b.base, b.base + 1] {
                if k < b.chunks.len() {
                    r.push((p[k], p[k] + b.chunks[k].len));
                }
            }
        }
        r
    }
    /// the SNES addresses to pass to --bank_addrs
    pub fn addrs(&self) -> Vec<usize> {
        // with or without the bit that tells ROM from RAM
        self.banks.iter().map(|b| ((b.ptr >> 15) << 16) | (b.ptr & 0x7fff) | if b.start % 3 == 0 { 0x8000 } else { 0 }).collect()
    }
    pub fn default_ptrs(&self) -> bool {
        self.banks.iter().zip(DEFAULT_ADDRS.iter()).all(|(b, d)| b.ptr == *d)
    }
}
/// seed 0: zeros, 1: ones, else pseudo-random
pub fn fill(v: &mut [u8], seed: u64) {
    match seed {
        0 => v.iter_mut().for_each(|x| *x = 0),
        1 => v.iter_mut().for_each(|x| *x = 0xff),
        s => {
            let mut r = Rng::new(s);
            if s % 6 == 5 {
                // long runs of one value, as in real images
                let mut i = 0;
                while i < v.len() {
                    let n = (1 + r.log(1, 3000) as usize).min(v.len() - i);
                    let x = *r.pick(&[0u8, 0, 0, 0xff, 0xd0, 0x80, 1]);
                    if r.chance(1, 3) {
                        v[i..i + n].iter_mut().for_each(|b| *b = r.next() as u8);
                    } else {
                        v[i..i + n].iter_mut().for_each(|b| *b = x);
                    }
                    i += n;
                }
                return;
            }
            for c in v.chunks_mut(8) {
                let w = r.next().to_le_bytes();
                c.copy_from_slice(&w[..c.len()]);
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct RomKnobs {
    pub custom_ptrs: bool,
    pub base_len: [usize; 3],
    pub over_len: [usize; 3],
}

pub fn gen_rom(r: &mut Rng, k: &RomKnobs) -> RomSpec {
    let mut banks = vec![];
    let mut pos = 0x1000 + r.usize(0x800);
    let mut order = [0usize, 1, 2];
    for i in (1..3).rev() {
        order.swap(i, r.usize(i + 1));
    }
    let mut tmp: Vec<Option<BankSpec>> = vec![None, None, None];
    // a ROM of real size: banks megabytes apart, sample chunks of up to 64 KiB
    let far = if r.chance(1, 18) { *r.pick(&[100_000usize, 400_000, 1_100_000, 2_500_000]) } else { 0 };
    for &i in &order {
        let mut chunks = vec![];
        let mut aram = 0x0800;
        if far > 0 && r.chance(1, 2) {
            pos += r.usize(far.min(0x700000usize.saturating_sub(pos).max(1)));
        }
        for _ in 0..if r.chance(1, 20) { 3 + r.usize(30) } else { r.usize(3) } {
            let len = if far > 0 && r.chance(1, 4) { 1 + r.usize(0xffff) } else { 1 + r.log(1, 600) as usize };
            chunks.push(ChunkSpec { len, aram });
            aram += len + r.usize(64);
        }
        let base = chunks.len();
        chunks.push(ChunkSpec { len: k.base_len[i], aram: 0xD000 });
        let ov = k.over_len[i];
        // anywhere it neither wraps nor overlaps D000..
        let oaram = if r.chance(1, 8) {
            // behind the base chunk when it fits there
            let lo = 0xD000 + k.base_len[i];
            if lo + ov < 0xfff0 { lo } else { 0x2b00 }
        } else {
            let hi = 0xD000usize.saturating_sub(ov).max(0x2001);
            0x2000 + r.usize(hi - 0x2000)
        };
        chunks.push(ChunkSpec { len: ov, aram: oaram });
        for _ in 0..r.usize(3) {
            let len = 1 + r.log(1, 400) as usize;
            chunks.push(ChunkSpec { len, aram: 0x0800 + r.usize(0x400) });
        }
        let b = BankSpec {
            ptr: DEFAULT_ADDRS[i],
            start: pos,
            chunks,
            base,
            term_aram: *r.pick(&[0x0800, 0, 0x1234]),
        };
        pos = b.end() + *r.pick(&[0usize, 1, 7, 64, 700]);
        if r.chance(1, 3) {
            pos += r.usize(2000);
        }
        tmp[i] = Some(b);
    }
    for b in tmp {
        banks.push(b.unwrap());
    }
    let behind = k.custom_ptrs && r.chance(1, 4);
    let mut size = pos + r.usize(600) + if behind { 0x200 } else { 0 };
    if far > 0 && r.chance(1, 2) {
        size = (size + 0x7ffff) & !0x7ffff;
    } else if r.chance(1, 2) {
        size = (size + 511) / 512 * 512;
    }
    if k.custom_ptrs {
        // three disjoint places between 0x100 and 0xf00, or behind the banks; none leaves its 32 KiB
        let mut at = vec![];
        while at.len() < 3 {
            let p = if behind { pos + r.usize(size - pos - 9) } else { 0x100 + r.usize(0xd00) };
            if p & 0x7fff > 0x7ff7 {
                continue;
            }
            if at.iter().all(|&q: &usize| p + 8 < q || q + 8 < p) {
                at.push(p);
            }
        }
        for (b, p) in banks.iter_mut().zip(at) {
            b.ptr = p;
        }
    }
    let mut decoys = vec![];
    if r.chance(if far > 0 { 4 } else { 1 }, 6) {
        // at the same place in another power of two, or beside the ROM bank it is in
        let shift = if far >= 1_000_000 && r.chance(2, 3) { *r.pick(&[0x100000usize, 0x200000, 0x200000, 0x200000, 0x400000]) } else { *r.pick(&[0x8000usize, 0x8000, 0x10000, 0x4000, 0x40000, 0x80000, 0x100000, 0x200000]) };
        let all_up = r.chance(1, 3);
        for i in 0..3 {
            let b = &banks[i];
            let to = if all_up || b.start < shift { b.start + shift } else { b.start.wrapping_sub(shift) };
            if to < size {
                decoys.push((i, to));
            }
        }
    }
    RomSpec { decoys, size, seed: 2 + r.next() / 2, data: if r.chance(1, 6) { r.below(2) } else { 2 + r.next() / 2 }, invert: false, banks }
}

// ---------------------------------------------------------------- JSON songs
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NCmd {
    pub d: Option<u8>,
    pub v: Option<u8>,
    pub s: Option<u8>,
    pub name: String,
    pub args: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SongSpec {
    pub part: Vec<usize>,
    pub tracks: Vec<Vec<NCmd>>,
    pub pretty: bool,
}
pub const CMDS: [(&str, usize, u8); 28] = [
    ("SetInstrument", 1, 0xe0), ("Pan", 1, 0xe1), ("PanFade", 2, 0xe2), ("Vibrato", 3, 0xe3), ("VibratoOff", 0, 0xe4),
    ("MasterVolume", 1, 0xe5), ("MasterVolumeFade", 2, 0xe6), ("Tempo", 1, 0xe7), ("TempoFade", 2, 0xe8),
    ("GlobalTranspose", 1, 0xe9), ("ChannelTranspose", 1, 0xea), ("Tremolo", 3, 0xeb), ("TremoloOff", 0, 0xec),
    ("ChannelVolume", 1, 0xed), ("ChannelVolumeFade", 2, 0xee), ("CallLoop", 2, 0xef), ("VibratoFade", 1, 0xf0),
    ("PitchEnvelopeTo", 3, 0xf1), ("PitchEnvelopeFrom", 3, 0xf2), ("PitchEnvelopeOff", 0, 0xf3), ("Tuning", 1, 0xf4),
    ("EchoVolume", 3, 0xf5), ("EchoOff", 0, 0xf6), ("EchoParams", 3, 0xf7), ("EchoVolumeFade", 3, 0xf8),
    ("PitchSlide", 3, 0xf9), ("PercussionPatchBase", 1, 0xfa), ("Note", 1, 0),
];
impl SongSpec {
    pub fn to_json(&self) -> serde_json::Value {
        use serde_json::{json, Value};
        let tr: Vec<Value> = self
            .tracks
            .iter()
            .map(|t| {
                let c: Vec<Value> = t
                    .iter()
                    .map(|c| {
                        let cmd = match c.args.len() {
                            0 => json!(c.name),
                            1 => json!({ c.name.clone(): c.args[0] }),
                            _ => json!({ c.name.clone(): c.args }),
                        };
                        json!({"duration": c.d, "velocity": c.v, "sustain": c.s, "command": cmd})
                    })
                    .collect();
                json!({ "commands": c })
            })
            .collect();
        json!({"parts": [{"tracks": self.part}], "tracks": tr})
    }
    pub fn bytes(&self) -> Vec<u8> {
        if self.pretty {
            serde_json::to_vec_pretty(&self.to_json()).unwrap()
        } else {
            serde_json::to_vec(&self.to_json()).unwrap()
        }
    }
    /// the form the exporter writes
    pub fn from_json(v: &serde_json::Value) -> Option<SongSpec> {
        let part = v["parts"][0]["tracks"].as_array()?.iter().map(|x| x.as_u64().map(|x| x as usize)).collect::<Option<Vec<_>>>()?;
        let mut tracks = vec![];
        for t in v["tracks"].as_array()? {
            let mut cs = vec![];
            for c in t["commands"].as_array()? {
                let o = |k: &str| c[k].as_u64().map(|x| x as u8);
                let (name, args) = match &c["command"] {
                    serde_json::Value::String(s) => (s.clone(), vec![]),
                    serde_json::Value::Object(m) => {
                        let (k, v) = m.iter().next()?;
                        let a = match v {
                            serde_json::Value::Array(a) => a.iter().map(|x| x.as_u64().map(|x| x as usize)).collect::<Option<Vec<_>>>()?,
                            v => vec![v.as_u64()? as usize],
                        };
                        (k.clone(), a)
                    }
                    _ => return None,
                };
                cs.push(NCmd { d: o("duration"), v: o("velocity"), s: o("sustain"), name, args });
            }
            tracks.push(cs);
        }
        Some(SongSpec { part, tracks, pretty: true })
    }
}
fn ncmd(d: Option<u8>, v: Option<u8>, s: Option<u8>, name: &str, args: Vec<usize>) -> NCmd {
    NCmd { d, v, s, name: name.into(), args }
}
pub fn gen_cmd(r: &mut Rng, with_time: bool) -> NCmd {
    let x = r.below(100);
    if x < 62 || with_time {
        let d = match r.below(8) {
            0 => 0x7f,
            1 => 1,
            _ => 1 + r.below(0x7f) as u8,
        };
        match r.below(10) {
            0 | 1 => ncmd(Some(d), None, None, "Rest", vec![]),
            2 => ncmd(Some(d), if r.chance(1, 2) { None } else { Some(1 + r.below(15) as u8) }, if r.chance(1, 2) { None } else { Some(7) }, "Tie", vec![]),
            _ => ncmd(Some(d), Some(1 + r.below(15) as u8), Some(1 + r.below(7) as u8), "Note", vec![0x80 + r.usize(0x48)]),
        }
    } else {
        loop {
            let (n, k, _) = *r.pick(&CMDS);
            if n == "CallLoop" || n == "Note" {
                continue;
            }
            return ncmd(None, None, None, n, (0..k).map(|_| r.usize(256)).collect());
        }
    }
}
/// `weight`: rough number of commands per track
pub fn gen_song(r: &mut Rng, weight: usize) -> SongSpec {
    let ntop = match r.below(8) {
        0 => 8,
        1 => 1,
        _ => 1 + r.usize(8),
    };
    let nloops = if r.chance(1, 2) { r.usize(4) } else { 0 };
    let mut tracks: Vec<Vec<NCmd>> = vec![];
    // a small palette makes values repeat, so the byte writer's run-length state matters
    let palette: Vec<NCmd> = (0..6).map(|_| gen_cmd(r, true)).collect();
    for i in 0..ntop {
        let n = if r.chance(1, 12) && i > 0 { 0 } else { 1 + r.usize(weight.max(1)) };
        let mut t = vec![];
        for _ in 0..n {
            if nloops > 0 && r.chance(1, 6) {
                let tgt = ntop + r.usize(nloops);
                let cnt = if r.chance(1, 20) { *r.pick(&[20, 20, 128, 255]) } else { 1 + r.usize(4) };
                t.push(ncmd(Some(0), Some(0), Some(0), "CallLoop", vec![tgt, cnt]));
            } else if r.chance(1, 2) {
                t.push(r.pick(&palette).clone());
            } else {
                t.push(gen_cmd(r, false));
            }
        }
        tracks.push(t);
    }
    for _ in 0..nloops {
        let n = if r.chance(1, 20) { 0 } else { 1 + r.usize(weight.max(1)) };
        let mut t: Vec<NCmd> = (0..n).map(|_| if r.chance(1, 2) { r.pick(&palette).clone() } else { gen_cmd(r, false) }).collect();
        if n > 0 && t.iter().all(|c| c.d.is_none()) {
            t.push(gen_cmd(r, true));
        }
        tracks.push(t);
    }
    if r.chance(1, 3) {
        // commands that last as long as the one before
        for t in &mut tracks {
            let (mut hard, mut soft) = (false, false);
            for c in t.iter_mut() {
                if c.name == "CallLoop" {
                    hard = false;
                } else if matches!(c.name.as_str(), "Note" | "Rest" | "Tie") {
                    if (hard || soft && c.v.is_none() && c.s.is_none() && c.name != "Note") && r.chance(1, 4) {
                        c.d = *r.pick(&[None, None, Some(0)]);
                    } else {
                        (hard, soft) = (true, true);
                    }
                }
            }
        }
    }
    let mut part: Vec<usize> = (0..ntop).collect();
    if r.chance(1, 5) {
        // voices in another order, in unison (one track for several), or tracks that nothing plays
        for i in (1..ntop).rev() {
            part.swap(i, r.usize(i + 1));
        }
        if r.chance(1, 2) {
            let i = r.usize(ntop);
            part[i] = *r.pick(&part.clone());
        }
        if r.chance(1, 3) {
            part.truncate(1 + r.usize(ntop));
        }
    }
    SongSpec { part, tracks, pretty: r.chance(1, 3) }
}

// ---------------------------------------------------------------- MIDI
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Note {
    pub tr: usize,
    pub ch: u8,
    pub p: u8,
    pub t: u32,
    pub len: u32,
    pub v: u8,
    /// 0: NoteOff, 1: NoteOn with velocity 0, 2: none (the next note on the same key ends it)
    pub off: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Prog(u8, u8),
    Cc(u8, u8, u8),
    Bend(u8, u16),
    Tempo(u32),
    ChPress(u8, u8),
    KeyPress(u8, u8, u8),
    Text(u8, Vec<u8>),
    SysEx(Vec<u8>),
}
impl Ev {
    pub fn channel(&self) -> Option<u8> {
        match self {
            Ev::Prog(c, _) | Ev::Cc(c, _, _) | Ev::Bend(c, _) | Ev::ChPress(c, _) | Ev::KeyPress(c, _, _) => Some(*c),
            _ => None,
        }
    }
    /// the same on another channel
    pub fn on(&self, ch: u8) -> Ev {
        let mut e = self.clone();
        match &mut e {
            Ev::Prog(c, _) | Ev::Cc(c, _, _) | Ev::Bend(c, _) | Ev::ChPress(c, _) | Ev::KeyPress(c, _, _) => *c = ch,
            _ => {}
        }
        e
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MidiSpec {
    pub tpb: u16,
    pub ntracks: usize,
    pub notes: Vec<Note>,
    pub extras: Vec<(usize, u32, Ev)>,
    pub running: bool,
    /// everything from the first number on comes later by the second: times that 32 bits cannot hold
    #[serde(default)]
    pub late: Option<(u32, u64)>,
    /// how long after its last event a track ends
    #[serde(default)]
    pub tail: u32,
}
fn vlq(out: &mut Vec<u8>, v: u32) {
    let mut b = [0u8; 5];
    let mut n = 0;
    let mut x = v;
    loop {
        b[n] = (x & 0x7f) as u8;
        n += 1;
        x >>= 7;
        if x == 0 {
            break;
        }
    }
    for i in (0..n).rev() {
        out.push(b[i] | if i > 0 { 0x80 } else { 0 });
    }
}
impl MidiSpec {
    /// byte offsets of the track chunks are returned as well
    pub fn encode(&self) -> (Vec<u8>, Vec<usize>) {
        let mut out = b"MThd\0\0\0\x06\0\x01".to_vec();
        out.extend(&(self.ntracks as u16).to_be_bytes());
        out.extend(&self.tpb.to_be_bytes());
        let mut offs = vec![];
        for k in 0..self.ntracks {
            // (time, class, sequence, status, data)
            let mut ev: Vec<(u32, u8, usize, u8, Vec<u8>)> = vec![];
            for (i, n) in self.notes.iter().enumerate().filter(|(_, n)| n.tr == k) {
                ev.push((n.t, 2, i, 0x90 | n.ch, vec![n.p, n.v]));
                match n.off {
                    0 => ev.push((n.t + n.len, 0, i, 0x80 | n.ch, vec![n.p, 64])),
                    1 => ev.push((n.t + n.len, 0, i, 0x90 | n.ch, vec![n.p, 0])),
                    _ => {}
                }
            }
            for (i, (_, t, e)) in self.extras.iter().enumerate().filter(|(_, (tr, _, _))| *tr == k) {
                let (st, d) = match e {
                    Ev::Prog(c, p) => (0xc0 | c, vec![*p]),
                    Ev::Cc(c, a, b) => (0xb0 | c, vec![*a, *b]),
                    Ev::Bend(c, v) => (0xe0 | c, vec![(v & 0x7f) as u8, (v >> 7) as u8 & 0x7f]),
                    Ev::ChPress(c, v) => (0xd0 | c, vec![*v]),
                    Ev::KeyPress(c, p, v) => (0xa0 | c, vec![*p, *v]),
                    Ev::Tempo(u) => (0xff, vec![0x51, 3, (u >> 16) as u8, (u >> 8) as u8, *u as u8]),
                    Ev::Text(ty, b) => {
                        let mut v = vec![*ty];
                        vlq(&mut v, b.len() as u32);
                        v.extend(b);
                        (0xff, v)
                    }
                    Ev::SysEx(b) => {
                        let mut v = vec![];
                        vlq(&mut v, b.len() as u32);
                        v.extend(b);
                        (0xf0, v)
                    }
                };
                ev.push((*t, 1, i, st, d));
            }
            ev.sort_by_key(|e| (e.0, e.1, e.2));
            let mut b = vec![];
            let mut last = 0u64;
            let mut run = 0u8;
            for (t, _, _, st, d) in ev {
                let t = self.time(t);
                while t - last > 0x0fff_ffff {
                    vlq(&mut b, 0x0fff_ffff);
                    b.extend(&[0xff, 0x06, 0]);
                    last += 0x0fff_ffff;
                    run = 0;
                }
                vlq(&mut b, (t - last) as u32);
                last = t;
                if !(self.running && st == run && st < 0xf0) {
                    b.push(st);
                }
                run = if st < 0xf0 { st } else { 0 };
                b.extend(&d);
            }
            vlq(&mut b, self.tail);
            b.extend(&[0xff, 0x2f, 0]);
            offs.push(out.len());
            out.extend(b"MTrk");
            out.extend(&(b.len() as u32).to_be_bytes());
            out.extend(&b);
        }
        (out, offs)
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.encode().0
    }
    /// where the file has what the notes put at t
    pub fn time(&self, t: u32) -> u64 {
        t as u64 + self.late.map_or(0, |(from, by)| if t >= from { by } else { 0 })
    }
    pub fn tempos(&self) -> Vec<u32> {
        self.tempo_map().into_iter().map(|x| x.1).collect()
    }
    /// tempo changes in order: time and microseconds per beat
    pub fn tempo_map(&self) -> Vec<(u32, u32)> {
        let mut v: Vec<(u32, usize, usize, u32)> = vec![];
        for (i, (tr, t, e)) in self.extras.iter().enumerate() {
            if let Ev::Tempo(u) = e {
                v.push((*t, *tr, i, *u));
            }
        }
        v.sort();
        v.iter().map(|x| (x.0, x.3)).collect()
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum MidiKind {
    /// one note at a time per channel, at most 8 channels: must convert
    Mono,
    /// chords and overlaps over several channels
    Poly,
    /// performed: nothing on a grid, very short notes too
    Loose,
    /// repetitive, so loops are extracted
    Loopy,
}

pub struct MidiKnobs {
    pub kind: MidiKind,
    pub notes: usize,
    pub percussion: bool,
    pub controls: bool,
    pub portamento: bool,
    pub pad: usize,
    pub soft: bool,
}

pub fn gen_midi(r: &mut Rng, k: &MidiKnobs) -> MidiSpec {
    let tpb = if r.chance(1, 12) { *r.pick(&[1u16, 2, 7, 12, 23, 3000, 9600, 15360, 32767]) } else { *r.pick(&[24u16, 48, 96, 120, 192, 240, 384, 480, 960, 100, 50, 25, 220, 1000]) };
    let unit = tpb as f64 / 24.0;
    let nch = match k.kind {
        MidiKind::Mono => 1 + r.usize(8),
        _ => 1 + r.usize(6),
    };
    let mut chans: Vec<u8> = (0..16).collect();
    for i in (1..16).rev() {
        chans.swap(i, r.usize(i + 1));
    }
    chans.truncate(nch);
    if k.percussion && !chans.contains(&9) {
        chans[0] = 9;
    }
    if !k.percussion {
        chans.retain(|c| *c != 9);
        if chans.is_empty() {
            chans.push(3);
        }
    }
    let extra_tracks = r.usize(3);
    let ntracks = (chans.len() + extra_tracks).max(1);
    let single = r.chance(1, 8);
    let mut notes: Vec<Note> = vec![];
    let mut extras: Vec<(usize, u32, Ev)> = vec![];
    let per = (k.notes / chans.len()).max(1);
    let q = |x: f64| -> u32 { x.round().max(0.0) as u32 };
    for (ci, &ch) in chans.iter().enumerate() {
        let tr = if single { 0 } else { ci + extra_tracks };
        let mut t = if r.chance(1, 2) { 0u32 } else { q(unit * r.usize(200) as f64) };
        let motif: Vec<(u32, u32, u8, u8)> = (0..4 + r.usize(5))
            .map(|_| (q(unit * (1 + r.usize(24)) as f64), if r.chance(1, 2) { 0 } else { q(unit * r.usize(12) as f64) }, 40 + r.below(40) as u8, 30 + r.below(90) as u8))
            .collect();
        let mut n = 0;
        while n < per {
            let pitch = |r: &mut Rng| -> u8 {
                if ch == 9 {
                    *r.pick(&[35, 36, 38, 38, 40, 40, 42, 46, 49, 51])
                } else if r.chance(1, 12) {
                    r.below(128) as u8
                } else {
                    30 + r.below(60) as u8
                }
            };
            let off = if r.chance(1, 3) { 1 } else { 0 };
            let vel = if k.soft && r.chance(1, 10) { 1 + r.below(7) as u8 } else { 8 + r.below(120) as u8 };
            match k.kind {
                MidiKind::Loopy => {
                    let reps = 1 + r.usize(4);
                    for _ in 0..reps {
                        for &(len, gap, p, v) in &motif {
                            notes.push(Note { tr, ch, p: if ch == 9 { 38 } else { p }, t, len: len.max(1), v, off: 0 });
                            t += len.max(1) + gap;
                            n += 1;
                        }
                    }
                    if r.chance(1, 2) {
                        let len = q(unit * (1 + r.usize(30)) as f64).max(1);
                        notes.push(Note { tr, ch, p: pitch(r), t, len, v: vel, off });
                        t += len;
                        n += 1;
                    }
                }
                MidiKind::Mono => {
                    let len = match r.below(11) {
                        0 => q(unit * r.log(100, 2600) as f64),
                        // what one, two or three commands can just last, or just not
                        1 if r.chance(1, 2) => q(unit * (127 * (1 + r.usize(3)) + r.usize(4) - 2) as f64),
                        _ => q(unit * r.log(2, 100) as f64) + r.below((unit as u64).max(1)) as u32,
                    }
                    .max(unit.ceil() as u32);
                    let gap = match r.below(9) {
                        0..=3 => 0,
                        4 => q(unit * *r.pick(&[1, 1, 1, 2, 126, 127, 128, 254]) as f64),
                        5 | 6 => r.below((unit * 4.0) as u64 + 1) as u32,
                        _ => q(unit * r.log(1, 400) as f64),
                    };
                    let p = pitch(r);
                    let off = if gap == 0 && n + 1 < per && r.chance(1, 8) { 2 } else { off };
                    notes.push(Note { tr, ch, p, t, len, v: vel, off });
                    if off == 2 {
                        // a second strike on the same key ends the first
                        let len2 = q(unit * r.log(2, 60) as f64).max(unit.ceil() as u32);
                        notes.push(Note { tr, ch, p, t: t + len, len: len2, v: vel, off: if r.chance(1, 2) { 1 } else { 0 } });
                        t += len2;
                        n += 1;
                    }
                    t += len + gap;
                    n += 1;
                }
                MidiKind::Poly => {
                    let size = if r.chance(1, 3) { 2 + r.usize(3) } else { 1 };
                    let len = q(unit * (1 + r.usize(96)) as f64).max(unit.ceil() as u32);
                    let mut used: Vec<u8> = vec![];
                    for _ in 0..size {
                        let p = pitch(r);
                        let class = |x: u8| if ch == 9 && x == 40 { 38 } else { x };
                        if used.iter().any(|u| class(*u) == class(p)) {
                            continue;
                        }
                        used.push(p);
                        let l = if r.chance(1, 3) { (len / 2).max(unit.ceil() as u32) } else { len };
                        notes.push(Note { tr, ch, p, t, len: l, v: vel, off });
                        n += 1;
                    }
                    let adv = if r.chance(1, 6) { (len / 2).max(1) } else { len };
                    t += adv + if r.chance(1, 2) { 0 } else { q(unit * r.usize(48) as f64) };
                }
                MidiKind::Loose => {
                    let (a, b) = (if r.chance(1, 3) { 1.5 } else { 40.0 }, if r.chance(1, 2) { 1.2 } else { 30.0 });
                    let len = (1 + r.below((unit * a) as u64 + 1)) as u32;
                    notes.push(Note { tr, ch, p: pitch(r), t, len, v: vel, off });
                    n += 1;
                    t += len + r.below((unit * b) as u64 + 1) as u32;
                }
            }
        }
        if r.chance(3, 4) {
            extras.push((tr, 0, Ev::Prog(ch, r.below(128) as u8)));
        }
        if k.controls {
            for _ in 0..r.usize(5) {
                let mut at = r.below(t as u64 + 1) as u32;
                if r.chance(1, 2) {
                    // exactly where one of the channel's notes starts or ends
                    let mine: Vec<&Note> = notes.iter().filter(|n| n.ch == ch).collect();
                    if !mine.is_empty() {
                        let n = r.pick(&mine);
                        at = if r.chance(1, 2) { n.t } else { n.t + n.len };
                    }
                }
                let e = match r.below(7) {
                    0 => Ev::Prog(ch, r.below(128) as u8),
                    1 => Ev::Cc(ch, 7, r.below(128) as u8),
                    2 => Ev::Cc(ch, *r.pick(&[1, 10, 11, 64, 91]), r.below(128) as u8),
                    3 => Ev::Bend(ch, r.below(16384) as u16),
                    4 => Ev::ChPress(ch, r.below(128) as u8),
                    5 => Ev::KeyPress(ch, r.below(128) as u8, r.below(128) as u8),
                    _ => Ev::Cc(ch, 7, r.below(128) as u8),
                };
                extras.push((tr, at, e));
            }
        }
        if k.portamento && r.chance(3, 4) {
            let mine: Vec<(u32, u32)> = notes.iter().filter(|n| n.ch == ch).map(|n| (n.t, n.t + n.len)).collect();
            let at = |r: &mut Rng| match r.below(6) {
                0..=2 => 0,
                3 if !mine.is_empty() => {
                    let n = r.pick(&mine);
                    if r.chance(1, 2) { n.0 } else { n.1 }
                }
                _ => r.below(t as u64 + 1) as u32,
            };
            for _ in 0..r.usize(3) {
                extras.push((tr, at(r), Ev::Cc(ch, *r.pick(&[37, 37, 37, 5]), r.log(1, 127) as u8)));
            }
            for _ in 0..1 + r.usize(4) {
                extras.push((tr, at(r), Ev::Cc(ch, 65, *r.pick(&[127, 127, 64, 63, 0]))));
            }
        }
    }
    if k.controls && r.chance(1, 3) {
        // many sequencers set up all channels, used or not
        for ch in 0..16u8 {
            if !chans.contains(&ch) && r.chance(3, 4) {
                extras.push((0, r.below(50) as u32 * (r.below(2) as u32), Ev::Prog(ch, r.below(128) as u8)));
                if r.chance(1, 2) {
                    extras.push((0, 0, Ev::Cc(ch, 7, r.below(128) as u8)));
                }
            }
        }
    }
    if chans.len() > 1 && chans[0] != 9 && chans[1] != 9 && r.chance(1, 8) {
        // two channels in unison
        let (a, b) = (chans[0], chans[1]);
        let tr = notes.iter().find(|n| n.ch == b).map_or(0, |n| n.tr);
        notes.retain(|n| n.ch != b);
        let same: Vec<Note> = notes.iter().filter(|n| n.ch == a).map(|n| Note { ch: b, tr, ..n.clone() }).collect();
        notes.extend(same);
        extras.retain(|e| e.2.channel() != Some(b));
        let same: Vec<(usize, u32, Ev)> = extras.iter().filter(|e| e.2.channel() == Some(a)).map(|e| (tr, e.1, e.2.on(b))).collect();
        extras.extend(same);
    }
    // overlapping notes on one key of one channel are ambiguous MIDI: keep the earlier one only
    notes.sort_by_key(|n| (n.t, n.ch, n.p));
    let mut keep: Vec<Note> = vec![];
    for n in notes {
        let clash = keep.iter().any(|m| m.ch == n.ch && m.p == n.p && n.t < m.t + m.len);
        if !clash {
            keep.push(n);
        }
    }
    // a note without its own end needs a successor exactly there
    for i in 0..keep.len() {
        if keep[i].off == 2 {
            let (c, p, e) = (keep[i].ch, keep[i].p, keep[i].t + keep[i].len);
            if !keep.iter().any(|m| m.ch == c && m.p == p && m.t == e) {
                keep[i].off = 0;
            }
        }
    }
    if r.chance(3, 4) {
        extras.push((0, 0, Ev::Tempo(200_000 + r.below(1_000_000) as u32)));
        if k.controls && r.chance(1, 2) {
            for _ in 0..1 + r.usize(3) {
                let end = keep.iter().map(|n| n.t + n.len).max().unwrap_or(5000);
                let tr = if r.chance(1, 3) { r.usize(ntracks) } else { 0 };
                let most = if r.chance(1, 2) { 5000 } else { end.max(1) as u64 };
                let at = 1 + r.below(most) as u32;
                extras.push((tr, at, Ev::Tempo(*r.pick(&[1, 235_294, 5_000_000, 16_777_215, 0, 0, 0, 0, 0, 0]))));
                if let Some((_, _, Ev::Tempo(u))) = extras.last_mut() {
                    if *u == 0 {
                        *u = 200_000 + r.below(1_000_000) as u32;
                    }
                }
            }
        }
    }
    if k.pad > 0 {
        let mut b = vec![0x20u8; k.pad];
        fill(&mut b, 77);
        for x in &mut b {
            *x &= 0x7f;
        }
        extras.push((0, 0, if r.chance(1, 2) { Ev::Text(1, b) } else { Ev::SysEx({ b.push(0xf7); b }) }));
    }
    let mut ntracks = ntracks;
    if r.chance(1, 8) {
        // everything in one track
        ntracks = 1;
        keep.iter_mut().for_each(|n| n.tr = 0);
        extras.iter_mut().for_each(|e| e.0 = 0);
    } else if ntracks > 1 && r.chance(1, 5) {
        // a channel whose notes, or settings, are spread over the tracks
        let ch = *r.pick(&chans);
        if r.chance(1, 2) {
            let tr = r.usize(ntracks);
            extras.iter_mut().filter(|e| e.2.channel() == Some(ch)).for_each(|e| e.0 = tr);
        }
        let tr = r.usize(ntracks);
        for n in keep.iter_mut().filter(|n| n.ch == ch) {
            if r.chance(1, 2) {
                n.tr = tr;
            }
        }
    }
    let tail = if r.chance(1, 5) { 1 + r.below(2000) as u32 } else { 0 };
    MidiSpec { tpb, ntracks, notes: keep, extras, running: r.chance(1, 3), late: None, tail }
}

/// Many channels at once, more than there are voices or nearly, with silent channels in between.
pub fn gen_crowd(r: &mut Rng) -> MidiSpec {
    let tpb = *r.pick(&[24u16, 48, 96, 480]);
    let unit = (tpb / 24) as u32;
    let mut chans: Vec<u8> = (0..16).collect();
    let busy = 6 + r.usize(11);
    if r.chance(1, 2) {
        // the last channels are the ones that do not fit
        let gap = 16 - busy;
        let at = r.usize(busy + 1);
        chans = (0..16u8).filter(|c| (*c as usize) < at || *c as usize >= at + gap).collect();
    } else {
        while chans.len() > busy {
            let i = r.usize(chans.len());
            chans.remove(i);
        }
    }
    let mut notes = vec![];
    if r.chance(1, 3) {
        // never more than two at once, yet pairs of channels meet here and there, so that no
        // two of them can share a voice: a search for voices fails late, or only just succeeds
        let chans: Vec<u8> = (0..16).collect();
        let solos = if r.chance(1, 2) { 6 + r.usize(4) } else { r.usize(16) };
        let dense = *r.pick(&[10u64, 10, 10, 8, 5]);
        let mut t = 0;
        for i in 0..chans.len() {
            let mut sound = |c: usize| notes.push(Note { tr: c, ch: chans[c], p: 40 + c as u8, t: t * unit, len: 12 * unit, v: 64, off: 0 });
            sound(i);
            t += 12;
            for j in 0..i {
                if (j >= solos && r.chance(dense, 10)) || r.chance(1, 12) {
                    let mut sound = |c: usize| notes.push(Note { tr: c, ch: chans[c], p: 40 + c as u8, t: t * unit, len: 12 * unit, v: 64, off: 0 });
                    sound(i);
                    sound(j);
                    t += 12;
                }
            }
        }
        notes.sort_by_key(|n| (n.t, n.ch, n.p));
        return MidiSpec { tpb, ntracks: chans.len(), notes, extras: vec![], running: r.chance(1, 3), late: None, tail: 0 };
    }
    let most = if r.chance(1, 4) { 60 } else { 6 };
    let n = 1 + r.usize(most);
    let style = r.below(3);
    for (ci, &ch) in chans.iter().enumerate() {
        let mut t = match style {
            0 => 0,
            1 => r.below(12) as u32,
            _ => r.below(300) as u32,
        };
        for _ in 0..n {
            let len = 4 + r.below(60) as u32;
            notes.push(Note { tr: ci, ch, p: 36 + r.below(50) as u8, t: t * unit, len: len * unit, v: 64, off: 0 });
            t += len + if style == 2 { r.below(200) as u32 } else { r.below(2) as u32 };
        }
    }
    notes.sort_by_key(|n| (n.t, n.ch, n.p));
    MidiSpec { tpb, ntracks: chans.len(), notes, extras: vec![], running: r.chance(1, 3), late: None, tail: 0 }
}

/// A song of phrases that come back: on the same channel, on others, many times in a row.
pub fn gen_phrases(r: &mut Rng, most: usize) -> MidiSpec {
    let tpb = *r.pick(&[24u16, 48, 96, 480]);
    let unit = (tpb / 24) as u32;
    let nch = 1 + r.usize(4);
    let mut chans: Vec<u8> = (0..16).filter(|c| *c != 9 || most % 2 == 0).collect();
    for i in (1..chans.len()).rev() {
        chans.swap(i, r.usize(i + 1));
    }
    chans.truncate(nch);
    let few = r.chance(1, 3); // few different notes: overlapping candidates
    let note = |r: &mut Rng| -> (u32, u32, u8, u8) {
        if few {
            (6, if r.chance(1, 4) { 6 } else { 0 }, 60 + r.below(2) as u8, 64)
        } else {
            (1 + r.below(40) as u32, if r.chance(1, 2) { 0 } else { r.below(20) as u32 }, 36 + r.below(50) as u8, *r.pick(&[40u8, 64, 64, 100, 127]))
        }
    };
    let motifs: Vec<Vec<(u32, u32, u8, u8)>> = (0..1 + r.usize(4)).map(|_| (0..1 + r.usize(8)).map(|_| note(r)).collect()).collect();
    let mut notes = vec![];
    let mut extras = vec![];
    let budget = 4 + r.usize(most);
    for (ci, &ch) in chans.iter().enumerate() {
        let mut t = r.below(3) as u32 * 24;
        let mut left = (budget / chans.len()).max(4) as i64;
        if r.chance(1, 2) {
            extras.push((ci, 0, Ev::Prog(ch, r.below(128) as u8)));
        }
        let glide = r.chance(1, 3);
        if glide {
            extras.push((ci, 0, Ev::Cc(ch, 65, 127)));
            extras.push((ci, 0, Ev::Cc(ch, *r.pick(&[37, 37, 37, 5]), r.log(1, 127) as u8)));
        }
        while left > 0 {
            if r.chance(1, 5) {
                let (l, g, p, v) = note(r);
                notes.push(Note { tr: ci, ch, p, t: t * unit, len: l * unit, v, off: 0 });
                t += l + g;
                left -= 1;
                continue;
            }
            let m = r.pick(&motifs).clone();
            let reps = match r.below(12) {
                0 => 256 + r.usize(300),
                1..=3 => 3 + r.usize(40),
                4..=7 => 2,
                _ => 1,
            };
            // sometimes stop inside the phrase
            let upto = if r.chance(1, 4) { r.usize(m.len()) } else { 0 };
            let odd = r.chance(1, 3);
            for k in 0..reps * m.len() + upto {
                let (mut l, g, p, v) = m[k % m.len()];
                if odd && k + 1 == reps * m.len() + upto {
                    // the last time it ends otherwise
                    l += 1 + r.below(30) as u32;
                }
                notes.push(Note { tr: ci, ch, p, t: t * unit, len: l * unit, v, off: 0 });
                t += l + g;
                left -= 1;
                if left < -20 {
                    break;
                }
            }
            if r.chance(1, 10) {
                extras.push((ci, t * unit, Ev::Prog(ch, r.below(128) as u8)));
            }
            if r.chance(1, 10) {
                extras.push((ci, t * unit, Ev::Cc(ch, 7, r.below(128) as u8)));
            }
            if glide && r.chance(1, 10) {
                extras.push((ci, t * unit, Ev::Cc(ch, 65, *r.pick(&[0, 127]))));
            }
        }
    }
    if r.chance(1, 2) {
        extras.push((0, 0, Ev::Tempo(200_000 + r.below(1_000_000) as u32)));
    }
    notes.sort_by_key(|n| (n.t, n.ch, n.p));
    MidiSpec { tpb, ntracks: chans.len(), notes, extras, running: r.chance(1, 3), late: None, tail: 0 }
}

// ---------------------------------------------------------------- manifests and files
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Entry {
    pub input: String,
    pub tempo: Option<f64>,
    pub lp: Option<bool>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ManifestSpec {
    pub entries: Vec<Entry>, // 34, in slot order
    pub shuffle: u64,
}
impl ManifestSpec {
    pub fn bytes(&self) -> Vec<u8> {
        let mut r = Rng::new(self.shuffle);
        let names: [(&str, &[&str]); 3] = [("overworld", &OVERWORLD), ("indoor", &INDOOR), ("ending", &ENDING)];
        let mut k = 0;
        let mut banks = vec![];
        for (bn, songs) in names.iter() {
            let mut es = vec![];
            for s in songs.iter() {
                let e = &self.entries[k];
                k += 1;
                let mut f = vec![format!("\"input\": {}", serde_json::to_string(&e.input).unwrap())];
                if let Some(t) = e.tempo {
                    f.push(format!("\"tempoAdjust\": {}", t));
                }
                if let Some(l) = e.lp {
                    f.push(format!("\"loop\": {}", l));
                }
                if self.shuffle & 1 == 1 {
                    f.reverse();
                }
                es.push(format!("\"{}\": {{{}}}", s, f.join(", ")));
            }
            if self.shuffle != 0 {
                for i in (1..es.len()).rev() {
                    es.swap(i, r.usize(i + 1));
                }
            }
            banks.push(format!("\"{}\": {{\n    {}\n  }}", bn, es.join(",\n    ")));
        }
        if self.shuffle != 0 {
            for i in (1..3).rev() {
                banks.swap(i, r.usize(i + 1));
            }
        }
        format!("{{\n  {}\n}}\n", banks.join(",\n  ")).into_bytes()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileSpec {
    Rom(RomSpec),
    Midi(MidiSpec),
    Song(SongSpec),
    Manifest(ManifestSpec),
    /// hex
    Raw(String),
    /// pseudo-random bytes: length, seed
    Junk(usize, u64),
    /// first n bytes of the file
    Cut(Box<FileSpec>, usize),
    /// bytes replaced
    Patch(Box<FileSpec>, Vec<(usize, u8)>),
    /// a file of /repo/sample
    Sample(String),
    /// a ROM whose chunk lists have no end: they run to the end of the file and the given number of bytes beyond,
    /// and what is there in the file from the start on leads back to the banks
    Runaway(RomSpec, usize),
}
impl FileSpec {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            FileSpec::Rom(x) => x.bytes(),
            FileSpec::Midi(x) => x.bytes(),
            FileSpec::Song(x) => x.bytes(),
            FileSpec::Manifest(x) => x.bytes(),
            FileSpec::Raw(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
            FileSpec::Junk(n, s) => {
                let mut v = vec![0; *n];
                fill(&mut v, *s);
                v
            }
            FileSpec::Cut(f, n) => {
                let mut b = f.bytes();
                b.truncate(*n);
                b
            }
            FileSpec::Patch(f, ps) => {
                let mut b = f.bytes();
                for (i, x) in ps {
                    if *i < b.len() {
                        b[*i] = *x;
                    }
                }
                b
            }
            FileSpec::Runaway(x, beyond) => {
                let mut b = x.bytes();
                let first = x.banks.iter().map(|b| b.start).min().unwrap_or(0);
                let mut walk = |mut p: usize, end: usize| {
                    while p + 4 <= end && p + 4 <= x.size {
                        let left = end - p - 4;
                        let n = if left < 4 { left } else if left <= 0xff00 { left } else { (left - 4).min(0xfe00) };
                        b[p..p + 4].copy_from_slice(&[n as u8, (n >> 8) as u8, 0x00, 0x30]);
                        p += 4 + n;
                    }
                };
                for k in &x.banks {
                    let p = k.positions();
                    walk(p[p.len() - 1] - 4, x.size + beyond);
                }
                walk(*beyond, first);
                b
            }
            FileSpec::Sample(n) => std::fs::read(format!("{}/sample/{}", crate::repo(), n)).unwrap_or_default(),
        }
    }
    pub fn arc(&self) -> Arc<Vec<u8>> {
        Arc::new(self.bytes())
    }
}
