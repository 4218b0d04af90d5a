//! Makes library calls from several threads of one process, under the simulator.
//! Arguments: thread|what|input|output|skip|verbose|a,b,c  (addresses decimal), in order per thread;
//! thread 0 is the main thread.
extern crate midi2spc;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

extern "C" {
    fn vsim_report(id: u32, code: i32);
}

trait Outcome {
    fn good(self) -> bool;
}
impl Outcome for () {
    fn good(self) -> bool {
        true
    }
}
impl<T, E> Outcome for Result<T, E> {
    fn good(self) -> bool {
        self.is_ok()
    }
}

#[derive(Clone)]
struct Call {
    id: u32,
    what: String,
    input: String,
    output: String,
    skip: bool,
    verbose: bool,
    addrs: [u32; 3],
}

fn perform(c: &Call) -> bool {
    let (i, o) = (c.input.as_str(), c.output.as_str());
    match c.what.as_str() {
        "build_rom" => midi2spc::build_rom(i, o, c.addrs, !c.skip, c.verbose).good(),
        "all_overworld" => midi2spc::write_all_overworld(i, o, c.addrs, !c.skip, c.verbose).good(),
        "file_select" => midi2spc::write_file_select(i, o, c.addrs, !c.skip, c.verbose).good(),
        "gen_fake_rom" => midi2spc::rom::gen_fake_rom(Path::new(i), Path::new(o), c.addrs).good(),
        "midi2json" => {
            let mut midi = midi2spc::midi::MidiHandler::new();
            if !midi.read(Path::new(i), c.verbose).good() {
                return false;
            }
            match midi2spc::nspc::Song::from_midi(&midi, midi2spc::manifest::DEFAULT_TEMPO_ADJUST, !c.skip, c.verbose) {
                Ok(s) => s.write_to_json(Path::new(o)).good(),
                Err(_) => false,
            }
        }
        // somebody else changes a file between two calls
        "copy" => std::fs::read(i).and_then(|b| std::fs::write(o, b)).good(),
        _ => false,
    }
}

fn all(calls: Vec<Call>) {
    for c in calls {
        let code = match catch_unwind(AssertUnwindSafe(|| perform(&c))) {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(_) => 2,
        };
        unsafe { vsim_report(c.id, code) }
    }
}

fn main() {
    let mut per: Vec<Vec<Call>> = vec![];
    for a in std::env::args().skip(1) {
        let f: Vec<&str> = a.split('|').collect();
        let t: usize = f[0].parse().unwrap();
        while per.len() <= t {
            per.push(vec![]);
        }
        let ad: Vec<u32> = f[6].split(',').map(|x| x.parse().unwrap()).collect();
        let id = t as u32 * 100 + per[t].len() as u32;
        per[t].push(Call {
            id,
            what: f[1].into(),
            input: f[2].into(),
            output: f[3].into(),
            skip: f[4] == "1",
            verbose: f[5] == "1",
            addrs: [ad[0], ad[1], ad[2]],
        });
    }
    let mut it = per.into_iter();
    let first = it.next().unwrap_or_default();
    let hs: Vec<_> = it.map(|c| std::thread::spawn(move || all(c))).collect();
    all(first);
    for h in hs {
        let _ = h.join();
    }
}
