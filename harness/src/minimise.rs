//! Shrinks a failing scenario while the same property stays violated.
use crate::scen::*;
use crate::sim::*;
use crate::spec::*;
use std::time::{Duration, Instant};

fn plans(sc: &Scenario) -> usize {
    sc.steps.len()
}

/// every simpler variant of the scenario, most drastic first
fn variants(sc: &Scenario, cli: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut c = sc.clone();
        f(&mut c);
        if c != *sc {
            v.push(c);
        }
    };
    let keep_first = matches!(sc.mode.as_str(), "dummy");
    let keep_last = matches!(sc.mode.as_str(), "indep");
    let fixed = matches!(sc.mode.as_str(), "json" | "conc" | "trunc");
    if !fixed {
        for i in 0..sc.steps.len() {
            if sc.steps.len() > 1 && !(keep_first && i == 0) && !(keep_last && i + 1 == sc.steps.len()) {
                push(&|c| {
                    c.steps.remove(i);
                });
            }
        }
    }
    for i in 0..sc.calls.len() {
        if sc.calls.len() > 1 {
            push(&|c| {
                c.calls.remove(i);
            });
        }
    }
    for i in 0..plans(sc) {
        push(&|c| c.steps[i].plan = Plan::default());
        push(&|c| c.steps[i].plan.rules.clear());
        push(&|c| c.steps[i].plan.pre.clear());
        for j in 0..sc.steps[i].plan.rules.len() {
            push(&|c| {
                c.steps[i].plan.rules.remove(j);
            });
            if sc.steps[i].plan.rules[j].count > 1 {
                push(&|c| c.steps[i].plan.rules[j].count = 1);
            }
            if sc.steps[i].plan.rules[j].nth > 0 {
                push(&|c| c.steps[i].plan.rules[j].nth = 0);
                push(&|c| c.steps[i].plan.rules[j].nth /= 2);
            }
        }
        for j in 0..sc.steps[i].plan.pre.len() {
            push(&|c| {
                c.steps[i].plan.pre.remove(j);
            });
        }
        let d = Plan::default();
        push(&|c| c.steps[i].plan.policy = 0);
        push(&|c| c.steps[i].plan.sched_seed = 0);
        push(&|c| c.steps[i].plan.hash_seed = 0);
        push(&|c| c.steps[i].plan.env_seed = 0);
        push(&|c| c.steps[i].plan.tty = 0);
        push(&|c| c.steps[i].plan.read_frag = 0);
        push(&|c| c.steps[i].plan.write_frag = 0);
        push(&|c| c.steps[i].plan.frag_seed = 0);
        push(&|c| c.steps[i].plan.clock_real0 = d.clock_real0);
        push(&|c| c.steps[i].plan.clock_step = d.clock_step);
        push(&|c| c.steps[i].plan.latency = d.latency);
        push(&|c| c.steps[i].plan.alloc_fail = 0);
        push(&|c| c.steps[i].plan.crash_edges = 0);
        push(&|c| c.steps[i].power = 0);
        push(&|c| c.steps[i].cmd.verbose = false);
        push(&|c| c.steps[i].cmd.abs = false);
        push(&|c| c.steps[i].cmd.form = 0);
        push(&|c| c.steps[i].cmd.skip = false);
    }
    for i in 0..sc.calls.len() {
        push(&|c| c.calls[i].1.verbose = false);
        push(&|c| c.calls[i].1.skip = false);
    }
    if cli {
        for (name, f) in &sc.files {
            match f {
                FileSpec::Manifest(m) => {
                    // all slots but some play the same as the first / last
                    for k in 0..m.entries.len() {
                        let e0 = m.entries[k].clone();
                        if m.entries.iter().any(|e| *e != e0) && (k == 0 || k == 33) {
                            push(&|c| {
                                if let Some(FileSpec::Manifest(m)) = c.files.get_mut(name) {
                                    for e in &mut m.entries {
                                        *e = e0.clone();
                                    }
                                }
                            });
                        }
                    }
                    push(&|c| {
                        if let Some(FileSpec::Manifest(m)) = c.files.get_mut(name) {
                            m.shuffle = 0;
                            for e in &mut m.entries {
                                e.tempo = None;
                                e.lp = None;
                            }
                        }
                    });
                }
                FileSpec::Song(s) => {
                    for t in 0..s.tracks.len() {
                        let n = s.tracks[t].len();
                        if n > 1 {
                            push(&|c| {
                                if let Some(FileSpec::Song(s)) = c.files.get_mut(name) {
                                    s.tracks[t].truncate(n / 2);
                                }
                            });
                            push(&|c| {
                                if let Some(FileSpec::Song(s)) = c.files.get_mut(name) {
                                    s.tracks[t].drain(..n / 2);
                                }
                            });
                        }
                        if n > 0 && n <= 12 {
                            for j in 0..n {
                                push(&|c| {
                                    if let Some(FileSpec::Song(s)) = c.files.get_mut(name) {
                                        s.tracks[t].remove(j);
                                    }
                                });
                            }
                        }
                    }
                }
                FileSpec::Midi(m) => {
                    let n = m.notes.len();
                    let mut cut = n / 2;
                    while cut >= 1 {
                        let mut a = 0;
                        while a < n {
                            push(&|c| {
                                if let Some(FileSpec::Midi(m)) = c.files.get_mut(name) {
                                    let b = (a + cut).min(m.notes.len());
                                    m.notes.drain(a.min(b)..b);
                                }
                            });
                            a += cut;
                        }
                        cut = if cut > 8 || n <= 16 { cut / 2 } else { 0 };
                    }
                    for k in 0..m.extras.len() {
                        push(&|c| {
                            if let Some(FileSpec::Midi(m)) = c.files.get_mut(name) {
                                m.extras.remove(k);
                            }
                        });
                    }
                    push(&|c| {
                        if let Some(FileSpec::Midi(m)) = c.files.get_mut(name) {
                            m.running = false;
                        }
                    });
                }
                _ => {}
            }
        }
    }
    v
}

pub fn minimise(sc: &Scenario, prop: &str, w: &mut World, limit: Duration) -> (Scenario, usize) {
    let t0 = Instant::now();
    let mut best = sc.clone();
    let mut tried = 0;
    let holds = |c: &Scenario, w: &mut World| evaluate(c, w).iter().any(|f| f.prop == prop);
    // files nobody uses
    loop {
        let mut progress = false;
        for files in [false, true] {
            // smaller inputs need not fit where larger ones do, so these stay
            if files && sc.mode == "fits" {
                break;
            }
            'again: loop {
                for c in variants(&best, files) {
                    if t0.elapsed() > limit {
                        return (drop_files(best, prop, w), tried);
                    }
                    tried += 1;
                    if holds(&c, w) {
                        best = c;
                        progress = true;
                        continue 'again;
                    }
                }
                break;
            }
        }
        if !progress {
            break;
        }
    }
    (drop_files(best, prop, w), tried)
}

fn drop_files(sc: Scenario, prop: &str, w: &mut World) -> Scenario {
    let mut best = sc.clone();
    let names: Vec<String> = best.files.keys().cloned().collect();
    for n in names {
        if sc.mode == "fits" {
            break;
        }
        let mut c = best.clone();
        c.files.remove(&n);
        if evaluate(&c, w).iter().any(|f| f.prop == prop) {
            best = c;
        }
    }
    best
}
