#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over schedules, faults and command histories of the real binary under a simulated libc; "
O = {
 "C01": "oracle: undisturbed reference execution, song playback model, dummy-ROM model",
 "C02": "oracle: byte comparison of every file with the state before the command",
 "C03": "kill at any call or instrumented edge, power loss with un-synced sectors; oracle: old-or-new bytes, re-run equals the uninterrupted result",
 "C04": "oracle: termination within an edge and operation budget, deadlock detection, success once faults stop",
 "C05": "oracle: equality of outputs and endings across schedules, hash seeds, clocks, terminals, transfer splits, verbosity, paths",
 "C06": "display faults only; oracle: same ROM and status as with a working display",
 "C07": "read faults and every truncation; oracle: complete result or reported failure",
 "C08": "oracle: changed bytes confined to the chunk map of the generated ROM",
 "C09": "histories; oracle: bank upload and song playback model against the assignment",
 "C10": "oracle: notes played by the converted song matched one to one with the notes of the MIDI file",
 "C11": "several library calls in one process under a seeded scheduler; oracle: each call's outcome alone in a fresh process",
 "C12": "histories with failures and crashes; oracle: build on a pristine ROM and on its complement",
 "C13": "export with faults and crashes, then build from JSON; oracle: build from the MIDI",
 "C14": "oracle: dummy-ROM model, builds on the dummy against builds on the real ROM",
 "C15": "oracle: playback of the unoptimised export of the same song",
 "C18": "valid inputs in ROMs measured to have just the room needed, only faults a correct program rides out; oracle: success and song playback model",
 "C20": "read, output and memory faults, truncations; oracle: events decoded from the file by the model, and the undisturbed dump",
 "C21": "one thing wrong in one input or argument, with schedules, soft and display faults; oracle: independent checks of what certainly is no manifest, song, MIDI file or ROM, and byte comparison of every file",
 "C19": "oracle: duration of every voice, loops expanded, against the others and the file",
 "C16": "oracle: instrument, volume and tempo in force at each note against those of the MIDI file",
}
NOTE = ("Seeded random search, no exhaustive claim: shows the property on the executions explored (counts in the evidence file) and finds realistic regressions with high probability. "
        "Trusts the simulator shim, the reference models in harness/src/model.rs and harness/src/spec.rs, and sequentially consistent memory (one thread runs at a time); ")
X = {
 "C03": "power loss is modelled as any subset of un-synced 512-byte sectors surviving.",
 "C09": "the driver model was written from the published N-SPC format and cross-checked with the bundled sample ROM's format.",
 "C10": "resolution tolerances are stated in the property.",
 "C11": "the library is called through a driver linked against the unchanged crate.",
}
NA = {
 "C17": "a pure function of two integers: exhaustive enumeration decides it, not simulation; C10 checks its effect on whole songs",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T + O[i], "level": "exploration",
                       "level_note": NOTE + X.get(i, "the undisturbed execution of the same binary is the reference where no independent model applies.")})
m = {"version": 1, "setup_cmd": "./build.sh all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is libc, interposed by LD_PRELOAD, plus compiler edge instrumentation of an ordinary build of the working tree."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
