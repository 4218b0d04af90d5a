"""Helpers of the demonstrations: synthetic ROMs, MIDI files, a player for the song data, running the CLI."""
import json, os, shutil, struct, subprocess, sys, tempfile
BIN = "/repo/target/debug/midi2spc"
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix="demo")
import atexit
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
PTRS = (0x914, 0x926, 0x932)
FIRST = (0x36, 0x46, 0x46)
BANKS = {"overworld": ["Title","World Map","Beginning","Rabbit","Forest","Intro","Town","Warp","Dark World","Master Sword","File Select","Soldier","Mountain","Shop","Fanfare"],
 "indoor": ["Castle","Palace","Cave","Clear","Church","Boss","Dungeon","Psychic","Secret Way","Rescue","Crystal","Fountain","Pyramid","Kill Agahnim","Ganon Room","Last Boss"],
 "ending": ["Triforce","Ending","Staff"]}
def p(n): return os.path.join(TMP, n)
def put(n, b):
    open(p(n), "wb").write(b); return p(n)
def get(n): return open(p(n), "rb").read()

def rom(name="game.sfc", base=(0x2000, 0x2000, 0x2000), over=(0x800, 0x800, 0x800), fill=0xA5, ptrs=PTRS, tail=64, pre=0):
    """each bank: [pre chunks] base chunk at D000, overflow chunk at 2B00, terminator; unused bytes = fill"""
    start = [0x8000, 0x10000, 0x18000]
    need = max(start[i] + base[i] + over[i] + 64 + pre * 20 for i in range(3)) + tail
    r = bytearray([fill]) * need
    for i in range(3):
        a = start[i]
        s = ((a >> 15) << 16) | 0x8000 | (a & 0x7fff)
        r[ptrs[i]], r[ptrs[i] + 4], r[ptrs[i] + 8] = s & 255, s >> 8 & 255, s >> 16
        for k in range(pre):
            r[a:a + 4] = struct.pack("<HH", 16, 0x3000 + 16 * k); a += 20
        r[a:a + 4] = struct.pack("<HH", base[i], 0xd000); a += 4 + base[i]
        r[a:a + 4] = struct.pack("<HH", over[i], 0x2b00); a += 4 + over[i]
        r[a:a + 4] = struct.pack("<HH", 0, 0x800)
    put(name, bytes(r)); return bytes(r)

def chunks(r, ptr):
    s = r[ptr] | r[ptr + 4] << 8 | r[ptr + 8] << 16
    a = (s & 0x7fff) + ((s // 2) & 0xff8000)
    out = []
    while True:
        n, ram = struct.unpack("<HH", r[a:a + 4])
        out.append((a + 4, n, ram))
        if n == 0: return out
        a += 4 + n

def upload(r, ptr):
    m = bytearray(65536)
    for a, n, ram in chunks(r, ptr): m[ram:ram + n] = r[a:a + n]
    return m

def le(m, a): return m[a] | m[a + 1] << 8
ARGS = {0xe0:1,0xe1:1,0xe2:2,0xe3:3,0xe4:0,0xe5:1,0xe6:2,0xe7:1,0xe8:2,0xe9:1,0xea:1,0xeb:3,0xec:0,0xed:1,0xee:2,0xef:3,0xf0:1,0xf1:3,0xf2:3,0xf3:0,0xf4:1,0xf5:3,0xf6:0,0xf7:3,0xf8:3,0xf9:3,0xfa:1}
def play_track(m, a, depth=0, st=None):
    """events: (kind, data, duration, velocity byte)"""
    st = st if st is not None else [0, 0x7d]
    ev = []
    while len(ev) < 200000:
        c = m[a]; a += 1
        if c == 0: return ev
        if c < 0x80:
            st[0] = c
            if m[a] < 0x80:
                st[1] = m[a]; a += 1
        elif c < 0xe0: ev.append((c, None, st[0], st[1]))
        elif c == 0xef:
            for _ in range(m[a + 2]): ev += play_track(m, le(m, a), depth + 1, st)
            a += 3
        else:
            n = ARGS[c]; ev.append((c, bytes(m[a:a + n]), 0, 0)); a += n
    raise Exception("track never ends")
def play(m, slot):
    s = le(m, 0xd000 + 2 * slot)
    if s == 0: return None
    part = le(m, s)
    tr = []
    for i in range(8):
        t = le(m, part + 2 * i)
        tr.append(play_track(m, t) if t else [])
    tail = le(m, s + 2)
    return tr, tail >= 0x80 or tail == 0xff
def notes(track):
    """(start, length, code, instrument) of the notes; ties joined"""
    t, out, ins = 0, [], None
    for c, d, dur, v in track:
        if c == 0xe0: ins = d[0]
        if c < 0xe0:
            if c == 0xc8 and out: out[-1][1] = t + dur - out[-1][0]
            elif c < 0xc8: out.append([t, dur, c, ins, v])
            t += dur
    return [tuple(x) for x in out]

def vlq(n):
    b = [n & 127]
    while n > 127:
        n >>= 7; b.insert(0, n & 127 | 128)
    return bytes(b)
def track(events):
    """events: (abs time, bytes)"""
    b, t = b"", 0
    for at, e in sorted(events, key=lambda x: x[0]):
        b += vlq(at - t) + e; t = at
    b += b"\x00\xff\x2f\x00"
    return b"MTrk" + struct.pack(">I", len(b)) + b
def on(ch, n, v=100): return bytes([0x90 | ch, n, v])
def off(ch, n): return bytes([0x80 | ch, n, 64])
def prog(ch, x): return bytes([0xc0 | ch, x])
def cc(ch, c, v): return bytes([0xb0 | ch, c, v])
def note(ch, n, a, b, v=100): return [(a, on(ch, n, v)), (b, off(ch, n))]
def midi(name, tracks, tpb=24, fmt=1):
    return put(name, b"MThd" + struct.pack(">IHHH", 6, fmt, len(tracks), tpb) + b"".join(track(t) for t in tracks))
def melody(name, ch=0, ns=(60, 62, 64, 65, 67), start=0, length=20, step=24, tpb=24, reps=1, v=100):
    ev = []
    t = start
    for _ in range(reps):
        for n in ns:
            ev += note(ch, n, t, t + length, v); t += step
    return midi(name, [ev], tpb)
def song(name, tracks):
    """JSON song; tracks of (command name, args..., duration) - one argument commands with a duration"""
    t = [{"commands": [{"duration": c[2], "velocity": 10, "sustain": 7, "command": {c[0]: c[1]}} for c in tr]} for tr in tracks]
    return put(name, json.dumps({"parts": [{"tracks": list(range(len(t)))}], "tracks": t}).encode())
def manifest(name, song, over={}, extra={}):
    """every slot gets `song`, except over[slot name]"""
    m = {b: {s: dict({"input": over.get(s, song)}, **extra.get(s, {})) for s in ss} for b, ss in BANKS.items()}
    return put(name, json.dumps(m).encode())
def run(*a, timeout=60, preload=None, env=None, **kw):
    e = dict(os.environ, RUST_BACKTRACE="0")
    if env: e.update(env)
    if preload: e["LD_PRELOAD"] = preload
    return subprocess.run([BIN] + list(a), cwd=TMP, stdout=kw.pop("stdout", subprocess.PIPE), stderr=subprocess.STDOUT, timeout=timeout, env=e, **kw)
def shim(code, name="shim"):
    """compiles a library that stands in for some system calls of the CLI only"""
    put(name + ".c", ("#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <errno.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n#include <signal.h>\n#include <stdio.h>\n#include <fcntl.h>\n#include <sys/types.h>\n" + code).encode())
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", p(name + ".so"), p(name + ".c"), "-ldl"], check=True)
    return p(name + ".so")
LAST = None
def lib(code, ok=(0,)):
    """compiles and runs a Rust program that calls the library; A = default bank addresses, p(name) = path in TMP"""
    global LAST
    d = p("libdemo"); os.makedirs(d + "/src", exist_ok=True)
    open(d + "/Cargo.toml", "w").write('[package]\nname = "libdemo"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\nmidi2spc = { path = "/repo" }\n')
    open(d + "/src/main.rs", "w").write("const A: [u32; 3] = [0x914, 0x926, 0x932];\nfn p(n: &str) -> String { format!(\"%s/{}\", n) }\nfn main() { let _ = (A, p(\"\")); %s }" % (TMP, code))
    shutil.copy("/repo/Cargo.lock", d + "/Cargo.lock")
    subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true"))
    LAST = subprocess.run([d + "/target/debug/libdemo"], cwd=TMP, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
    assert LAST in ok, LAST
def fail(why):
    print("BROKEN:", why); sys.exit(1)
