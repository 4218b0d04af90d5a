#!/usr/bin/env python3
"""Systematic one-line changes of /repo/src: which compile, pass the tests and are missed by the checks? (development aid)
mutate.py list            prints the changes
mutate.py run OUT K N     tries every change number i with i % N == K; works on /repo and /verif, so run it in a namespace of copies
"""
import json, os, re, subprocess, sys, glob, random
SRC = [f for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)) if "test" not in f and re.search(os.environ.get("MUT_FILES", ""), f)]
def muts(line):
    out = []
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("use ", "#", "extern", "mod ", "pub mod", "struct", "pub struct", "impl", "fn ", "pub fn", "enum", "pub enum", "println", "panic", "unimplemented")): return out
    def sub(pat, rep):
        for m in re.finditer(pat, code):
            s = m.expand(rep) if isinstance(rep, str) else rep(m)
            out.append(code[:m.start()] + s + code[m.end():])
    sub(r" <= ", " < "); sub(r" < ", " <= "); sub(r" >= ", " > "); sub(r" > ", " >= ")
    sub(r" == ", " != "); sub(r" != ", " == "); sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r" \* ", " + "); sub(r" / ", " * "); sub(r" % ", " + ")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"\.min\(", ".max("); sub(r"\.max\(", ".min(")
    sub(r"\bSome\((?=\w+\)[,;])", "Some(1 + ")
    sub(r"(?<![\w.\"'#])(0x[0-9a-fA-F]+|\d+)(?![\w\"'])", lambda m: ("0x%x" % (int(m[1], 16) + 1)) if m[1].startswith("0x") else str(int(m[1]) + 1))
    sub(r"(?<![\w.\"'#])([1-9]\d*)(?![\w\"'x])", lambda m: str(int(m[1]) - 1))
    sub(r"\bif (?!let)(!?)(?=[\w(])", lambda m: "if true || " ); sub(r"\bif (?!let)(!?)(?=[\w(])", lambda m: "if false && ")
    if re.match(r"^\s+[\w.\[\]&*]+.*;\s*$", code) and not re.match(r"^\s+(let|return|use|break|continue)\b", code): out.append("")
    if re.match(r"^\s+(continue|break);", code): out.append("")
    return [m for m in dict.fromkeys(out) if m != code]
def allm():
    r = []
    for f in SRC:
        lines = open(f).read().split("\n")
        intest = False
        for i, l in enumerate(lines):
            if "mod tests {" in l: intest = True
            if intest:
                intest = l != "}"
                continue
            for m in muts(l): r.append((f, i, l, m))
    random.Random(7).shuffle(r)
    return r
def sh(c, t):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ)).stdout.decode(errors="replace"), 0
    except subprocess.TimeoutExpired: return "", 1
ORDER = "C10 C21 C09 C18 C20 C01 C16 C15 C14 C13 C07 C12 C08 C19 C04 C05 C06 C11 C02 C03".split()
def main():
    ms = allm()
    if sys.argv[1] == "list":
        for i, (f, n, l, m) in enumerate(ms): print(i, f[10:], n + 1, l.strip(), "=>", m.strip())
        return
    out, k, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    stable = json.load(open("/opt/vp/BASELINE.json")); stable = stable.get("stable") or stable.get("passed")
    log = open(out, "a")
    for i, (f, ln, old, new) in enumerate(ms):
        if i % n != k: continue
        text = open(f).read()
        lines = text.split("\n"); lines[ln] = new
        open(f, "w").write("\n".join(lines))
        res = "?"
        try:
            o, t = sh("cd /repo && cargo check --offline --locked --quiet --target-dir /repo/target/chk 2>&1 | grep -c ^error", 200)
            if o.strip() != "0": res = "nocompile"; continue
            o, t = sh("timeout 100 bash /opt/vp/test.sh /tmp/tt%d.json" % k, 160)
            try: passed = json.load(open("/tmp/tt%d.json" % k))["passed"]
            except Exception: passed = []
            if any(x not in passed for x in stable): res = "tests"; continue
            o, t = sh("/verif/build.sh all", 300)
            res = "SURVIVED"
            for p in ORDER:
                cnt = {"C11": 40, "C12": 150, "C13": 150}.get(p, 250)
                o, t = sh("/verif/build/htarget/release/vharness survey %s 0 %d" % (p, cnt), 400)
                bad = [l for l in o.split("\n") if re.match(r"^ +\d+ C", l) and not "never ends even undisturbed: loop opt" in l]
                if bad or t: res = "caught %s %s" % (p, bad[0].strip()[:110] if bad else "timeout"); break
        finally:
            open(f, "w").write(text)
            if res != "nocompile":
                log.write("%d\t%s:%d\t%s\t=>\t%s\t%s\n" % (i, f[10:], ln + 1, old.strip(), new.strip(), res)); log.flush()
main()
