#!/usr/bin/env python3
"""mkbug.py DEF.py...: makes /verif/seeded/<id>/ from a definition (PROPERTY, NEEDS, BREAKS, EDITS, DEMO); development aid"""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    d = runpy.run_path(f); i = os.path.basename(f)[:-3]
    W = "/tmp/mkbug.wt"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for fn, old, new in d["EDITS"]:
        s = open(W + "/" + fn).read()
        if s.count(old) < 1 or (s.count(old) > 1 and not d.get("MULTI")): sys.exit("%s: %d matches of %r" % (i, s.count(old), old[:60]))
        open(W + "/" + fn, "w").write(s.replace(old, new))
    p = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, check=True).stdout
    D = V + "/seeded/" + i
    os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "wb").write(p)
    open(D + "/demo.py", "w").write("from demolib import *\n" + d["DEMO"].lstrip("\n"))
    shutil.copy(V + "/tools/demolib.py", D + "/demolib.py")
    open(D + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(D + "/demo.sh", 0o755)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
    print(i, len(p))
