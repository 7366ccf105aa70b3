#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds_*.py style tables below (patch.diff, demo.sh, demo.py, lib.py, meta.json)."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(H), "seeded")
SRC = "src/ska-sdp-func/"


def make(id, prop, edits, needs, breaks, demo):
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    diff = ""
    files = []
    for f, old, new, *nth in edits:
        if f not in files:
            files.append(f)
    for f in files:
        s = open("/repo/" + SRC + f).read()
        o = s
        for g, old, new, *nth in edits:
            if g != f:
                continue
            k = nth[0] if nth else 0
            parts = s.split(old)
            assert len(parts) > k + 1, (id, "text not found", old)
            assert nth or len(parts) == 2, (id, "text not unique", len(parts) - 1)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        a, b = os.path.join(w, "a"), os.path.join(w, "b")
        open(a, "w").write(o); open(b, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + SRC + f, "--label", "b/" + SRC + f, a, b], capture_output=True, text=True)
        diff += r.stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: repository root, after the build\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3-vt "$(dirname "$0")/demo.py"\n')
    shutil.copy(os.path.join(H, "seedlib.py"), d + "/lib.py")
    open(d + "/demo.py", "w").write("from lib import *\n" + demo.strip("\n") + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


exec(open(os.path.join(H, "seed_defs.py")).read())
