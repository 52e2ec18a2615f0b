#!/usr/bin/env python3
"""mkbug.py SPEC.py...: writes seeded/<id>/ from a description: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source),
optionally FLAGS (extra compiler flags), SOURCES (what the demonstration compiles)."""
import sys, os, subprocess, tempfile, shutil, json
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
SRC = "common/*.c dilithium2/*.c sphincs/*.c tweetnacl/*.c hybrid-dilithium-sphincs/*.c random/randombytes.c"
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g); d = os.path.join(ROOT, g["ID"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in g["EDITS"]:
            p = os.path.join(w, "r", f); t = open(p, newline="").read()
            if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (f, old, t.count(old)); open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]); open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally: shutil.rmtree(w)
    open(os.path.join(d, "demo.c"), "w").write(g["DEMO"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# run in the repository: 0 if the library behaves, non-zero otherwise
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
%sgcc -O2 -w %s -I. -o "$w/demo" "$d/demo.c" %s -lpthread && timeout 250 "$w/demo"
''' % (g.get("PRE", ""), g.get("FLAGS", ""), g.get("SOURCES", SRC)))
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(g["ID"])
