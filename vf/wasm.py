"""The code under test on wasm32: clang/wasm-ld build with a minimal C library, run under node (harness/wasm)."""
import os, json, subprocess, concurrent.futures as cf
from . import build as B
W = os.path.join(B.HARNESS, "wasm")

def build(outdir, opt="-O1", api=True, only=None):
    """compiles the repository's sources and its WASM layer as Emscripten would see them; returns the path of the module"""
    d = os.path.join(outdir, "wasm.o.d"); os.makedirs(d, exist_ok=True)
    fl = ["clang", "--target=wasm32", opt, "-std=gnu11", "-w", "-DNDEBUG", "-D__EMSCRIPTEN__", "-fno-builtin", "-I" + os.path.join(W, "include"), "-isystem", os.path.join(W, "libc"), "-I" + B.REPO]
    src = [os.path.join(B.REPO, s) for s in only] + [os.path.join(W, "libc.c")] if only else [os.path.join(B.REPO, s) for s in B.sources()] + [os.path.join(B.REPO, "wasm/hybrid-pqc.c"), os.path.join(W, "libc.c")] + ([os.path.join(B.HARNESS, "api.c")] if api else [])
    obj = [os.path.join(d, s.replace("/", "_") + ".o") for s in src]
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: B.run(fl + (["-O0"] if j[0].endswith("wasm/hybrid-pqc.c") else []) + ["-c", j[0], "-o", j[1]]), zip(src, obj)))
    out = os.path.join(outdir, "lib.wasm"); B.run(["wasm-ld", "--no-entry", "--export-all", "--allow-undefined", "-z", "stack-size=4194304", *obj, "-o", out]); return out

def run(scratch, module, recs, tag="w", workers=8, timeout=800):
    """runs the records in several node processes; results in order"""
    res = [None] * len(recs)
    def part(k):
        idx = list(range(k, len(recs), workers))
        if not idx: return
        a, b = (os.path.join(scratch, "%s.%d.%s" % (tag, k, x)) for x in ("in", "out"))
        with open(a, "w") as f:
            for i in idx: f.write(json.dumps(recs[i]) + "\n")
        p = subprocess.run(["node", os.path.join(W, "driver.js"), module, a, b], capture_output=True, text=True, timeout=timeout)
        if p.returncode: raise RuntimeError("node: " + p.stderr[-2000:])
        for i, l in zip(idx, open(b)): res[i] = json.loads(l)
    with cf.ThreadPoolExecutor(workers) as ex: list(ex.map(part, range(workers)))
    return res
