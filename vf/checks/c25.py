"""C25 randomness on Windows, BSD and WASI: random/randombytes.c built for them, against a scripted system."""
import os, json, ctypes as C
from ..core import Violation, hx
from ..lib import Crash
from .. import drv as D, tlc as T, build as B
LEVEL = "model_checking"
MACH = "machines/Platform.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS MaxN=%d Limit=%d Sources=%d Variant="%s"\nINVARIANTS FullDelivery AllReleased%s\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'
OPS = ["prim", "open", "acq", "gen", "rel", "bad"]; BADS = {1: "asked for bytes outside the buffer", 2: "used arc4random()", 3: "passed an invalid handle to BCryptGenRandom", 4: "closed what was not open", 5: "used a provider that is not open", 6: "released a provider that is not open"}
LIM = 0xffffffff; SPARSE = 4096; WIN = 1 << 26
NOLINUX = ["-U__linux__", "-U__linux", "-Ulinux", "-U__gnu_linux__"]; NOUNIX = ["-U__unix__", "-U__unix", "-Uunix"]
PLATS = {"windows": NOLINUX + NOUNIX + ["-D_WIN32"], "bsd": NOLINUX + ["-DBSD=199506", "-DVF_PLAT_ARC4"], "wasi": NOLINUX + NOUNIX + ["-D__wasi__", "-DVF_PLAT_ARC4"]}
class Ev(C.Structure): _fields_ = [("op", C.c_int64), ("off", C.c_uint64), ("len", C.c_uint64), ("ok", C.c_int64)]
_SO = {}
def built(c, plat):
    d = os.path.join(B.HARNESS, "plat"); so = os.path.join(c.scratch, plat + ".so")
    B.run(["gcc", "-std=gnu11", "-w", "-O2", "-fPIC", "-shared", "-DNDEBUG", "-I" + d, "-I" + B.REPO, *PLATS[plat], '-DVF_SOURCE="%s"' % os.path.join(B.REPO, "random/randombytes.c"), os.path.join(d, "plat.c"), "-o", so]); return so
_DLL = {}
def dll(so):
    k = (os.getpid(), so)
    if k not in _DLL:
        d = C.CDLL(so); d.vp_log.restype = C.POINTER(Ev); d.vp_n.restype = C.c_size_t; d.vp_reset.argtypes = [C.c_void_p, C.c_size_t, C.c_size_t]; d.vp_script.argtypes = [C.c_int, C.c_void_p, C.c_size_t]; d.vp_val.argtypes = [C.c_size_t, C.c_size_t]; d.vp_val.restype = C.c_uint8; _DLL[k] = d
    return _DLL[k]

def script(hist, how):
    """outcomes per system call; how: what a failed request leaves behind (0 nothing, -1 half of it)"""
    out = {}
    for ch in hist:
        op = {"p": 0, "a": 2, "g": 3, "r": 4}[ch.lower()]; out.setdefault(op, []).append(1 if ch.islower() else how if op in (0, 3) else 0)
    return out
def one(L, it):
    plat, n, sc, huge = it; d = dll(_SO[plat]); case = {"platform": plat, "n": n, "script": {OPS[k]: v for k, v in sc.items()}}
    p = L.dll.vf_wrapmap(n, WIN) if huge else L.dll.vf_guard(n, 0)
    if not p: raise RuntimeError("no memory")
    try:
        if not huge: C.memset(p, 0xa5, n)
        d.vp_reset(p, n, SPARSE if huge else 0)
        for op, v in sc.items(): a = (C.c_int8 * len(v))(*v); d.vp_script(op, C.addressof(a), len(v))
        L._fn["vp_run"] = C.cast(d.vp_run, C.c_void_p).value
        try: rc = L.call("vp_run", p, n, ms=120000)
        except Crash as x: raise Violation("randomness on %s for %d bytes crashed or hung: %s" % (plat, n, x), case)
        k = d.vp_n(); lg = d.vp_log(); ev = [dict(op=OPS[lg[i].op], off=lg[i].off, len=lg[i].len, ok=lg[i].ok) for i in range(min(k, 4096))]; case["calls"] = ev[:60]; case["rc"] = rc
        if k > 4096: raise Violation("randomness on %s makes more than 4096 system calls for %d bytes" % (plat, n), case)
        for e in ev:
            if e["op"] == "bad": raise Violation("randomness on %s %s" % (plat, BADS.get(e["ok"], "made an unexpected call")), case)
        if not huge:
            got = C.string_at(p, n)
            if rc == 0:
                im = [None] * n
                for i, e in enumerate(ev):
                    if e["op"] in ("prim", "gen") and e["ok"]:
                        for x in range(e["len"]): im[e["off"] + x] = d.vp_val(i, x)
                if any(a is not None and a != b for a, b in zip(im, got)): raise Violation("randomness on %s returned 0 but the buffer is not what the system delivered" % plat, case)
        elif rc == 0 and ev:
            last = {}
            for i, e in enumerate(ev):
                if e["op"] in ("prim", "gen") and e["ok"] and e["len"] > 2 * SPARSE: last = (i, e)
            if last and C.string_at(p + last[1]["off"] + last[1]["len"] - 64, 64) != bytes(d.vp_val(last[0], last[1]["len"] - 64 + x) for x in range(64)): raise Violation("randomness on %s returned 0 but the end of the buffer is not what the system delivered" % plat, case)
    finally:
        if huge: L.dll.vf_unmap(p, n)
        else: L.dll.vf_unguard(p, n, 0)
    pair = lambda x: [x >> 24, x & 0xffffff]
    return dict(plat=plat, n=pair(n), rc=rc, ev=[dict(op=e["op"], off=pair(e["off"]), len=pair(e["len"]), ok=bool(e["ok"])) for e in ev])

def check(c):
    global _SO
    so = c.lib(); runs = []; _SO = {p: built(c, p) for p in PLATS}; r = D.rng("c25", c.seed)
    m2 = T.check(c.scratch, MACH, CFG % (5, 2, 2, "spec", " Emit"), workers=1, heap="1g"); m1 = T.check(c.scratch, MACH, CFG % (5, 2, 1, "spec", " Emit"), workers=1, heap="1g"); c.model(m1); c.model(m2)
    for v in ("narrow", "leak", "mixed", "deaf"):
        if "is violated" not in T.run(c.scratch, MACH, CFG % (5, 2, 2, v, ""), workers=2, heap="1g").out: raise T.TlcError("the wrong design %s is not rejected" % v)
    beh = {p: sorted({tuple(l.strip('"').split()[1:]) for l in m.out.splitlines() if l.startswith('"RUN ')}) for p, m in (("windows", m2), ("bsd", m1), ("wasi", m1))}
    def size(k, small): return (k // 2) * LIM + (k % 2) * small
    for p, bs in beh.items():
        for b in bs:
            k = int(b[0]); h = b[2] if len(b) > 2 else ""
            for how in (0, -1):
                if k < 2: runs += [(p, size(k, s), script(h, how), False) for s in (1, 7, 64, 4096, 5000)]
                elif p == "windows" or how == 0: runs.append((p, size(k, 1 if how else 40), script(h, how), True))
        # the same outcomes, whatever sizes of request the code chooses
        runs += [(p, s, script(h, w), False) for s in (0, 2, 31, 160, 65537) for h in ("p", "Pagr", "PAr", "PagR", "PaGr", "pP", "PagGr") if p == "windows" or h == "p" for w in (0, -1)]
    if not c.thorough: hs = [x for x in runs if x[3]]; r.shuffle(hs); runs = [x for x in runs if not x[3]] + sorted(hs, key=lambda x: x[1])[:6] + hs[:2]
    runs += [("windows", x, script(h, 0), True) for x, h in ((LIM, "p"), (LIM + 1, "p"), (LIM + 2, "P"), (LIM + 17, "p"), (2 * LIM + 1, "p"), (LIM + 1, "P"))]
    runs.sort(key=lambda x: -x[1]); rec = c.pmap(one, runs, so=so, workers=8)
    if c.viol: return
    p = os.path.join(c.scratch, "plat.ndjson")
    with open(p, "w") as f:
        for x in rec: f.write(json.dumps(x) + "\n")
    t = T.run(c.scratch, "machines/PlatformTrace.tla", "SPECIFICATION Spec\nINVARIANT Reached\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=1, heap="4g")
    if not t.ok or not t.lines("END"): raise T.TlcError("PlatformTrace: exit %d\n%s" % (t.code, t.out[-3000:]))
    c.model(t); c.traces(len(rec)); c.count("huge_requests", sum(x[3] for x in runs)); c.count("failures", sum(x["rc"] != 0 for x in rec))
    for l in t.lines("BAD")[:5]:
        i = int(l.strip("<>").split(",")[1]) - 1; x = rec[i]
        c.violation("randomness on %s for %d bytes returned %d: not a behaviour of the specification (bytes not covered by the system's answers, a provider left open, or a failure without cause)" % (x["plat"], runs[i][1], x["rc"]), {"run": runs[i], "record": x})
    for x in rec[:3]: c.sample(x)
    c.assumptions.append("the Windows, BSD and WASI functions behave as the stand-ins of harness/plat (32-bit counts, provider handles, arc4random_buf fills everything)")
