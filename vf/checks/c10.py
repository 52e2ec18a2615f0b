"""C10 the device fallback of the random-byte function."""
import json, tempfile, ctypes as C
from ..core import Violation, hx
from ..lib import Crash
from .. import drv as D, tlc as T
LEVEL = "model_checking"
OPS = ["openu", "ioctl", "fopen", "openr", "poll", "scan", "read", "close", "bad"]
BADS = {1: "opened an unexpected path", 2: "ran out of descriptors", 3: "closed a descriptor that was not open", 4: "ioctl on a closed descriptor", 5: "unexpected ioctl", 6: "polled something else than the open /dev/random", 7: "read from something else than the open /dev/urandom", 8: "opened an unexpected file"}
class Ev(C.Structure): _fields_ = [("op", C.c_int64), ("arg", C.c_int64), ("res", C.c_int64), ("err", C.c_int64)]

def execute(L, n, hist, stream, real=False):
    d = L.dll; d.vu_realmode(1 if real else 0); d.vu_log.restype = C.POINTER(Ev); d.vu_n.restype = C.c_size_t
    d.vu_reset.argtypes = [C.c_void_p, C.c_size_t]; d.vu_script.argtypes = [C.c_int, C.c_void_p, C.c_size_t]
    sb = C.create_string_buffer(stream, len(stream)); d.vu_reset(C.addressof(sb), len(stream))
    for i, op in enumerate(OPS[:7]):
        v = [x[1] for x in hist if x[0] == op]
        if v: a = (C.c_int64 * len(v))(*v); d.vu_script(i, C.addressof(a), len(v))
    p = d.vf_guard(n, 0)
    case = {"n": n, "script": hist[:200]}
    try:
        d.vf_set_errno(D.rng("errno", n, repr(hist)).choice((0, 4, 11, 5)))      # a stale errno of the caller
        try: rc = L.call("vu_randombytes", p, n, ms=20000)
        except Crash as x: raise Violation("fallback for %d bytes crashed or did not return in bounded time: %s" % (n, x), case)
        data = C.string_at(p, n); front = C.string_at(p - 64, 64) if n % 4096 <= 4032 and n % 4096 else b"\xc3" * 64
    finally: d.vf_unguard(p, n, 0)
    if front != b"\xc3" * 64: raise Violation("fallback wrote before its buffer", case)
    lg = d.vu_log(); ev = [dict(op=OPS[lg[i].op], arg=lg[i].arg, res=lg[i].res, err=lg[i].err) for i in range(d.vu_n())]
    for e in ev:
        if e["op"] == "bad": raise Violation("fallback " + BADS.get(e["arg"], "made an unexpected call"), dict(case, calls=ev[:60]))
    return rc, data, ev, d.vu_open()

def judge(n, hist, stream, rc, data, ev, left, want):
    case = {"n": n, "script": hist[:200], "rc": rc, "calls": ev[:80]}
    if left: raise Violation("fallback returned %d with %d files left open" % (rc, left), case)
    if want is not None and (rc == 0) != want: raise Violation("fallback for %d bytes returned %d under OS behaviour %s" % (n, rc, hist), case)
    if rc == 0 and data != stream[:n]: raise Violation("fallback returned 0 but the buffer is not the bytes read from the device", case)

def small(L, part):
    out = []
    for n, ret, hist in part:
        stream = D.rng("c10", n, repr(hist)).randbytes(n + 16)
        rc, data, ev, left = execute(L, n, hist, stream); judge(n, hist, stream, rc, data, ev, left, ret == "ok")
        out.append(dict(n=n, ev=ev + [dict(op="ret", arg=0, res=rc, err=0)]))
        if real_ok(hist): out.append(real_run(L, n, hist, stream, ret == "ok"))
    return out

def real_ok(hist): return any(x[0] == "scan" for x in hist) and not any(x[0] == "scan" and x[1] < 0 for x in hist)
def real_run(L, n, hist, stream, ok):
    """the same behaviour with the entropy count in a real file"""
    rc, data, ev, left = execute(L, n, hist, stream, real=True); judge(n, hist, stream, rc, data, ev, left, ok)
    return dict(n=n, ev=ev + [dict(op="ret", arg=0, res=rc, err=0)])

def large(L, it):
    """long random OS behaviours"""
    n, seed, style = it; r = D.rng("c10l", it); h = []; ok = True
    def fatal(op):
        h.append((op, -r.choice((5, 12, 13, 24) if op not in ("scan",) else (5, 1000, 1001)))); return False
    def phase():
        for _ in range(r.choice((0, 0, 1, 7))): h.append(("openu", -4))
        if style == "fail" and r.random() < .1: return fatal("openu")
        h.append(("openu", 0))
        proc = r.random() < .5
        if proc: h.append(("ioctl", -r.choice((25, 38))))
        else:
            if style == "fail" and r.random() < .1: return fatal("ioctl")
            v = r.choice((0, 1, 64, 127, 128, 129, 256, 4096)); h.append(("ioctl", v))
            if v >= 128: return True
        if proc:
            if style == "fail" and r.random() < .1: return fatal("fopen")
            h.append(("fopen", 0))
        for _ in range(r.choice((0, 0, 1, 7))): h.append(("openr", -4))
        if style == "fail" and r.random() < .1: return fatal("openr")
        h.append(("openr", 0))
        for _ in range(300):
            while r.random() < (.6 if style == "storm" else .2): h.append(("poll", -r.choice((4, 11))))
            if style == "fail" and r.random() < .1: return fatal("poll")
            h.append(("poll", 1)); op = "scan" if proc else "ioctl"
            while proc and r.random() < .3: h.append((op, -4))
            if style == "fail" and r.random() < .1: return fatal(op)
            v = r.choice((0, 1, 9, 10, 99, 100, 127, 127, 126, 128, 4096) if r.random() < .5 else (0, 127, 3)); h.append((op, v))
            if v >= 128: return True
        h.append((op, 0)); h.append(("poll", 1)); h.append((op, 128)); return True
    ok = phase(); got = 0
    while ok and got < n and len(h) < 900:
        if r.random() < (.6 if style == "storm" else .1): h.append(("read", -r.choice((4, 11)))); continue
        if style == "fail" and r.random() < .2:
            h.append(("read", r.choice((0, -5, -9)))); ok = False; break
        k = r.choice((1, n - got, max(1, n - got - 1), r.randrange(1, n - got + 1))); h.append(("read", k)); got += k
    stream = r.randbytes(n + 16); rc, data, ev, left = execute(L, n, h, stream); judge(n, h, stream, rc, data, ev, left, ok)
    return [dict(n=n, ev=ev + [dict(op="ret", arg=0, res=rc, err=0)])] + ([real_run(L, n, h, stream, ok)] if real_ok(h) else [])

def validate(c, traces):
    p = tempfile.mktemp(dir=c.scratch, suffix=".ndjson")
    with open(p, "w") as f:
        for t in traces: f.write(json.dumps(t) + "\n")
    r = T.check(c.scratch, "machines/UrandomTrace.tla", "SPECIFICATION TSpec\nINVARIANT FullDelivery\nINVARIANT NoLeak\nINVARIANT EntropyFirst\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=1)
    c.model(r); done = {int(l[2:-2].split(",")[1]) for l in r.lines("DONE")}; k = 0
    for i, t in enumerate(traces):
        if i + 1 not in done and k < 3: k += 1; c.violation("recorded execution of the fallback is not allowed by UrandomAbs", {"trace": {"n": t["n"], "ev": t["ev"][:100]}})
    c.traces(len(traces))

def check(c):
    so = c.lib(harness=("shim.c", "api.c", "urandom.c"))
    r = T.check(c.scratch, "machines/Urandom.tla", "SPECIFICATION Spec\nCONSTANTS MaxN=%d MaxRetry=%d Fatal={%s}\nINVARIANT FullDelivery\nINVARIANT NoLeak\nINVARIANT EntropyFirst\nINVARIANT Emit\nPROPERTY Refines\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % (3, c.pick(2, 3), c.pick("5", "5,24")), workers=1)
    c.model(r); sc = set()
    for l in r.lines("RUN"):
        a = l[2:-2].split(",", 3); sc.add((int(a[1]), a[2].strip().strip('"'), json.dumps(json.loads(json.loads(a[3].strip())))))
    sc = [(n, x, [tuple(y) for y in json.loads(h)]) for n, x, h in sorted(sc)]
    c.log(len(sc), "complete OS behaviours from TLC")
    if len(sc) < 1000: raise T.TlcError("too few behaviours")
    c.sample({"behaviour": sc[len(sc) // 2]})
    res = c.pmap(small, [sc[i:i + 200] for i in range(0, len(sc), 200)], so=so)
    if c.viol: return
    its = [(n, c.seed + k, st) for n in (0, 1, 2, 7, 16, 32, 40, 96, 160, 255, 256, 257, 1000, 4096, 4097, 65537) for st in ("plain", "fail", "storm") for k in range(c.pick(12, 120))]
    res2 = c.pmap(large, its, so=so, chunk=8)
    if c.viol: return
    tr = [t for x in res2 for t in x]; sm = [t for x in res for t in x]
    if not c.thorough: sm = c.rnd.sample(sm, min(len(sm), 3000))
    c.traces(len(sc)); validate(c, tr + sm)
