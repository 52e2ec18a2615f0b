"""C09 randombytes delivers exactly n OS-random bytes or an error."""
import json, os, tempfile, ctypes as C
from ..core import Violation, hx
from ..lib import Crash
from .. import drv as D, tlc as T
LEVEL = "model_checking"
EINTR = -4
FNS = ("vf_randombytes", "vs_randombytes")         # through the C library's function; making the system call itself

def runs(c, maxn, limit, maxintr, errnos):
    r = T.check(c.scratch, "machines/RandomBytes.tla", "SPECIFICATION Spec\nCONSTANTS MaxN=%d Limit=%d MaxIntr=%d Errnos={%s}\nINVARIANT NoShortSuccess\nINVARIANT InBounds\nINVARIANT Emit\nPROPERTY ProgressKept\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n" % (maxn, limit, maxintr, ",".join(map(str, errnos))), workers=1)
    c.model(r); out = set()
    for l in r.lines("RUN"):
        a = l[2:-2].split(",", 3); out.add((int(a[1]), a[2].strip().strip('"'), json.loads(a[3].strip())))
    return sorted(out)

def execute(L, n, script, stream, guard=True, fn="vf_randombytes"):
    """one real execution; returns (rc, bytes, calls)"""
    L.rng(stream, script)
    p = L.dll.vf_guard(n, 0); q = None
    try:
        rc = L.call(fn, p, n)
        data = C.string_at(p, n)
        before = C.string_at(p - 64, 64) if n % 4096 <= 4032 and n % 4096 else None
        if before is not None and before != b"\xc3" * 64: raise Violation("randombytes(%d) wrote before its buffer" % n, {"n": n, "script": script})
    finally:
        L.dll.vf_unguard(p, n, 0)
    if rc == 0 and L.dll.vf_rng_unseeded(): raise Violation("randombytes(%d) accepts bytes of a generator that has not been seeded" % n, {"n": n, "script": script[:60]})
    return rc, data, [(q - p, l, r, e) for q, l, r, e in L.rng_log()], L.delivered()

def judge(n, script, stream, rc, data, log, delivered, want_ok):
    case = {"n": n, "script": script, "rc": rc, "calls": [(l, r, e) for _, l, r, e in log[:50]]}
    if rc and log and log[-1][2] == 0: return          # gave up after a delivery of nothing
    if (rc == 0) != want_ok: raise Violation("randombytes(%d) returned %d under OS behaviour %s" % (n, rc, script), case)
    if rc == 0:
        if delivered != n: raise Violation("randombytes(%d) drew %d bytes" % (n, delivered), case)
        if data != stream[:n]: raise Violation("randombytes(%d): the buffer is not the delivered byte sequence" % n, dict(case, data=hx(data), stream=hx(stream[:n])))

def small(L, it):
    for n, pc, hist in it:
        h = json.loads(hist) if isinstance(hist, str) else hist
        stream = D.rng("c09", n, hist).randbytes(n + 16)
        rc, data, log, dl = execute(L, n, h, stream)
        judge(n, h, stream, rc, data, log, dl, pc == "ok")
        judge(n, h, stream, *execute(L, n, h, stream, fn="vs_randombytes"), pc == "ok")     # the variant that makes the system call itself
    return len(it)

def large(L, it):
    """random OS behaviour at realistic sizes; returns the recorded traces for TLC"""
    n, seed, style, fn = it; r = D.rng("c09l", n, seed, style); out = []
    script = []; got = 0; fail = False
    while got < n and len(script) < 3000:
        x = r.random()
        if style == "intr" and x < .5 or x < .1: script.append(EINTR if r.random() < .8 else 0); continue
        if style == "fail" and x > .9: script.append(-r.choice((5, 14, 22, 38, 1, 12))); fail = True; break
        lim = min(n - got, 33554431)
        k = r.choice((1, lim, max(1, lim - 1), r.randrange(1, lim + 1), min(lim, 256))) if style != "whole" else lim
        k = max(1, min(k, lim)); script.append(k); got += k
    if style == "storm": script = [EINTR] * 2500 + script
    stream = r.randbytes(min(n + 16, 1 << 20)) if n < (1 << 20) else r.randbytes(1 << 20)
    rc, data, log, dl = execute(L, n, script, stream, fn=fn)
    case = {"n": n, "script": script[:60], "rc": rc}
    if n < 1 << 20: judge(n, script, stream, rc, data, log, dl, not fail)
    full = (stream * (n // len(stream) + 1))[:n]
    if n >= 1 << 20:
        if (rc == 0) == fail and not (rc and log[-1][2] == 0): raise Violation("randombytes(%d) returned %d" % (n, rc), case)
        if rc == 0 and data != full: raise Violation("randombytes(%d): the buffer is not the delivered byte sequence" % n, case)
    return trace(n, log, 0, rc == 0, rc != 0 or data == full)

def pair(x): return [x >> 24, x & 0xffffff]
def trace(n, log, p, ok, match):
    return dict(n=pair(n), calls=[dict(len=pair(min(l, 1 << 50)), off=pair((q - p) & ((1 << 50) - 1)), ret=(r if r >= 0 else -e)) for q, l, r, e in log], ok=ok, match=match, seeded=True)
def giant(L, it):
    """requests beyond 4 GiB; the OS delivers as scripted without touching memory"""
    n, script, fn = it; L.rng(b"", script); L.dll.vf_rng_dry(1); p = L.dll.vf_zeros(n)
    try: rc = L.call(fn, p, n)
    finally: L.dll.vf_rng_dry(0); L.dll.vf_unmap(p, n)
    log = L.rng_log(); fail = any(x < 0 and x != EINTR for x in script); case = {"n": n, "script": script, "rc": rc, "calls": [(l, r, e) for _, l, r, e in log[:20]]}
    if (rc == 0) == fail: raise Violation("randombytes(%d) returned %d" % (n, rc), case)
    if rc == 0 and L.delivered() != n: raise Violation("randombytes(%d) drew %d bytes" % (n, L.delivered()), case)
    return trace(n, log, p, rc == 0, True) if L.dll.vf_rng_ncalls() <= 4096 else None

def trace_check(c, traces):
    p = tempfile.mktemp(dir=c.scratch, suffix=".ndjson")
    with open(p, "w") as f:
        for t in traces: f.write(json.dumps(t) + "\n")
    r = T.check(c.scratch, "machines/RandomTrace.tla", "SPECIFICATION Spec\nINVARIANT InBounds\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=4)
    c.model(r); done = {int(l[2:-2].split(",")[1]) for l in r.lines("DONE")}
    for i, t in enumerate(traces):
        if i + 1 not in done: c.violation("recorded randombytes(%d) execution is not a behaviour of RandomBytes" % (t["n"][0] << 24 | t["n"][1]), {"trace": {**t, "calls": t["calls"][:50]}})
    c.traces(len(traces))

def check(c):
    so = c.lib(harness=("shim.c", "api.c", "rawsys.c"))
    sc = runs(c, c.pick(6, 8), 4, 2, (5, 38)) + runs(c, 4, 8, 4, (14,))
    c.log(len(sc), "complete OS behaviours from TLC")
    if len(sc) < 200: raise T.TlcError("too few behaviours")
    c.sample({"behaviour": sc[len(sc) // 2]})
    res = c.pmap(small, [sc[i:i + 100] for i in range(0, len(sc), 100)], so=so); c.traces(sum(x or 0 for x in res))
    if c.viol: return
    its = []
    sizes = [1, 2, 7, 8, 9, 16, 20, 31, 32, 33, 40, 64, 96, 100, 160, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 100000]
    for n in sizes:
        for style in ("whole", "short", "intr", "fail", "storm"):
            for k in range(c.pick(2, 12)): its.append((n, c.seed + k, style))
    for n in range(1, 300): its.append((n, c.seed, "short"))
    for n in (33554430, 33554431, 33554432, 33554433) + c.pick((), (2 * 33554431, 2 * 33554431 + 1, 3 * 33554431 - 1)): its += [(n, c.seed, "whole"), (n, c.seed, "short"), (n, c.seed, "intr")]
    its = [(*x, fn) for x in its for fn in FNS]
    res = c.pmap(large, its, so=so)
    if c.viol: return
    res += c.pmap(giant, [(n, s, fn) for fn in FNS for n in (2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 160, 2**33 + 7, 100 * 33554431, 2**35 + 12345) for s in ([], [33554431] * 5 + [1, 7, -4, 33554430, -4, 100], [-4, 2, 3, 5000000], [33554431] * 60 + [-5], [7] * 3 + [-38])], so=so)
    if not c.viol: trace_check(c, [t for t in res if t and len(t["calls"]) < 4000])
