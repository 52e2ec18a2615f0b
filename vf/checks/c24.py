"""C24 allocation failure: a call that is refused memory stops the process, fails, or gives the undisturbed result."""
import os, json, pickle, signal, select, time, traceback, ctypes as C
from ..core import Violation, hx, lib
from .. import drv as D, tlc as T, calls as K
LEVEL = "model_checking"
MACH = "machines/Oom.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS Needs=4 Variant="%s"\nINVARIANTS FailClosed NoFault%s\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'
WRONG = ("ignore", "skip", "accept", "late")
CTX = {"ctx%d" % k: k for k in range(7)}                    # kinds of incremental and block contexts (harness/api.c)
_CALLS = {}; _ALONE = {}; _N = {}

class Ctx:
    """a use of a hash context: two contexts, one a clone, absorbed, finished and squeezed"""
    def __init__(self, k, seed): self.k = k; self.d = D.rng("c24x", k, seed).randbytes(500)
    def case(self): return {"context kind": self.k, "data": hx(self.d)}
    def run(self, L, ar, rng=True, hook=None):
        k = self.k; sz = int(L.dll.vf_x_size()) + 64; a, b = C.create_string_buffer(sz), C.create_string_buffer(sz); i = C.create_string_buffer(self.d, 500); o = [C.create_string_buffer(700) for _ in range(2)]
        if hook: hook()
        try:
            if k < 5:
                L.call("vf_x_init", k, a); L.call("vf_x_absorb", k, a, i, 100); L.call("vf_x_clone", k, b, a); L.call("vf_x_absorb", k, a, i, 300); L.call("vf_x_absorb", k, b, i, 500)
                for x, y in ((a, o[0]), (b, o[1])): L.call("vf_x_finalize", k, x, y)
                if k < 2:
                    for x, y in ((a, o[0]), (b, o[1])): L.call("vf_x_squeeze", k, x, y, 333)
                    L.call("vf_x_release", k, a); L.call("vf_x_release", k, b)
            else:
                L.call("vf_x_absorb", k, a, i, 400); L.call("vf_x_clone", k, b, a)
                for x, y in ((a, o[0]), (b, o[1])): L.call("vf_x_squeeze", k, x, y, 3); L.call("vf_x_release", k, x)
        except K.Crash as e: return ("crash", str(e))
        return (True, None, [x.raw for x in o])

def table(seed, L):
    t = K.table(L, seed, 0); t.update({n: Ctx(k, seed) for n, k in CTX.items()}); return t
def child(f, timeout=60):
    """f() in a forked copy: ("stopped", status) | ("died", signal) | ("hung",) | its value"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 7
        try:
            os.close(r); v = f()
            with os.fdopen(w, "wb") as h: h.write(pickle.dumps(("value", v)))
            code = 0
        except BaseException:
            with os.fdopen(w, "wb") as h: h.write(pickle.dumps(("error", traceback.format_exc())))
        finally: os._exit(code)
    os.close(w); d = b""; end = time.time() + timeout; hung = False
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]: hung = True; os.kill(pid, signal.SIGKILL); break
        x = os.read(r, 1 << 20)
        if not x: break
        d += x
    os.close(r); _, st = os.waitpid(pid, 0)
    if hung: return ("hung",)
    if d:
        v = pickle.loads(d)
        if v[0] == "error": raise RuntimeError(v[1])
        return v
    return ("died", os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ("stopped", os.WEXITSTATUS(st))

def undisturbed(L, it):
    seed, kind = it; call = _CALLS[seed][kind]
    def f():
        r = call.run(L, K.Arena(), hook=lambda: L.dll.vf_alloc_plan(None, 0, 0)); return r, L.dll.vf_alloc_no()
    v = child(f)
    if v[0] != "value" or v[1][0][0] == "crash": raise Violation("%s does not complete: %r" % (kind, v[:2]), {"call": call.case()})
    return v[1]
def disturbed(L, it):
    """one call with the given allocations refused -> a record for OomTrace.tla"""
    seed, kind, bad, dead = it; call = _CALLS[seed][kind]; plan = (C.c_int64 * max(1, len(bad)))(*bad)
    def f():
        r = call.run(L, K.Arena(), hook=lambda: L.dll.vf_alloc_plan(C.addressof(plan), len(bad), dead)); n = L.dll.vf_alloc_failed(); L.dll.vf_alloc_plan(None, 0, 0); return r, n
    v = child(f); rec = {"kind": kind, "good": _ALONE[seed][kind][0] is True, "refused": 1, "same": False, "out": "", "bad": list(bad), "dead": dead, "how": ""}
    if v[0] == "value":
        (r, n), = v[1:]; rec["refused"] = n
        if r[0] == "crash": rec["out"] = "stopped" if "signal %d " % signal.SIGABRT in r[1] else "died"; rec["how"] = r[1]
        elif r[0] == "input modified": rec["out"] = "died"; rec["how"] = "input modified"
        else: rec["out"] = "ok" if r[0] else "failed"; rec["same"] = r == _ALONE[seed][kind]
    elif v[0] == "stopped": rec["out"] = "stopped" if v[1] else "died"; rec["how"] = "exit status %d" % v[1]
    else: rec["out"] = "died"; rec["how"] = repr(v)
    return rec

def check(c):
    global _CALLS, _ALONE, _N
    so = c.lib()
    r = T.check(c.scratch, MACH, CFG % ("any", " Emit"), workers=1, heap="1g"); c.model(r); pats = sorted({l.split()[1].strip('"') for l in r.out.splitlines() if l.startswith('"PAT ')})
    for v in WRONG:
        if "is violated" not in T.run(c.scratch, MACH, CFG % (v, ""), workers=2, heap="1g").out: raise T.TlcError("the wrong design %s is not rejected" % v)
    for v in ("stop", "error", "cope"): c.model(T.check(c.scratch, MACH, CFG % (v, ""), workers=2, heap="1g"))
    if len(pats) != 15: raise T.TlcError("patterns: %r" % pats)
    L = lib(so); seeds = [c.seed * 10 + i for i in range(c.pick(1, 4))]
    for s in seeds: _CALLS[s] = table(s, L)
    items = [(s, k) for s in seeds for k in sorted(_CALLS[s])]; res = c.pmap(undisturbed, items, so=so)
    if c.viol: return
    for (s, k), v in zip(items, res): _ALONE.setdefault(s, {})[k] = v[0]; _N.setdefault(s, {})[k] = v[1]
    runs = []
    for s, k in items:
        n = _N[s][k]; q = D.rng("c24", s, k)
        if not n: continue
        pos = lambda i: {0: 1, 1: min(2, n), 2: q.randrange(3, n) if n > 3 else n, 3: n}[i]
        for p in pats:
            bad = sorted({pos(i) for i in range(4) if p[i] == "n"}); runs.append((s, k, tuple(bad), 0))
            if p[3] == "n": i = len(p.rstrip("n")); runs.append((s, k, tuple(x for x in bad if x < pos(i)), pos(i)))
        lim = c.pick(120, 600) if n < 3000 else c.pick(24, 150); some = range(1, n + 1) if n <= lim else sorted({1 + int((n - 1) * q.random()) for _ in range(lim - 20)} | {1 + x for x in range(10)} | {n - x for x in range(10)})
        runs += [(s, k, (x,), 0) for x in some]
    runs = sorted(set(runs), key=lambda x: -(x[2][0] if x[2] else x[3])); c.log(len(runs), "plans of refusals for", len({x[1] for x in runs}), "kinds of call")
    if len({x[1] for x in runs}) < 5: c.assumptions.append("the library hardly allocates memory")
    rec = c.pmap(disturbed, runs, so=so, chunk=8)
    if c.viol: return
    if not rec: return
    p = os.path.join(c.scratch, "oom.ndjson")
    with open(p, "w") as f:
        for x in rec: f.write(json.dumps(x) + "\n")
    t = T.run(c.scratch, "machines/OomTrace.tla", "SPECIFICATION Spec\nINVARIANT Reached\nPROPERTY Agree\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=1, heap="4g")
    if not t.ok or not t.lines("END"): raise T.TlcError("OomTrace: exit %d\n%s" % (t.code, t.out[-3000:]))
    c.model(t); c.traces(len(rec))
    for o in ("stopped", "failed", "ok"): c.count("outcome_" + o, sum(x["out"] == o for x in rec))
    for l in t.lines("BAD")[:5]:
        x = rec[int(l.strip("<>").split(",")[1]) - 1]; s = runs[rec.index(x)][0]
        c.violation("%s with allocation %s refused: %s" % (x["kind"], x["bad"] or "from %d on" % x["dead"], x["how"] if x["out"] == "died" else "reports success without the undisturbed result"), {"call": _CALLS[s][x["kind"]].case(), "record": x})
    for x in rec[:3]: c.sample(x)
