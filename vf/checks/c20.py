"""C20 statelessness: every call gives what it gives alone in a fresh process, whatever ran before, runs beside or inside it."""
import os, json, struct, subprocess, ctypes as C, concurrent.futures as cf
from ..core import Violation, hx, lib
from .. import drv as D, tlc as T, sched as S, build as B, calls as K
LEVEL = "model_checking"
MACH = "machines/Calls.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS Procs={%s} Calls=%d Variant="%s" Nested=%s Kinds={%s}\nINVARIANT Alone\n%sCHECK_DEADLOCK FALSE\n'
DRAWING = ["key", "keylate", "csign", "csignshort", "csignlate", "randomshort", "randomfail", "edkey", "dkey", "boxkey"]
SMALL = ["keyseed", "csign", "csignfail", "copenrej", "keyshort"]
HEAVY = {"fsign", "ssign"}
HOOK = C.CFUNCTYPE(None)
_CALLS = {}; _ALONE = {}        # world -> kind -> call / its result alone; inherited by the workers

def cfg(procs, calls, variant="spec", nested=False, kinds=(), emit=True):
    return CFG % (",".join(map(str, procs)), calls, variant, str(nested).upper(), ",".join('"%s"' % k for k in kinds), "INVARIANT Emit\n" if emit else "VIEW View\n")
def runs(r): return [json.loads(x) for x in sorted({json.dumps(json.loads(json.loads(l[2:-2].split(",", 1)[1].strip()))) for l in r.lines("RUN")})]
def models(c):
    jobs = [("hist", cfg([1], 2)), ("inter", cfg([1, 2], 1, kinds=DRAWING)), ("nest", cfg([1, 2], 1, nested=True))]
    jobs += [("prove", cfg([1, 2], c.pick(2, 3), kinds=SMALL[:c.pick(3, 3)], emit=False))]
    if c.thorough: jobs += [("hist3", cfg([1], 3)), ("prove2", cfg([1, 2, 3], 1, kinds=SMALL, emit=False))]
    wrong = [(v, cfg([1, 2], 2, v, kinds=SMALL, emit=False)) for v in ("static", "rndstatic", "sticky", "cache")]
    with cf.ThreadPoolExecutor(6) as ex:
        a = {n: ex.submit(T.check, c.scratch, MACH, t, workers=1 if n[:4] in ("hist", "inte", "nest") else 4, heap="4g") for n, t in jobs}
        b = {n: ex.submit(T.run, c.scratch, MACH, t, workers=2, heap="2g") for n, t in wrong}
        for n, f in b.items():
            if "Invariant Alone is violated" not in f.result().out: raise T.TlcError("the wrong design %s is not rejected" % n)
        for f in a.values(): c.model(f.result())
        return {n: runs(f.result()) for n, f in a.items() if n[:5] != "prove"}

def world(L, it): return K.table(L, *it)
def alone(L, it):
    w, kind = it; call = _CALLS[w][kind]; r = K.fresh(L, lambda: call.run(L, K.Arena()))
    return r
def expect(w, kind, got, how, **case):
    if got != _ALONE[w][kind]:
        e = _ALONE[w][kind]; what = got[1] if got[0] == "crash" else "input modified" if got[0] == "input modified" else "another outcome" if got[0] != e[0] else "another result"
        raise Violation("%s %s: %s than alone in a fresh process" % (kind, how, what), dict(case, call=_CALLS[w][kind].case(), alone=str(e)[:2000], got=str(got)[:2000]))

def histories(L, it):
    """sequences of calls at the same addresses in one process, with arbitrary errno on entry"""
    hs, seed = it; r = D.rng("c20h", seed, len(hs)); ar = K.Arena(); n = 0; trail = []
    for h in hs:
        w = r.randrange(len(_CALLS))
        for i, k in enumerate(h):
            ww = w ^ (i & 1) if r.random() < .8 else r.randrange(len(_CALLS)); L.dll.vf_entry_errno(r.choice((0, 4, 11, 5, 22)))
            trail = trail[-5:] + [(k, ww)]; got = _CALLS[ww][k].run(L, ar); n += 1
            expect(ww, k, got, "after other calls", history=trail)
    L.dll.vf_entry_errno(0)
    return n
def repeat(L, it):
    """many calls of one kind: no counter or pool inside the library shows"""
    kind, n = it; ar = K.Arena(); r = D.rng("c20r", kind)
    for i in range(n):
        w = r.randrange(len(_CALLS)); expect(w, kind, _CALLS[w][kind].run(L, ar), "at repetition %d" % i)
    return n
def interleave(L, hs):
    for h in hs:
        ks = {p: k for p, k in h if k not in ("draw", "ret")}; r = D.rng("c20i", repr(h)); w = {p: r.randrange(len(_CALLS)) for p in ks}
        def mk(p, k):
            def f(L, job):
                ar = K.Arena(); return _CALLS[w[p]][k].run(L, ar, hook=job.hook)
            return f
        order = [p for p, k in h if k != "ret"]
        res = S.Sched(L, {p: [mk(p, k)] for p, k in ks.items()}).run(order)
        for p, k in ks.items(): expect(w[p], k, res[p][0], "interleaved with %s in another thread" % ks[3 - p], schedule=h)
    return len(hs)

class Nest:
    """runs call B inside call A: at a draw of randomness, or at the n-th basic block"""
    def __init__(self, L, ka, wa, kb, wb):
        self.L = L; self.ka, self.wa, self.kb, self.wb = ka, wa, kb, wb; self.a, self.b = K.Arena(), K.Arena(); self.got = None; self.cb = HOOK(self.inside)
    def inside(self):
        if self.got is not None: return
        L = self.L; L.dll.vf_rng_push.restype = C.c_void_p; L.dll.vf_rng_pop.argtypes = [C.c_void_p]; s = L.dll.vf_rng_push(); keep = dict(L._keep); ms, L.timeout_ms = L.timeout_ms, 0
        try: self.got = _CALLS[self.wb][self.kb].run(L, self.b)
        finally: L.timeout_ms = ms; L.dll.vf_rng_pop(s); L._keep.update(keep)
    def draw(self, at):
        L = self.L; n = [0]
        def hook():
            n[0] += 1
            if n[0] == at: self.inside()
        h = HOOK(hook)
        def arm(): L.dll.vf_rng_hook.argtypes = [C.c_void_p]; L.dll.vf_rng_hook(C.cast(h, C.c_void_p))
        return _CALLS[self.wa][self.ka].run(L, self.a, hook=arm)
    def block(self, at):
        L = self.L; L.dll.vf_nest_arm.argtypes = [C.c_uint64, C.c_void_p]
        r = _CALLS[self.wa][self.ka].run(L, self.a, hook=lambda: L.dll.vf_nest_arm(at, C.cast(self.cb, C.c_void_p))); L.dll.vf_nest_off(); return r
    def judge(self, res, where):
        how = "interrupted %s by %s" % (where, self.kb)
        expect(self.wa, self.ka, res, how)
        if self.got is not None: expect(self.wb, self.kb, self.got, "run %s of %s" % (where, self.ka))
def reenter(L, hs):
    n = 0
    for h in hs:
        ka, kb = h[0][1], next((k for p, k in h if p == 2), None); at = 0
        for p, k in h:
            if p == 2: break
            at += k == "draw"
        if kb is None or at == 0: continue        # not at a draw: covered by the basic-block exploration
        r = D.rng("c20n", repr(h)); x = Nest(L, ka, r.randrange(len(_CALLS)), kb, r.randrange(len(_CALLS))); x.judge(x.draw(at), "at random draw %d" % at); n += 1
    return n

class Pt(C.Structure): _fields_ = [(k, C.c_uint64) for k in ("pc", "first", "last", "count", "some")]
def points(L, it):
    """the basic blocks a call executes: address -> (first, last and a random occurrence)"""
    kind, w = it
    def f():
        L.dll.vf_nest_points.restype = C.POINTER(Pt); L.dll.vf_nest_count.restype = C.c_uint64; L.dll.vf_nest_record.argtypes = [C.c_uint64]
        res = _CALLS[w][kind].run(L, K.Arena(), hook=lambda: L.dll.vf_nest_record(w * 77 + 1)); n = L.dll.vf_nest_count(); L.dll.vf_nest_off(); t = L.dll.vf_nest_points(); base = C.cast(L.dll.vf_nest_off, C.c_void_p).value
        return res, n, [(t[i].pc - base, t[i].first, t[i].last, t[i].some) for i in range(16384) if t[i].pc]
    r = K.fresh(L, f)
    if r[0] == "crash": raise Violation("%s in the instrumented build: %s" % (kind, r[1]), _CALLS[w][kind].case())
    expect(w, kind, r[0], "in the instrumented build")
    return r[1], r[2]
def preempt(L, its):
    """one process per experiment, so that first-use paths are interrupted too; every second one is warmed up first"""
    for ka, wa, kb, wb, at, warm in its:
        def f():
            if warm: _CALLS[wb][ka].run(L, K.Arena())
            x = Nest(L, ka, wa, kb, wb); res = x.block(at); return res, x.got
        r = K.fresh(L, f); case = dict(block=at, inner=_CALLS[wb][kb].case(), warm=warm)
        if r[0] == "crash": raise Violation("%s interrupted inside by %s: %s" % (ka, kb, r[1]), dict(case, call=_CALLS[wa][ka].case()))
        expect(wa, ka, r[0], "interrupted inside by %s" % kb, **case)
        if r[1] is not None: expect(wb, kb, r[1], "run inside %s" % ka, block=at, outer=_CALLS[wa][ka].case())
    return len(its)

def pack(items):
    out = [struct.pack("<Q", len(items))]
    for w, k in items:
        c = _CALLS[w][k]; ok, n, outs = _ALONE[w][k]; outs = list(outs)
        out.append(bytes([len(c.f)]) + c.f.encode() + bytes([c.f in K.VOID, ok]) + struct.pack("<Q", len(c.stream)) + c.stream + struct.pack("<Q", len(c.script)) + struct.pack("<%dq" % len(c.script), *c.script) + bytes([len(c.args)]))
        for a in c.args:
            if a[0] == "val": out.append(b"\0" + struct.pack("<QQQ", a[1], 0, 0))
            elif a[0] == "in": out.append(b"\1" + struct.pack("<QQQ", len(a[1]), 0, len(a[1])) + a[1])
            elif a[0] == "len": v = struct.pack("<Q", n) if ok else b""; out.append(b"\3" + struct.pack("<QQQ", 8, len(v), len(v)) + v)
            else: v = outs.pop(0) if ok else b""; out.append(b"\2" + struct.pack("<QQQ", a[1], len(v), len(v)) + v)
    return b"".join(out)
def threads(c, exe, name, items, nt, rounds):
    p = os.path.join(c.scratch, name + ".calls"); open(p, "wb").write(pack(items))
    r = subprocess.run([exe, p, str(nt), str(rounds)], capture_output=True, text=True, timeout=800, env=dict(os.environ, TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0"))
    if r.returncode == 2: raise RuntimeError(r.stderr[-2000:])
    if r.returncode:
        l = next((l for l in r.stderr.splitlines() if l.startswith("THREADS") or "SUMMARY" in l), "exit %d" % r.returncode)
        c.violation("concurrent calls (%s build, %d threads): %s" % (name, nt, l.strip()), {"report": r.stderr[-4000:]})
    c.count("threaded_calls_" + name, len(items) * nt * rounds)

def check(c):
    global _CALLS, _ALONE
    ex = cf.ThreadPoolExecutor(4)
    ns = ex.submit(B.build, c.scratch, "nest", opt="-O1", repo_flags=("-fsanitize-coverage=trace-pc",), harness=("shim.c", "api.c", "nest.c"))
    so = c.lib(); fm = ex.submit(models, c)
    ts = ex.submit(B.build_exe, c.scratch, "tsan", cc="clang", flags=("-g", "-fsanitize=thread"), harness=("threads.c", "api.c"), link=("-rdynamic", "-ldl", "-Wl,--wrap=getrandom"))
    pl = ex.submit(B.build_exe, c.scratch, "plain", opt="-O3", harness=("threads.c", "api.c"), link=("-rdynamic", "-ldl", "-Wl,--wrap=getrandom"))
    nw = c.pick(4, 8); t = c.pmap(world, [(c.seed, w) for w in range(nw)], so=so)
    if c.viol: return
    _CALLS = dict(enumerate(t)); kinds = sorted(_CALLS[0]); items = [(w, k) for k in kinds for w in range(nw)]
    res = c.pmap(alone, items, so=so)
    if c.viol: return
    for (w, k), r in zip(items, res): _ALONE.setdefault(w, {})[k] = r
    h = fm.result(); km = T.check(c.scratch, MACH, cfg([1], 1, kinds=["shake"], emit=False) + "POSTCONDITION KindTable\n", workers=1).lines("KINDS")
    km = json.loads(json.loads(km[0][2:-2].split(",", 1)[1].strip()))
    if sorted(km) != kinds: raise T.TlcError("kinds differ: %s" % (set(km) ^ set(kinds)))
    for (w, k), r in zip(items, res):
        if r[0] not in (True, False): return c.violation("%s alone in a fresh process: %s" % (k, r[1]), _CALLS[w][k].case())
        if r[0] == km[k][1]: return c.violation("%s alone in a fresh process %s" % (k, "succeeds" if r[0] else "fails"), _CALLS[w][k].case())
    c.log(len(h["hist"]), "histories,", len(h["inter"]), "interleavings,", len(h["nest"]), "re-entries from TLC;", len(items), "calls alone")
    if len(h["hist"]) < 2000 or len(h["inter"]) < 500 or len(h["nest"]) < 3000: raise T.TlcError("too few scenarios")
    c.sample({"history": h["hist"][7]}); c.sample({"schedule": h["inter"][99]}); c.sample({"re-entry": h["nest"][500]})
    hs = [[k for p, k in x if k not in ("draw", "ret")] for x in h["hist"]]; c.rnd.shuffle(hs)
    if not c.thorough: hs = [x for x in hs if not HEAVY & set(x) or c.rnd.random() < .2]
    if c.thorough: h3 = [[k for p, k in x if k not in ("draw", "ret")] for x in h["hist3"]]; h3 = [x for x in h3 if not HEAVY & set(x)]; c.rnd.shuffle(h3); hs += h3[:60000]
    n = c.pmap(histories, [(hs[i::64], c.seed * 64 + i) for i in range(64)], so=so)
    if c.viol: return
    c.count("history_calls", sum(n)); c.traces(len(hs)); c.log(sum(n), "calls in", len(hs), "histories")
    n = c.pmap(repeat, [(k, c.pick(150, 3000) if not k in HEAVY | {"skey", "skeyseed", "keyseed", "key", "keyshort", "fopen", "fverify", "sverify", "sverifyrej", "fopenrej", "fverifyrej", "fsignfail"} else c.pick(10, 200)) for k in sorted(kinds, key=lambda k: k not in HEAVY)], so=so); c.count("repeated_calls", sum(x or 0 for x in n))
    if c.viol: return
    hi = h["inter"]; hi = c.rnd.sample(hi, min(len(hi), c.pick(1500, 100000)))
    n = c.pmap(interleave, [hi[i:i + 40] for i in range(0, len(hi), 40)], so=so)
    if c.viol: return
    c.count("interleavings", sum(n)); c.traces(sum(n)); c.log(sum(n), "interleavings")
    hn = [x for x in h["nest"] if len(x) > 3]
    if not c.thorough: hn = [x for x in hn if not (HEAVY & {k for p, k in x if p == 2}) or c.rnd.random() < .05]
    n = c.pmap(reenter, [hn[i::64] for i in range(64)], so=so)
    if c.viol: return
    c.count("re_entries", sum(n)); c.traces(sum(n)); c.log(sum(n), "re-entries at draws")
    # every basic block of the library as a preemption point
    nso = ns.result(); res = c.pmap(points, [(k, 0) for k in kinds], so=nso)
    if c.viol: return
    best = {}
    for k, (n, ps) in sorted(zip(kinds, res), key=lambda x: x[1][0]):
        for pc, f, l, s in ps: best.setdefault(pc, []).append((n, k, f, l, s))
    exps = []; cost = dict(zip(kinds, [n for n, _ in res])); cheap = [k for k in kinds if cost[k] < 400000]
    for pc, v in best.items():
        n, k, f, l, s = v[0]; heavy = n > 3000000
        for j, at in enumerate(sorted({f, l, s}) if not heavy or c.thorough else [c.rnd.choice((f, l, s))]): exps.append((k, 0, k, 1, at, (pc + j) % 2 == 1))
        n, k, f, l, s = c.rnd.choice([x for x in v if x[0] < 3000000] or v[:1])
        if n < 3000000: exps.append((k, 0, k, 1, s, False)); exps.append((k, 0, c.rnd.choice(cheap), c.rnd.randrange(1, nw), s, pc % 2 == 0))
        if c.thorough:
            for n, k, f, l, s in v[:8]: exps.append((k, 0, c.rnd.choice(kinds), c.rnd.randrange(1, nw), s, pc % 2 == 0)); exps.append((k, 0, k, 1, c.rnd.randrange(1, n + 1), pc % 2 == 1))
    exps.sort(key=lambda e: -cost[e[0]]); c.log(len(best), "basic blocks,", len(exps), "preemptions")
    if len(best) < 500: raise RuntimeError("too few basic blocks seen")
    n = c.pmap(preempt, [exps[i::200] for i in range(200)], so=nso)
    if c.viol: return
    c.count("basic_blocks", len(best)); c.count("preemptions", len(exps)); c.traces(len(exps)); c.log("preemptions done")
    it = [(w, k) for w in (0, 1) for k in kinds if k not in HEAVY] + [(0, k) for k in sorted(HEAVY)]
    threads(c, pl.result(), "plain", it, 8, c.pick(3, 200)); c.log("plain threads"); threads(c, ts.result(), "tsan", [x for x in it if x[1] not in HEAVY or c.thorough], 3, c.pick(2, 8)); c.log("tsan threads"); ex.shutdown()
    ev = [e for e in (K.event(_CALLS[w][k], _ALONE[w][k]) for w, k in items if w < c.pick(1, 4)) if e]; c.conform(ev, "results alone")
    c.assumptions.append("preemption points are the basic blocks of the compiled code; accesses between two of them are covered by the race detector only")
