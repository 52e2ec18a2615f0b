"""C15 fresh randomness in every signature."""
import json, ctypes as C
from ..core import Violation, hx
from .. import drv as D, tlc as T, sched as S
LEVEL = "model_checking"
_K = {}
def keys(L, seed):
    if seed not in _K: _K[seed] = L.keys(D.rng("c15k", seed).randbytes(160))
    return _K[seed]
def nonce(sm): return sm[2486:2526]

def runs(c):
    cfg = "SPECIFICATION Spec\nCONSTANTS Procs={1,2} Need=2 Calls=%d Variant=\"%s\"\nINVARIANT Complete\nINVARIANT FreshIds\nINVARIANT Disjoint\n%sCHECK_DEADLOCK FALSE\n"
    r = T.check(c.scratch, "machines/Fresh.tla", cfg % (c.pick(1, 2), "spec", ""), workers=8); c.model(r)
    for v in ("shared", "keep"):
        r = T.run(c.scratch, "machines/Fresh.tla", cfg % (2, v, ""), workers=4)
        if r.code == 0 or "is violated" not in r.out: raise T.TlcError("the wrong design %s is not rejected" % v)
    r = T.check(c.scratch, "machines/Fresh.tla", cfg % (1, "spec", "INVARIANT Emit\n"), workers=1); c.model(r)
    one = T.check(c.scratch, "machines/Fresh.tla", (cfg % (c.pick(3, 4), "spec", "INVARIANT Emit\n")).replace("{1,2}", "{1}"), workers=1); c.model(one)
    return [json.loads(x) for x in sorted({json.dumps(json.loads(json.loads(l[2:-2].split(",", 1)[1].strip()))) for q in (r, one) for l in q.lines("RUN")})]

def calls_of(h):
    """per thread: list of calls, each a list of draws (bytes, or None for a failure)"""
    out = {}
    for p, op, k in h:
        cs = out.setdefault(p, [])
        if op == "begin": cs.append([])
        elif op == "draw": cs[-1].append(20 * k)
        elif op == "fail": cs[-1].append(None)
    return out

def replay(L, it):
    hs, seed = it; ev = []
    for hi, h in enumerate(hs):
        pk, sk = keys(L, seed % 4); r = D.rng("c15", seed, hi, repr(h)); seen = []
        def mk(draws, m, stream):
            def f(L, job):
                L.rng(stream, [-5 if d is None else d for d in draws]); job.hook()
                rc, o, n = L.sign("c", m, sk)
                return rc, o.bytes(), n, L.delivered(), stream, m, draws
            return f
        calls = {p: [mk(d, r.randbytes(r.randrange(1, 65)), r.randbytes(120)) for d in cs] for p, cs in calls_of(h).items()}
        order = [p for p, op, k in h if op in ("begin", "draw", "fail")]
        res = S.Sched(L, calls).run(order); case = {"history": h, "seed": seed}
        for p, rs in res.items():
            for rc, sm, n, dl, stream, m, draws in rs:
                cs = dict(case, thread=p, rng=hx(stream), m=hx(m), draws=draws)
                if None in draws:
                    if rc == 0: raise Violation("compact signing succeeded although a random draw failed", cs)
                    continue
                if rc != 0: raise Violation("compact signing failed with %d" % rc, cs)
                if dl != 40: raise Violation("compact signing drew %d random bytes" % dl, cs)
                if nonce(sm) != stream[:40]: raise Violation("the nonce is not the 40 bytes drawn by this call (thread %s)" % p, dict(cs, nonce=hx(nonce(sm))))
                if nonce(sm) in seen: raise Violation("nonce reused", cs)
                seen.append(nonce(sm))
                if hi % 16 == 0: ev.append(D.ev_csign(m, sk, stream, sm))
    return len(hs), ev

def bulk(L, it):
    """many signatures in one process with one continuing stream: nonce i is bytes 40i..40i+39 of it"""
    seed, n = it; r = D.rng("c15b", it); pk, sk = keys(L, seed % 4); stream = r.randbytes(40 * n + 64); script = []
    while len(script) < 3 * n: script.append(r.choice((-4, 1, 3, 8, 16, 39, 40, 40, 40, 40)))
    L.rng(stream, script); at = 0; m = r.randbytes(20)
    for i in range(n):
        if i % 3 == 0: m = r.randbytes(r.randrange(1, 65))
        before = L.delivered(); rc, o, ln = L.sign("c", m, sk); sm = o.bytes(); k = L.delivered() - before
        case = {"i": i, "m": hx(m), "rng": hx(stream[at:at + 80])}
        if rc != 0: raise Violation("signing failed with %d" % rc, case)
        if k != 40 or nonce(sm) != stream[at:at + 40]: raise Violation("signature %d of a sequence: the nonce is not the 40 bytes drawn (%d drawn)" % (i, k), dict(case, nonce=hx(nonce(sm))))
        at += k
        if i % 7 == 0:      # an interleaved failed call must not disturb the next nonce
            L.rng(r.randbytes(40), [r.randrange(40), -5] if r.random() < .5 else [-5]); rc2, _, _ = L.sign("c", m, sk)
            if rc2 == 0: raise Violation("signing succeeded although the random draw failed", case)
            L.rng(stream[at:], script[i % len(script):])
    return n

def full(L, it):
    """full mode: randomised SPHINCS+ part, deterministic other parts"""
    seed, k = it; r = D.rng("c15f", it); pk, sk = keys(L, seed % 4); m = r.randbytes(1 + (k * 7) % 64); out = []; f = D.fields("f", len(m))
    streams = [r.randbytes(64), r.randbytes(64)]; streams.append(D.flip(streams[0], r.randrange(256)))
    for st in streams:
        L.rng(st, [] if k % 2 else [1, -4, 20]); rc, o, n = L.sign("f", m, sk); sm = o.bytes(); case = {"m": hx(m), "rng": hx(st), "seed": seed}
        if rc != 0: raise Violation("full signing failed with %d" % rc, case)
        if L.delivered() != 32: raise Violation("full signing drew %d random bytes instead of 32" % L.delivered(), case)
        out.append((sm, st))
    a = out[0][0]
    for sm, st in out[1:]:
        for p in ("ed", "dil", "msg"):
            if D.get(sm, f[p]) != D.get(a, f[p]): raise Violation("the %s part of a full signature is not a function of key and message" % p, case)
        if D.get(sm, f["sph"])[:32] == D.get(a, f["sph"])[:32]: raise Violation("different random bytes give the same SPHINCS+ randomiser", case)
    return [D.ev_fsign(m, sk, st, sm) for sm, st in out]

def component(L, it):
    """the component signature function is randomised in the same way"""
    k, = it; r = D.rng("c15s", k); pk, sk = keys(L, 1); m = r.randbytes(1 + 11 * k); st = r.randbytes(40)
    L.rng(st); rc, o, n = L.s_signature(m, sk[3936:])
    if rc != 0 or L.delivered() != 32: raise Violation("SPHINCS+ signing drew %d random bytes (rc %d)" % (L.delivered(), rc), {"m": hx(m)})
    return dict(op="ssign", ok=True, m=hx(m), sk=hx(sk[3936:]), rnd=hx(st[:32]), sig=hx(o.bytes()))

def check(c):
    so = c.lib()
    hs = runs(c); c.log(len(hs), "interleavings from TLC")
    if len(hs) < 300: raise T.TlcError("too few interleavings")
    c.sample({"history": hs[len(hs) // 2]})
    if len(hs) > c.pick(4000, 40000): hs = c.rnd.sample(hs, c.pick(4000, 40000))
    res = c.pmap(replay, [(hs[i:i + 50], c.seed) for i in range(0, len(hs), 50)], so=so)
    if c.viol: return
    c.traces(sum(x[0] for x in res)); ev = [e for x in res for e in x[1]]
    n = c.pick(400, 4000); res = c.pmap(bulk, [(c.seed * 100 + k, n) for k in range(c.pick(8, 32))], so=so); c.count("sequence_signatures", sum(x or 0 for x in res))
    if c.viol: return
    res = c.pmap(full, [(c.seed + k, k) for k in range(c.pick(12, 80))], so=so)
    if c.viol: return
    ev = c.rnd.sample(ev, min(len(ev), c.pick(120, 1000))); ev += [e for x in res for e in x]
    res = c.pmap(component, [(k,) for k in range(c.pick(2, 12))], so=so)
    if not c.viol: c.conform(ev + [e for e in res if e], "signatures with recorded randomness")
