"""C13 the SHAKE-based seed expander is a deterministic prefix-consistent stream."""
import json, ctypes as C
from ..core import Violation, hx
from ..lib import Out, inbuf
from .. import drv as D, tlc as T
LEVEL = "model_checking"

def wrapper(L, seed, n, sl=None):
    b = inbuf(seed) if seed is not None else None; o = Out(n)
    rc = L.call("vf_prng_wrapper", b if b is not None else 0, len(seed) if sl is None else sl, o.addr, n)
    return rc, o, (b is None or b.raw[:len(seed)] == seed)

def stream(L, it):
    """the first n stream bytes from the one-shot wrapper, as an event for TLC"""
    seed, n = it; rc, o, same = wrapper(L, seed, n); case = {"seed": hx(seed), "n": n}
    if rc != 0: raise Violation("wrapper failed with %d for seed length %d and output length %d" % (rc, len(seed), n), case)
    if not o.canary_ok() or not same: raise Violation("wrapper wrote outside its output", case)
    return dict(op="prng", ok=True, seed=hx(seed), out=hx(o.bytes()))

class St:
    def __init__(s, L): s.b = C.create_string_buffer(int(L.dll.vf_prng_size()) + 64); s.live = False

def behaviour(L, it):
    """replays request sequences of the Prng machine on two interleaved states"""
    seedlen, key, ref, hs = it
    seeds = [D.rng("c13s", key, seedlen, k).randbytes(seedlen) for k in (1, 2)]; ref = [bytes.fromhex(x) for x in ref]
    for h in hs:
        st = [St(L), St(L)]; which = [0, 1]; live0 = L.dll.vf_live(); case = {"seeds": [hx(x) for x in seeds], "requests": h}
        for k in (0, 1): L.call("vf_prng_init", st[k].b, inbuf(seeds[k]), seedlen, void=True)
        for s, n, p in h:
            if s == 0:
                L.call("vf_prng_release", st[1].b, void=True)
                L.call("vf_x_clone", 1, st[1].b, st[0].b); which[1] = which[0]; continue
            o = Out(n); L.call("vf_prng_next", st[s - 1].b, o.addr, n, void=True)
            if not o.canary_ok(): raise Violation("a request for %d bytes wrote outside its output" % n, case)
            if o.bytes() != ref[which[s - 1]][p:p + n]: raise Violation("request of %d bytes after %d stream bytes does not return the next part of the stream" % (n, p), dict(case, got=hx(o.bytes()), want=hx(ref[which[s - 1]][p:p + n])))
        for k in (0, 1): L.call("vf_prng_release", st[k].b, void=True)
        if L.dll.vf_live() != live0: raise Violation("released seed expander states leave %d heap blocks" % (L.dll.vf_live() - live0), case)
    return len(hs)

def invalid(L, it):
    sl, ol, nul = it; r = D.rng("c13i", it); seed = r.randbytes(max(sl, 1)); o = Out(max(ol, 1)); b = inbuf(seed)
    rc = L.call("vf_prng_wrapper", 0 if "s" in nul else b, sl, 0 if "o" in nul else o.addr, ol); case = {"seedlen": sl, "outlen": ol, "null": nul, "rc": rc}
    ok = sl >= 32 and ol > sl and not nul
    if (rc == 0) != ok: raise Violation("wrapper(seed length %d, output length %d, NULL: %s) returned %d" % (sl, ol, nul or "none", rc), case)
    if not o.canary_ok(): raise Violation("wrapper wrote outside its output", case)
    if not ok and not o.untouched(): raise Violation("wrapper failed but wrote output", case)
    if ok:
        if not (rc2 := wrapper(L, seed, ol + 64))[0] == 0 or rc2[1].bytes(ol) != o.bytes(ol): raise Violation("wrapper outputs of different lengths are not prefixes of one stream", case)
    return 1

def runs(c, sizes, depth, word=8, rate=136, full=False):
    r = T.check(c.scratch, "machines/Prng.tla", "SPECIFICATION Spec\nCONSTANTS Word=%d Rate=%d Sizes={%s} Depth=%d Full=%s\nINVARIANT Consecutive\nINVARIANT WordAligned\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (word, rate, ",".join(map(str, sizes)), depth, str(full).upper()), workers=8 if full else 1)
    c.model(r); return sorted({json.dumps(json.loads(json.loads(l[2:-2].split(",", 1)[1].strip()))) for l in r.lines("RUN")})

def check(c):
    so = c.lib()
    runs(c, range(0, c.pick(8, 10)), c.pick(3, 4), 2, 6, True); runs(c, range(0, 8), 3, 2, 4, True)
    hs = runs(c, (0, 1, 7, 8, 9, 128, 130, 136, 137), c.pick(3, 4)) + runs(c, (3, 120, 136, 264, 272, 273), 3) + runs(c, (5, 16, 24), 5)
    c.log(len(hs), "request sequences from TLC")
    if len(hs) < 3000: raise T.TlcError("too few behaviours")
    hs = [json.loads(h) for h in hs]; c.sample({"requests [state, bytes, position]": hs[len(hs) // 2]})
    lens = [32, 33, 39, 40, 48, 64, 96, 127, 134, 135, 136, 137, 150, 160, 200, 271, 272, 273, 500]
    its = []; evs = []
    for key, sl in enumerate(lens): its += [(D.rng("c13s", key, sl, k).randbytes(sl), 2048) for k in (1, 2)]
    # every output length just above and every seed length
    for n in range(33, c.pick(700, 1500)): its.append((D.rng("c13o", n).randbytes(32), n))
    for sl in range(32, c.pick(300, 700)): its.append((D.special_seed(D.rng("c13l", sl), sl, sl % 4), sl + 1 + sl % 19))
    ev = c.pmap(stream, its, so=so, chunk=16)
    if c.viol: return
    ref = {(k, sl): [ev[2 * k]["out"], ev[2 * k + 1]["out"]] for k, sl in enumerate(lens)}
    bi = []
    for i in range(0, len(hs), 100):
        k = (i // 100) % len(lens); bi.append((lens[k], k, ref[k, lens[k]], hs[i:i + 100]))
    # long random histories
    r = c.rnd
    for k, sl in enumerate(lens):
        hh = []
        for _ in range(c.pick(20, 200)):
            pos = [0, 0]; h = []
            while len(h) < 60:
                if r.random() < .05: h.append([0, 0, 0]); pos[1] = pos[0]; continue
                s = r.randrange(2); n = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 40, 135, 136, 137, r.randrange(200)))
                if pos[s] + n > 2000: break
                h.append([s + 1, n, pos[s]]); pos[s] += -(-n // 8) * 8
            hh.append(h)
        bi.append((sl, k, ref[k, sl], hh))
    res = c.pmap(behaviour, bi, so=so); c.traces(sum(x or 0 for x in res))
    if c.viol: return
    g = [(sl, ol, nul) for nul in ("", "s", "o", "so") for sl in (0, 1, 8, 16, 30, 31, 32, 33, 63, 64, 65, 128, 255, 256, 300, 1000) for ol in sorted({0, 1, 31, 32, 33, 63, 64, 65, 255, 256, 257, 512, sl, sl + 1, max(sl - 1, 0), sl + 7, sl + 256})]
    g += [(sl, ol, "") for sl in range(0, 70) for ol in range(0, 75)]
    c.pmap(invalid, g, so=so, chunk=64); c.traces(len(g)); c.count("wrapper_arguments", len(g))
    if not c.viol: c.conform([e for e in ev if e], "streams")
