"""C14 SHA-3/SHAKE: any chunking, cloning or interleaving equals the standard function."""
import json, ctypes as C
from ..core import Violation, hx
from ..lib import Out, inbuf
from .. import drv as D, tlc as T
LEVEL = "model_checking"
# kind, name, rate, digest length (None: extendable), one-shot function
K = {0: ("shake128", 168, None, "vf_shake128"), 1: ("shake256", 136, None, "vf_shake256"), 2: ("sha3-256", 136, 32, "vf_sha3_256"),
     3: ("sha3-384", 104, 48, "vf_sha3_384"), 4: ("sha3-512", 72, 64, "vf_sha3_512"), 5: ("shake128", 168, None, "vf_shake128"), 6: ("shake256", 136, None, "vf_shake256")}

def oneshot(L, k, x, n):
    name, rate, dl, fn = K[k]; o = Out(n if dl is None else dl); b = inbuf(x)
    if dl is None: L.call(fn, o.addr, n, b, len(x), void=True)
    else: L.call(fn, o.addr, b, len(x), void=True)
    case = {"alg": name, "in": hx(x), "outlen": n}
    if not o.canary_ok(): raise Violation("%s wrote outside its output" % name, case)
    if b.raw[:len(x)] != x: raise Violation("%s modified its input" % name, case)
    return o.bytes()

def shots(L, it):
    """one-shot results for TLC"""
    out = []
    for k, x, n in it:
        name, rate, dl, fn = K[k]; live = L.dll.vf_live()
        o = oneshot(L, k, x, n)
        if L.dll.vf_live() != live: raise Violation("%s leaves heap blocks behind" % name, {"in": hx(x)})
        out.append(dict(op="hash", alg=name, **{"in": hx(x)}, out=hx(o)))
    return out

class Ctx:
    def __init__(s, L): s.b = C.create_string_buffer(int(L.dll.vf_x_size()) + 64); s.inp = b""; s.pos = 0; s.ph = None; s.ref = None

def run(L, k, h, key, size):
    """replays a history of the Sponge machine; size maps abstract sizes to byte counts.  Expected output from the one-shot function"""
    name, rate, dl, fn = K[k]; r = D.rng("c14", key, k); case = {"alg": name, "kind": k, "history": h}
    live = L.dll.vf_live(); cx = {}
    def mk(x):
        c = Ctx(L); L.call("vf_x_init", k, c.b); c.ph = "abs"; cx[x] = c
    for x in (1, 2): mk(x)
    log = []
    for op, x, n in h:
        c = cx[x]; n = size(n)
        if op == "a":
            d = r.randbytes(n); b = inbuf(d); L.call("vf_x_absorb", k, c.b, b, n); c.inp += d
        elif op == "f":
            if dl is None: L.call("vf_x_finalize", k, c.b, 0); c.ph = "sq"
            else:
                o = Out(dl); L.call("vf_x_finalize", k, c.b, o.addr); c.ph = "dead"
                if not o.canary_ok(): raise Violation("%s finalize wrote outside its digest" % name, case)
                if o.bytes() != oneshot(L, k, c.inp, dl): raise Violation("incremental %s of a chunked input differs from the one-shot digest" % name, dict(case, **{"in": hx(c.inp)}))
        elif op == "s":
            if c.ph != "sq": continue
            o = Out(n); L.call("vf_x_squeeze", k, c.b, o.addr, n)
            if not o.canary_ok(): raise Violation("%s squeeze wrote outside its output" % name, case)
            if c.ref is None or len(c.ref) < c.pos + n: c.ref = oneshot(L, k, c.inp, max(2048, c.pos + n))
            if o.bytes() != c.ref[c.pos:c.pos + n]: raise Violation("incremental %s squeeze of %d bytes after %d differs from the one-shot output" % (name, n, c.pos), dict(case, **{"in": hx(c.inp)}))
            c.pos += n
        elif op == "c":
            a, z = cx[1], cx[2]
            if a.ph == "dead": continue
            if z.ph != "dead": L.call("vf_x_release", k, z.b)
            L.call("vf_x_clone", k, z.b, a.b); z.inp, z.pos, z.ph, z.ref = a.inp, a.pos, a.ph, a.ref
    for c in cx.values():
        if c.ph != "dead": L.call("vf_x_release", k, c.b)
    if L.dll.vf_live() != live: raise Violation("%s contexts leave %d heap blocks after release" % (name, L.dll.vf_live() - live), case)

def sized(rate, q=4):
    m = {0: 0, 1: 1, 2: rate // 2, 3: rate - 1}
    return lambda n: (n // q) * rate + m[n % q]

def replay(L, it):
    k, hs, key = it
    for j, h in enumerate(hs): run(L, k, h, (key, j), sized(K[k][1]))
    return len(hs)

def rand(L, it):
    """long random histories in bytes"""
    k, key = it; r = D.rng("c14r", it); rate = K[k][1]
    def sz(): return r.choice((0, 1, 2, 3, 7, 8, 9, rate - 9, rate - 8, rate - 1, rate, rate + 1, 2 * rate, 2 * rate - 1, r.randrange(3 * rate), r.randrange(16)))
    for _ in range(6):
        h = []; ph = {1: "abs", 2: "abs"}
        for _ in range(r.choice((3, 8, 20))):
            x = r.choice((1, 1, 2)); h.append(("a", x, sz()))
            if r.random() < .2 and ph[1] == "abs": h.append(("c", 1, 0))
        for x in (1, 2): h.append(("f", x, 0))
        if K[k][2] is None:
            for _ in range(r.choice((3, 8, 20))):
                x = r.choice((1, 2)); h.append(("s", x, sz()))
                if r.random() < .15: h.append(("c", 1, 0))
        run(L, k, h, it, lambda n: n)
    return 6

def blocks(L, it):
    """block interface: absorb once, squeeze whole blocks in any partition, with clones in between"""
    k, n, key = it; name, rate, _, fn = K[k]; r = D.rng("c14b", it); x = r.randbytes(n); live = L.dll.vf_live()
    a, b = Ctx(L), Ctx(L); L.call("vf_x_absorb", k, a.b, inbuf(x), n); pos = {1: 0, 2: None}
    ref = oneshot(L, k, x, 24 * rate); c = {1: a, 2: b}; part = []
    for _ in range(8):
        w = r.randrange(4)
        if w == 0 and pos[2] is None: L.call("vf_x_clone", k, b.b, a.b); pos[2] = pos[1]; continue
        i = 2 if pos[2] is not None and r.random() < .5 else 1; m = r.choice((0, 1, 1, 2, 3))
        o = Out(m * rate); L.call("vf_x_squeeze", k, c[i].b, o.addr, m); part.append((i, m))
        if not o.canary_ok(): raise Violation("%s block squeeze wrote outside its output" % name, {"in": hx(x), "blocks": part})
        if o.bytes() != ref[pos[i]:pos[i] + m * rate]: raise Violation("%s blocks differ from the one-shot output" % name, {"in": hx(x), "blocks": part})
        pos[i] += m * rate
    L.call("vf_x_release", k, a.b)
    if pos[2] is not None: L.call("vf_x_release", k, b.b)
    if L.dll.vf_live() != live: raise Violation("%s block contexts leave heap blocks after release" % name, {"in": hx(x)})
    return 1

BIG = (1 << 32) + 1000003
def huge(L, it):
    """inputs and outputs beyond 4 GiB: whole or in parts; returns the digest"""
    k, how = it; name, rate, dl, fn = K[k]; n = BIG; z = None; ms = 600000
    if how == "one":
        z = L.dll.vf_zeros(n); o = Out(dl or 64)
        if dl is None: L.call(fn, o.addr, 64, z, n, void=True, ms=ms)
        else: L.call(fn, o.addr, z, n, void=True, ms=ms)
        L.dll.vf_unmap(z, n); return hx(o.bytes())
    c = Ctx(L); L.call("vf_x_init", k, c.b)
    if how in ("whole", "parts"):
        z = L.dll.vf_zeros(n); done = 0
        for m in (n,) if how == "whole" else (1 << 30, 5, (1 << 31) + 7, n):
            m = min(m, n - done); L.call("vf_x_absorb", k, c.b, z, m, ms=ms); done += m
        L.dll.vf_unmap(z, n)
        if dl is not None: o = Out(dl); L.call("vf_x_finalize", k, c.b, o.addr); return hx(o.bytes())
        L.call("vf_x_finalize", k, c.b, 0)
    else:
        L.call("vf_x_absorb", k, c.b, inbuf(b"abc"), 3); L.call("vf_x_finalize", k, c.b, 0); w = 1 << 20; done = 0
        z = L.dll.vf_wrapmap(1 << 33, 1 << 20)
        for m in (n,) if how == "swhole" else (1 << 30, 5, (1 << 31) + 7, n):
            m = min(m, n - done); L.call("vf_x_squeeze", k, c.b, z + done, m, ms=ms); done += m
        last = C.string_at(z + n - 500, 500); L.dll.vf_unmap(z, 1 << 33)
    o = Out(64); L.call("vf_x_squeeze", k, c.b, o.addr, 64); L.call("vf_x_release", k, c.b)
    return hx(o.bytes()) + ("" if how in ("whole", "parts") else hx(last))

def runs(c, sizes, depth, emit=True):
    r = T.check(c.scratch, "machines/Sponge.tla", "SPECIFICATION Spec\nCONSTANTS Rate=4 Sizes={%s} Depth=%d\nINVARIANT OneShotIn\nINVARIANT OneShotOut\n%sCHECK_DEADLOCK FALSE\n" % (",".join(map(str, sizes)), depth, "INVARIANT Emit\n" if emit else ""), workers=1 if emit else 8)
    c.model(r); return sorted({json.dumps(json.loads(json.loads(l[2:-2].split(",", 1)[1].strip()))) for l in r.lines("RUN")})

def check(c):
    so = c.lib()
    hs = runs(c, (1, 3, 4, 5), c.pick(4, 5)) + runs(c, (0, 1, 2, 3, 4, 5, 8), 3)
    runs(c, (0, 1, 2, 3, 5), c.pick(4, 5), emit=False)
    hs = [json.loads(h) for h in sorted(set(hs))]; c.log(len(hs), "histories from TLC")
    if len(hs) < 2000: raise T.TlcError("too few behaviours")
    c.sample({"history": hs[len(hs) // 2]})
    # deeper sampled histories: one TLC-shaped absorb prefix per context
    its = []
    for k in range(5):
        for i in range(0, len(hs), 200): its.append((k, hs[i:i + 200], c.seed))
    res = c.pmap(replay, its, so=so); c.traces(sum(x or 0 for x in res))
    if c.viol: return
    res = c.pmap(rand, [(k, c.seed * 1000 + j) for k in range(5) for j in range(c.pick(200, 3000))], so=so, chunk=8); c.traces(sum(x or 0 for x in res))
    if c.viol: return
    res = c.pmap(blocks, [(k, n, c.seed + j) for k in (5, 6) for n in list(range(0, 2 * K[k][1] + 3)) + [1000, 5000] for j in range(c.pick(1, 6))], so=so, chunk=16); c.traces(sum(x or 0 for x in res))
    if c.viol: return
    # sizes beyond 4 GiB: the same digest however the input or output is divided
    ks = c.pick((1, 4), (0, 1, 2, 3, 4)); its = [(k, h) for k in ks for h in ("one", "whole", "parts")] + [(k, h) for k in ks if K[k][2] is None for h in ("swhole", "sparts")]
    res = dict(zip(its, c.pmap(huge, its, so=so))); c.count("calls_beyond_4GiB", len(its))
    if c.viol: return
    for k in ks:
        if len({res[k, h] for h in ("one", "whole", "parts")}) != 1: c.violation("%s of %d zero bytes depends on how the input is divided" % (K[k][0], BIG), {h: res[k, h] for h in ("one", "whole", "parts")})
        if K[k][2] is None and res[k, "swhole"] != res[k, "sparts"]: c.violation("%s output beyond 4 GiB depends on how it is divided" % K[k][0], {})
    if c.viol: return
    # the one-shot functions against FIPS 202 in TLA+
    sh = []; r = D.rng("c14s", c.seed)
    for k in range(5):
        rate, dl = K[k][1], K[k][2]
        for n in range(0, c.pick(2, 5) * rate + 10): sh.append((k, D.message(r, n, n % 5 if n else 1) if n else b"", dl or 64))
        for n in (4095, 4096, 4097, 10000, 65535, 65536, 65537, 70000): sh.append((k, r.randbytes(n), dl or 33))
        if dl is None:
            for n in range(0, c.pick(3, 6) * rate + 10): sh.append((k, r.randbytes(n % 50), n))
            sh += [(k, b"x", 5000), (k, b"y", 65535), (k, b"z", 65537), (k, b"", 70001)]
    ev = c.pmap(shots, [sh[i:i + 50] for i in range(0, len(sh), 50)], so=so)
    if not c.viol: c.conform([e for x in ev for e in x], "one-shot hashes")
