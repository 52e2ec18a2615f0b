"""C01 round trip in both modes."""
import json, os
from ..core import Violation, hx
from .. import drv as D, build as B
LEVEL = "model_checking"

def roundtrip(L, it):
    mode, key, n, kind, sub = it
    r = D.rng("c01", key, n, kind, sub, mode)
    kr = D.rng("c01key", key)
    if key[0] == "seed":
        pk, sk = L.keys(D.special_seed(kr, 160, key[1] % 4))
    else:
        L.rng(kr.randbytes(160)); rc, p, s = L.h_keypair(); pk, sk = p.bytes(), s.bytes()
        if rc: raise Violation("key generation failed with %d" % rc, {"key": key})
    m = D.message(r, n, kind)
    stream = r.randbytes(200) if kind % 4 else bytes([r.randrange(256)]) * 200
    if key[0] == "short":       # the OS delivers the randomness piecemeal
        sc = [r.randrange(1, 9) if r.random() < .8 else -4 for _ in range(60)]
        L.rng(stream, sc)
        rc, o, ln = L.sign(mode, m, sk); sm = o.bytes()
        case = {"mode": mode, "m": hx(m), "sk": hx(sk), "rng": hx(stream), "script": sc}
        if rc: raise Violation("%s signing failed with %d although the OS delivered every byte" % (mode, rc), case)
        if ln != D.SIGN[mode] + n: raise Violation("wrong signature length %d" % ln, case)
    else:
        sm = D.must_sign(L, mode, m, sk, stream)
    D.must_open(L, mode, sm, m, pk)
    if sub == 0: return dict(m=m, sk=sk, pk=pk, rnd=stream, sm=sm, mode=mode)

def check(c):
    so = c.lib()
    items = []
    keys = [("seed", k) for k in range(4 if not c.thorough else 16)] + [("rand", c.seed), ("short", c.seed)]
    for n in range(1, 65):
        for ki, key in enumerate(keys):
            for kind in range(8):
                items.append(("c", key, n, kind, 0 if (n + ki) % len(keys) == 0 and kind == n % 8 else 1))
        for j in range(c.pick(2, 8)):
            items.append(("f", keys[(n + j) % len(keys)], n, (n // 3 + j) % 8, 0 if j == 0 and n % c.pick(4, 1) == 1 or n == 64 else 1))
    # every value of a one-byte message, and of the first and last byte of longer ones
    for v in range(256): items.append(("c1", v))
    for mode, name, cls in (("c", "compact.ndjson", "citer"), ("f", "dilithium.ndjson", "iter")):
        ds = [d for d in (json.loads(l) for l in open(os.path.join(B.VERIF, "data", name))) if d["cls"] == cls]
        for d in sorted(ds, key=lambda d: -d["v"])[:c.pick(6, 24)]: items.insert(0, ("deep", mode, d))
    c.log(len(items), "round trips")
    res = c.pmap(_any, items, so=so, chunk=8)
    c.count("evaluations", len(items))
    c.cov["rule"] = "every message length 1..64 x 8 message patterns x keys (seeded, random, piecemeal entropy), both modes, plus every byte value; a case is a sign+open+verify round trip"
    if c.viol: return
    ev = []; nf = 0
    for x in res:
        if not x: continue
        if x["mode"] == "c": ev.append(D.ev_csign(x["m"], x["sk"], x["rnd"], x["sm"]))
        else:
            ev.append(D.ev_fsign(x["m"], x["sk"], x["rnd"], x["sm"], full=nf < c.pick(4, 32))); nf += 1
        if x["mode"] == "c" or nf % 4 == 0: ev.append(D.ev_open(x["mode"], x["sm"], x["pk"], 0, x["m"]))
    c.log(len(ev), "events to TLC")
    c.conform(ev)

def one_byte(L, it):
    v = it[1]; r = D.rng("c01b", v)
    pk, sk = L.keys(D.rng("c01bk", v % 8).randbytes(160))
    for m in (bytes([v]), bytes([v]) + r.randbytes(31), r.randbytes(40) + bytes([v]), r.randbytes(20) + bytes([v]) * 20):
        st = bytes([v]) + r.randbytes(198) + bytes([v])
        st = st[:39] + bytes([v]) + st[40:]
        D.must_open(L, "c", D.must_sign(L, "c", m, sk, st), m, pk)

def deep(L, it):
    """signatures whose Dilithium part takes unusually many attempts (tools/compactdeep.c, tools/dildeep.c)"""
    mode, d = it[1], it[2]; k = d["key"].to_bytes(8, "little"); n = d["m"].to_bytes(8, "little")
    if mode == "c": seed, m, st = b"\xd1" * 32 + k + b"\xd1" * 120, b"vf", n + bytes(32)
    else: seed, m, st = b"\x77" * 32 + k + b"\xd1" * 24 + b"\x55" * 96, n, b"\x66" * 64
    pk, sk = L.keys(seed); sm = D.must_sign(L, mode, m, sk, st); D.must_open(L, mode, sm, m, pk)
    return dict(m=m, sk=sk, pk=pk, rnd=st, sm=sm, mode=mode)
def _any(L, it):
    if it[0] == "deep": return deep(L, it)
    return one_byte(L, it) if it[0] == "c1" else roundtrip(L, it)
