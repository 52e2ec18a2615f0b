"""C16 Dilithium: deterministic signing and exact acceptance set."""
import json, os, hashlib, ctypes as C
from ..core import Violation, hx
from ..lib import Out, inbuf, LEN_SENTINEL
from .. import drv as D, forge as F, build as B
LEVEL = "model_checking"
_K = {}
def kp(L, seed):
    if seed not in _K:
        rc, p, s = L._kp("vf_d_keypair_seed", 1312, 2560, seed)
        if rc != 0: raise Violation("Dilithium key generation failed with %d" % rc, {"seed": hx(seed)})
        if not (p.canary_ok() and s.canary_ok()): raise Violation("Dilithium key generation wrote outside its buffers", {"seed": hx(seed)})
        _K[seed] = p.bytes(), s.bytes()
    return _K[seed]
def dseed(k): return k.to_bytes(8, "little") + b"\xd1" * 24       # the key numbering of tools/dilsearch.c
def corners():
    return [json.loads(l) for l in open(os.path.join(B.VERIF, "data", "dilithium.ndjson"))]

def sign(L, m, sk):
    rc, o, n = L.d_signature(m, sk); case = {"m": hx(m), "sk": hx(sk)}
    if rc != 0 or n != 2420: raise Violation("Dilithium signing returned %d, length %d" % (rc, n), case)
    if not o.canary_ok(): raise Violation("Dilithium signing wrote outside its buffer", case)
    return o.bytes()

def signing(L, it):
    """signature, determinism, attached form; event for TLC"""
    seed, m, heavy = it; pk, sk = kp(L, seed); sig = sign(L, m, sk); case = {"m": hx(m), "seed": hx(seed)}
    L.dll.vf_stack_fill(0xee); L.dll.vf_heap_fill(0x77)
    try:
        L.rng(b"\x13" * 64)
        if sign(L, m, sk) != sig: raise Violation("Dilithium signing is not deterministic", case)
        if L.rng_log(): raise Violation("Dilithium signing used randomness", case)
    finally: L.dll.vf_stack_fill(-1); L.dll.vf_heap_fill(-1)
    if L.d_verify(sig, m, pk) != 0: raise Violation("a genuine Dilithium signature is rejected", case)
    rc, o, n = L.sig("vf_d_sign", 2420 + len(m), inbuf(m), len(m), inbuf(sk))
    if rc != 0 or n != 2420 + len(m) or o.bytes() != sig + m or not o.canary_ok(): raise Violation("the attached Dilithium signature is not signature || message", case)
    rc, o, n = L.sig("vf_d_open", len(m) + 2420, inbuf(sig + m), len(sig + m), inbuf(pk))
    if rc != 0 or n != len(m) or o.bytes(len(m)) != m: raise Violation("opening an attached Dilithium signature does not return the message", case)
    # in place, as documented: sm may be m when signing, m may be sm when opening
    o = Out(2420 + len(m)); ln = C.c_uint64(LEN_SENTINEL); C.memmove(o.addr, m, len(m)); rc = L.call("vf_d_sign", o.addr, ln, o.addr, len(m), inbuf(sk))
    if rc != 0 or ln.value != 2420 + len(m) or o.bytes() != sig + m or not o.canary_ok(): raise Violation("Dilithium signing in place (sm = m) gives another result", case)
    ln = C.c_uint64(LEN_SENTINEL); rc = L.call("vf_d_open", o.addr, ln, o.addr, 2420 + len(m), inbuf(pk))
    if rc != 0 or ln.value != len(m) or o.bytes(len(m)) != m or not o.canary_ok(): raise Violation("opening a Dilithium signature in place (m = sm) gives another result", case)
    if 1 <= len(m) <= 64 and L.hd_verify(m, sig, pk) != 0: raise Violation("the stand-alone Dilithium verification rejects a genuine signature", case)
    return [dict(op="dsign", ok=True, m=hx(m), sk=hx(sk), sig=hx(sig))]

def crafted(L, k):
    """secret keys at the extremes of their encoding: large c*t0 (rejected by its norm), responses at the bound"""
    r = D.rng("c16c", k); pk, sk = kp(L, r.randbytes(32)); m = r.randbytes(r.choice((1, 32, 64)))
    def vec(vals, off, bits): return b"".join(sum((off - v) << (bits * i) for i, v in enumerate(vals[j:j + 256])).to_bytes(32 * bits, "little") for j in range(0, len(vals), 256))
    t0 = [0] * 1024; kind = k % 4
    if kind < 2:
        for j in r.sample(range(4), 2):
            for i in range(256): t0[256 * j + i] = r.choice((4096, -4095))
        sk = sk[:896] + vec(t0, 4096, 13)
    elif kind == 2: sk = sk[:128] + vec([r.choice((2, -2)) for _ in range(2048)], 2, 3) + vec([r.choice((4096, -4095, 0, 0, 0, 0)) for _ in range(1024)], 4096, 13)
    else: sk = sk[:128] + vec([r.choice((0, 2, -2, 1, -1)) if kind else 0 for _ in range(1024)] + [r.choice((2, -2)) for _ in range(1024)], 2, 3) + sk[896:]
    return [dict(op="dsign", ok=True, m=hx(m), sk=hx(sk), sig=hx(sign(L, m, sk)))]
def keygen(L, seed):
    pk, sk = kp(L, seed)
    return [dict(op="dkey", ok=True, seed=hx(seed), pk=hx(pk), sk=hx(sk))]

def ver(L, sig, m, pk):
    """all verification entry points agree; returns the event"""
    rc = L.d_verify(sig, m, pk); ok = rc == 0; case = {"sig": hx(sig), "m": hx(m), "pk": hx(pk)}
    rc2, o, n = L.sig("vf_d_open", len(m) + 2420, inbuf(sig + m), len(sig) + len(m), inbuf(pk)) if len(sig) == 2420 else (None, None, None)
    if rc2 is not None and (rc2 == 0) != ok: raise Violation("Dilithium open and verify disagree", case)
    if rc2 is not None and rc2 != 0 and len(m) >= 8 and o.bytes(len(m)) == m: raise Violation("Dilithium open releases the message of a rejected signature", case)
    if len(sig) == 2420 or not ok:
        h = L.hd_verify(m, sig, pk)
        if (h == 0) != (ok and 1 <= len(m) <= 64): raise Violation("the stand-alone Dilithium verification of a %d-byte message returns %d, the library function %d" % (len(m), h, rc), case)
    return dict(op="dverify", ok=ok, sig=hx(sig), m=hx(m), pk=hx(pk))

def z_set(sig, i, v):
    """sets response coefficient i (0..1023) to the encoding of v"""
    bit = 8 * 32 + 18 * i; x = int.from_bytes(sig, "little"); e = (131072 - v) & 0x3ffff
    return ((x & ~(0x3ffff << bit)) | (e << bit)).to_bytes(2420, "little")
def z_get(sig, i):
    return 131072 - ((int.from_bytes(sig[32:32 + 2304], "little") >> (18 * i)) & 0x3ffff)

def verifying(L, it):
    """genuine, near-miss and malformed signatures"""
    k, seed, heavy = it; r = D.rng("c16v", it); s = r.randbytes(32); pk, sk = kp(L, s); m = r.randbytes(r.choice((1, 2, 31, 32, 33, 63, 64))); sig = sign(L, m, sk); ev = []
    def add(x, mm=m, p=pk, expect=None):
        e = ver(L, x, mm, p); ev.append(e)
        if expect is not None and e["ok"] != expect: raise Violation("Dilithium verification returned %s" % e["ok"], e)
    add(sig, expect=True)
    # every field: challenge, response, hints, message, key
    for _ in range(heavy): add(D.flip(sig, r.randrange(2420 * 8)), expect=False)
    for bit in r.sample(range(256), 4): add(D.flip(sig, bit), expect=False)
    for bit in r.sample(range(84 * 8), 10): add(D.flip(sig, 8 * 2336 + bit))
    for bit in r.sample(range(1312 * 8), 6): add(sig, p=D.flip(pk, bit), expect=False)
    for bit in r.sample(range(len(m) * 8), 3): add(sig, mm=D.flip(m, bit), expect=False)
    add(sig, mm=m + b"\0"); add(sig, mm=m[:-1]); add(sig, mm=b"\0" + m); add(sig, mm=b"")
    # response coefficients around the bound
    for v in (130993, 130994, 130995, -130993, -130994, -130995, 131071, 131072, -131071, 0):
        add(z_set(sig, r.randrange(1024), v), expect=False)
    i = r.randrange(1024); add(z_set(sig, i, z_get(sig, i) + 1), expect=False); add(z_set(sig, i, z_get(sig, i) - 1), expect=False)
    for name, x in F.dil_malleate(sig, r): add(x, expect=False)
    # moving a hint, dropping one, adding one
    idx, cnt = list(sig[2336:2416]), list(sig[2416:])
    for _ in range(3):
        j = r.randrange(4); a, b = (cnt[j - 1] if j else 0), cnt[j]
        if b > a:
            x = idx[:a] + idx[a + 1:] + [0]; c2 = [v - (1 if t >= j else 0) for t, v in enumerate(cnt)]; add(sig[:2336] + bytes(x + c2))
            y = sorted(set(range(256)) - set(idx[a:b])); x = sorted(idx[a:b - 1] + [r.choice(y)]); add(sig[:2336] + bytes(idx[:a] + x + idx[b:] + cnt))
        if cnt[3] < 80:
            y = sorted(set(range(256)) - set(idx[a:b])); x = sorted(idx[a:b] + [r.choice(y)]); add(sig[:2336] + bytes((idx[:a] + x + idx[b:])[:80] + [v + (1 if t >= j else 0) for t, v in enumerate(cnt)]))
    # hint vectors of weight 80 and malformed counters
    w = sorted(r.sample(range(256), 80)); add(sig[:2336] + bytes(w + [80, 80, 80, 80])); add(sig[:2336] + bytes(w + [81, 81, 81, 81])); add(sig[:2336] + bytes(w + [0, 0, 0, 80])); add(sig[:2336] + bytes(w + [80, 79, 80, 80])); add(sig[:2336] + bytes(84)); add(sig[:2336] + b"\xff" * 84)
    # garbage
    add(r.randbytes(2420)); add(bytes(2420)); add(b"\xff" * 2420); add(r.randbytes(2336) + bytes(84)); add(sig, p=bytes(1312)); add(sig, p=b"\xff" * 1312); add(sig[:32] + bytes(2304) + sig[2336:])
    # lengths
    for n in (0, 1, 32, 2335, 2336, 2416, 2419): add(sig[:n], expect=False)
    for x in (b"\0", b"\1", r.randbytes(2420)): add(sig + x, expect=False)
    for n in range(0, 2420, 97):
        rc, o, ln = L.sig("vf_d_open", 2420, inbuf(sig), n, inbuf(pk))
        if rc == 0: raise Violation("Dilithium open accepted %d bytes" % n, {})
    return ev if heavy else ev[:1]

def near(L, d):
    """signatures made with the secret key that violate only the response bound (tools/dilsearch)"""
    pk, sk = kp(L, dseed(d["key"])); m = d["m"].to_bytes(8, "little"); sig = bytes.fromhex(d["sig"]); e = ver(L, sig, m, pk)
    if e["ok"]: raise Violation("Dilithium verification accepts a response coefficient of %d" % d["v"], e)
    return [e]

def nearmiss(L, it):
    """forgeries of the specification that violate only the challenge equality"""
    ev = []
    for sig, m, pk, tw in it:
        e = ver(L, sig, m, pk); ev.append(e)
        if e["ok"]: raise Violation("Dilithium verification accepts a challenge that differs by %s from the recomputed one" % hx(tw), e)
    return ev[:1]
# ---- signatures under the keyless key (t1 = 0): every response and hint vector has a matching challenge
RHO = b"\x5a" * 32
def freez(n):
    b = int.from_bytes(hashlib.shake_256(b"vf-free" + n.to_bytes(8, "little")).digest(2304), "little"); out = 0
    for i in range(1024):
        v = (b >> (18 * i)) & 0x3ffff; out |= (v if abs(131072 - v) < 130994 else 131072) << (18 * i)
    return out.to_bytes(2304, "little")
def zpack(vals): return sum((131072 - v) << (18 * i) for i, v in enumerate(vals)).to_bytes(2304, "little")
def hbits(hs): return sum(1 << (256 * k + i) for k in range(4) for i in hs[k]).to_bytes(128, "little")
def hpack(hs):
    a = [i for h in hs for i in sorted(h)]; c = [sum(len(h) for h in hs[:k + 1]) for k in range(4)]; return bytes(a + [0] * (80 - len(a)) + c)
def freejobs(r, more):
    jobs = []
    def add(z, hs, y=None, fault=()): jobs.append(dict(op="dfree", m=r.randbytes(r.choice((1, 32, 64))), rho=RHO, z=z, h=hbits(hs), y=hpack(hs) if y is None else bytes(y), fault=list(fault)))
    E = [(), (), (), ()]
    def spread(ws): return [tuple(r.sample(range(256), w)) for w in ws]
    # coefficients of A*z at the corners of Decompose and UseHint, with and without a hint there
    cs = [json.loads(l) for l in open(os.path.join(B.VERIF, "data", "dilfree.ndjson"))]
    for d in cs if more else [d for j, d in enumerate(cs) if j % 2 == 0]:
        h = [(d["i"],) if k == d["k"] else () for k in range(4)]; add(freez(d["z"]), h); add(freez(d["z"]), E)
    # hint vectors of every shape
    for ws in ((0, 0, 0, 0), (80, 0, 0, 0), (0, 80, 0, 0), (0, 0, 80, 0), (0, 0, 0, 80), (20, 20, 20, 20), (79, 1, 0, 0), (1, 0, 0, 79), (40, 0, 0, 40), (1, 1, 1, 1), (0, 1, 0, 0)): add(freez(r.randrange(1000)), spread(ws))
    for h in ([(0,), (), (), ()], [(255,), (0,), (255,), (0,)], [(0, 255)] * 4, [(), (), (), (255,)], [tuple(range(80)), (), (), ()], [(), (), (), tuple(range(176, 256))], [(1, 2), (1, 2), (1, 2), (1, 2)]): add(freez(r.randrange(1000)), h)
    # weights above 80: the index beyond the end is the first counter itself
    w = sorted(r.sample(range(81), 80)); add(freez(1), [tuple(w) + (81,), (), (), ()], w + [81] * 4, ["hint", "challenge"])
    for c0 in (60, 50, 70):
        a = sorted(r.sample(range(256), c0)); b = sorted(r.sample(range(c0), 80 - c0)); add(freez(2), [tuple(a), (), (), tuple(b) + (c0,)], a + b + [c0, c0, c0, 81], ["hint", "challenge"])
    # unordered, repeated, overlapping and padded encodings of a hint vector that is right as a set
    for _ in range(6 if more else 2):
        hs = spread((r.randrange(2, 20), r.randrange(2, 20), r.randrange(2, 20), r.randrange(2, 20)))
        for name, x in F.dil_malleate(bytes(2336) + hpack(hs), r):
            if name.startswith("hint counter"): continue
            add(freez(r.randrange(1000)), hs, x[2336:], ["hint"])
        a = [r.sample(range(256), 20)][0]; p, q = sorted(a[:10]), sorted(a[10:]); idx = p + q; c = r.randrange(1, 9)
        x = sorted(set(idx[c:10])); y = idx[:10] + sorted(q); add(freez(3), [tuple(idx[:10]), (), tuple(sorted(set(y[c:20]))), ()], y + [0] * 60 + [10, c, 20, 20], ["hint"])
    # response coefficients at and just above the bound, in every polynomial
    for v in (130993, -130993): add(zpack([v] * 1024), E); add(zpack([v if i % 2 else -v for i in range(1024)]), spread((3, 3, 3, 3)))
    for k in range(4):
        for i in (0, 1, 127, 128, 254, 255) if more else (0, 255, r.randrange(1, 255)):
            for v, f in ((130993, ()), (-130993, ()), (130994, ("znorm",)), (-130994, ("znorm",)), (131071, ("znorm",)), (-131071, ("znorm",)), (131072, ("znorm",))):
                z = [0] * 1024; z[256 * k + i] = v; add(zpack(z), E, None, f)
    add(bytes(2304), E, None, ("znorm",)); add(b"\xff" * 2304, E, None, ("znorm",)); add(zpack([0] * 1024), E)
    return jobs
def keyless(L, its):
    ev = []; pk = RHO + bytes(1280)
    for c, j in its:
        sig = c + j["z"] + j["y"]; e = ver(L, sig, j["m"], pk); ev.append(e)
        if e["ok"] != (not j["fault"]): raise Violation("Dilithium verification %s a signature under the key with t1 = 0 that violates %s" % ("accepts" if e["ok"] else "rejects", j["fault"] or "nothing"), e)
    return ev[:2]

def prefix(L, k):
    """challenges beginning with zero bytes: a comparison that stops there accepts one in 256"""
    r = D.rng("c16p", k); pk, sk = kp(L, r.randbytes(32)); m = r.randbytes(32); sig = sign(L, m, sk)
    for j in range(600):
        x = bytes(1 + j % 2) + r.randbytes(31 - j % 2) + sig[32:]
        if L.d_verify(x, m, pk) == 0: raise Violation("Dilithium verification accepts a challenge that does not match", {"sig": hx(x), "m": hx(m), "pk": hx(pk)})
    return []

def standalone(L, it):
    """argument checks of the stand-alone verification"""
    r = D.rng("c16h", it); pk, sk = kp(L, b"\5" * 32); m = r.randbytes(it); sig = sign(L, m, sk); case = {"m": hx(m)}
    if L.hd_verify(m, sig, pk) != (0 if 1 <= it <= 64 else L.hd_verify(m, sig, pk)) or (L.hd_verify(m, sig, pk) == 0) != (1 <= it <= 64): raise Violation("stand-alone Dilithium verification of a genuine signature over %d bytes is wrong" % it, case)
    for a in ((0, it, sig, 2420, pk), (m, it, 0, 2420, pk), (m, it, sig, 2420, 0), (m, 0, sig, 2420, pk), (m, 65, sig, 2420, pk), (m, it, sig, 2419, pk), (m, it, sig, 2421, pk), (m, it, sig, 0, pk), (m, 1 << 32, sig, 2420, pk), (m, (1 << 32) + it, sig, 2420, pk), (m, it, sig, (1 << 32) + 2420, pk)):
        b = [inbuf(x + bytes(64)) if isinstance(x, bytes) else x for x in a]
        if L.call("vf_hd_verify", *b) == 0: raise Violation("stand-alone Dilithium verification accepts invalid arguments", {"lens": (a[1], a[3]), "null": [x == 0 for x in a]})
    return [dict(op="hdverify", ok=1 <= it <= 64, m=hx(m), sig=hx(sig), pk=hx(pk))]

def check(c):
    so = c.lib(); r = c.rnd; cs = corners()
    per = c.pick(5, 40); use = {}; jobs = []
    for d in cs: use.setdefault(d["cls"], []).append(d)
    keys = []; nears = []
    for k, v in sorted(use.items()):
        if k.startswith("k_"): keys += [dseed(d["key"]) for d in v[:per]]
        elif "sig" in v[0]: nears += v[:c.pick(4, 8)]
        else: jobs += [(dseed(d["key"]), d["m"].to_bytes(8, "little"), True) for d in (v[-per:] if k == "iter" else r.sample(v, min(per, len(v))))]
    c.log(len(jobs), "corner messages,", len(keys), "corner keys,", len(nears), "near-miss signatures")
    for n in list(range(0, 66)) + [71, 72, 73, 127, 128, 135, 136, 137, 200, 271, 272, 273, 1000, 5000]:
        jobs.append((b"\x33" * 32 if n % 2 else r.randbytes(32), D.message(r, n, n % 8) if n else b"", False))
    for k in range(c.pick(16, 200)): jobs.append((D.special_seed(r, 32, k % 4), r.randbytes(64), False))
    keys += [D.special_seed(D.rng("c16k", c.seed, k), 32, k % 4) for k in range(c.pick(40, 400))]
    ev = [e for f, its in ((signing, jobs), (keygen, keys), (near, nears), (crafted, list(range(c.pick(80, 800)))), (standalone, [0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 100, 300])) for x in c.pmap(f, its, so=so) if x for e in x]
    if c.viol: return
    from ..core import lib; L = lib(so); js = []
    for j, tw in enumerate(D.tweaks(r) * c.pick(1, 4)):
        pk, sk = kp(L, D.rng("c16t", j % 3).randbytes(32)); js.append(dict(op="dtweak", m=r.randbytes(r.choice((1, 32, 64))), sk=sk, pk=pk, tw=tw))
    fs = [(s, j["m"], j["pk"], j["tw"]) for s, j in zip(c.forge(js), js)]; c.count("near_miss_challenges", len(fs)); c.log(len(fs), "near-miss challenges")
    ev += [e for x in c.pmap(nearmiss, [fs[k:k + 20] for k in range(0, len(fs), 20)], so=so) if x for e in x]; 
    fj = freejobs(r, c.thorough); fc = list(zip(c.forge(fj), fj)); c.count("keyless_signatures", len(fj)); c.log(len(fj), "signatures under the keyless key")
    ev += [e for x in c.pmap(keyless, [fc[k:k + 20] for k in range(0, len(fc), 20)], so=so) if x for e in x]; c.pmap(prefix, list(range(c.pick(16, 200))), so=so)
    if c.viol: return
    res = c.pmap(verifying, [(k, c.seed, 6 if k < c.pick(8, 60) else 0) for k in range(c.pick(200, 3000))], so=so, chunk=4)
    if c.viol: return
    ve = [e for x in res for e in x]; c.count("verifications", 100 * len(res)); c.log(len(ev), len(ve), "events to TLC")
    c.conform(ev + ve, "Dilithium calls")
