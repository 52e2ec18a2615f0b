"""C18 Ed25519: RFC 8032 signatures and exact acceptance set."""
import hashlib
from ..core import Violation, hx
from ..lib import inbuf
from .. import drv as D, forge as F
LEVEL = "model_checking"
ORD = F.L25519
def kp(L, seed):
    rc, p, s = L._kp("vf_ed_keypair_seed", 32, 64, seed)
    if rc != 0: raise Violation("Ed25519 key generation failed with %d" % rc, {"seed": hx(seed)})
    if not (p.canary_ok() and s.canary_ok()): raise Violation("Ed25519 key generation wrote outside its buffers", {"seed": hx(seed)})
    return p.bytes(), s.bytes()
def sign(L, m, sk):
    rc, o, n = L.ed_sign(m, sk); case = {"m": hx(m), "sk": hx(sk)}
    if rc != 0 or n != 64 + len(m): raise Violation("Ed25519 signing returned %d, length %d" % (rc, n), case)
    if not o.canary_ok(): raise Violation("Ed25519 signing wrote outside its buffer", case)
    return o.bytes()
def opened(L, sm, pk, expect=None, why=""):
    """opens; checks what is released; returns the event"""
    rc, o, n = L.ed_open(sm, pk); ok = rc == 0; m = sm[64:]; case = {"sm": hx(sm), "pk": hx(pk), "rc": rc, "why": why}
    if expect is not None and ok != expect: raise Violation("Ed25519 open returned %d for %s" % (rc, why), case)
    if not o.canary_ok(): raise Violation("Ed25519 open wrote outside its buffer", case)
    if ok:
        if len(sm) < 64 or n != len(m) or o.bytes(len(m)) != m: raise Violation("Ed25519 open did not return the message (%s)" % why, case)
    else:
        if n <= len(sm): raise Violation("Ed25519 open reports the message length %d for a rejected signature" % n, case)
        a = o.bytes(max(0, len(m)))
        if len(set(m)) >= 4 and a == m or any(a[i:i + 8] == m[i:i + 8] and len(set(m[i:i + 8])) > 3 for i in range(0, len(m) - 7, 8)):
            raise Violation("Ed25519 open leaves (part of) the message of a rejected signature in the message area", case)
    return dict(op="edopen", ok=ok, sm=hx(sm), pk=hx(pk), m=hx(m if ok else b""))

def keygen(L, seed):
    pk, sk = kp(L, seed); return [dict(op="edkey", ok=True, seed=hx(seed), pk=hx(pk), sk=hx(sk))]
def signing(L, it):
    """all message lengths"""
    seed, m, ev = it; pk, sk = kp(L, seed); sm = sign(L, m, sk)
    L.dll.vf_stack_fill(0xee)
    try:
        L.rng(b"\x13" * 64)
        if sign(L, m, sk) != sm: raise Violation("Ed25519 signing is not deterministic", {"m": hx(m), "seed": hx(seed)})
        if L.rng_log(): raise Violation("Ed25519 signing used randomness", {"m": hx(m), "seed": hx(seed)})
    finally: L.dll.vf_stack_fill(-1)
    if sm[64:] != m: raise Violation("the signed message does not contain the message", {"m": hx(m), "seed": hx(seed)})
    e = opened(L, sm, pk, True, "a genuine signature over %d bytes" % len(m)); r = D.rng("c18s", it[0], len(m)); out = []
    opened(L, D.flip(sm, r.randrange(8 * len(sm))), pk, False, "an altered bit"); opened(L, sm[:-1] if len(sm) > 64 else sm[:63], pk, False, "a truncated signature"); opened(L, sm + b"\0", pk, False, "an extended message")
    return [dict(op="edsign", ok=True, m=hx(m), sk=hx(sk), sm=hx(sm)), e] if ev else []
def foreign(L, k):
    """secret keys whose public half does not belong to the seed, and extreme seeds"""
    r = D.rng("c18f", k); pk, sk = kp(L, D.special_seed(r, 32, k % 4)); m = r.randbytes(r.randrange(80)); sk = sk[:32] + D.special_seed(r, 32, k // 4 % 4)
    return [dict(op="edsign", ok=True, m=hx(m), sk=hx(sk), sm=hx(sign(L, m, sk)))]
def tamper(L, k):
    """every bit of a genuine signature, key and message; malleations"""
    r = D.rng("c18t", k); pk, sk = kp(L, r.randbytes(32)); m = r.randbytes((0, 1, 32, 64, 100)[k % 5]); sm = sign(L, m, sk); ev = []
    for b in range(8 * len(sm)): opened(L, D.flip(sm, b), pk, False, "bit %d of the signed message altered" % b)
    for b in range(256): opened(L, sm, D.flip(pk, b), False, "bit %d of the public key altered" % b)
    for name, s in F.ed_malleate(sm[:64]): ev.append(opened(L, s + m, pk, False, name))
    for b in r.sample(range(512), 4): ev.append(opened(L, D.flip(sm, b), pk, False, "bit %d" % b))
    for b in r.sample(range(256), 4): ev.append(opened(L, sm, D.flip(pk, b), False, "bit %d" % b))
    for n in range(64):
        rc, o, ln = L.sig("vf_ed_open", 64, inbuf(sm), n, inbuf(pk))
        if rc == 0 or ln <= 64: raise Violation("Ed25519 open of %d bytes returns %d, length %d" % (n, rc, ln), {})
    return ev
_T = F.ed_torsion()
def scalars(r):
    """scalars around the group order and around zero, and everything that differs from L in one byte"""
    out = [0, 1, 2, ORD - 1, ORD - 2, ORD, ORD + 1, 2**252 - 1, 2**252, 2**252 + 1, 2**253 - 1, 2**253, 2 * ORD, 2 * ORD - 1, 8 * ORD, 15 * ORD, 2**255 - 1, 2**255, 2**256 - 1, (2**252 // 2), ORD // 2, ORD // 2 + 1]
    for i in range(32):
        for d in (1, -1, 0x7f, -0x10):
            b = list(ORD.to_bytes(32, "little")); b[i] = (b[i] + d) % 256; out.append(int.from_bytes(bytes(b), "little"))
        b = list(ORD.to_bytes(32, "little")); b[i] = 0; out.append(int.from_bytes(bytes(b), "little")); b[i] = 255; out.append(int.from_bytes(bytes(b), "little"))
    return out + [r.randrange(ORD) for _ in range(4)]
def small(L, it):
    """keys of small and mixed order: signatures with chosen scalars, accepted exactly if the equation holds without cofactor"""
    kind, k, seed = it; r = D.rng("c18o", it); ev = []
    A = _T[k % 8] if kind != "mixed" else F.ed_add(F.ed_mul(a := r.randrange(1, ORD), F.ED_B), _T[1 + k % 7]); pk = F.ed_enc(A); m = r.randbytes(r.choice((0, 1, 32, 64)))
    if k % 8 == 0 and kind == "scalar": ss = scalars(r)        # A = identity: any R = [S]B verifies
    else: ss = [0, 1, ORD - 1, ORD, 2 * ORD, r.randrange(ORD), r.randrange(ORD)]
    for S in ss:
        for t in range(8) if kind == "torsion" else (0,):
            if kind == "mixed":        # S = r + h a, so that [S]B = R + [h]aB; the torsion part of [h]A decides
                rr = r.randrange(ORD); R = F.ed_enc(F.ed_add(F.ed_mul(rr, F.ED_B), _T[r.randrange(8)])); h = F.ed_h(R, pk, m); s2 = (rr + h * a) % ORD + (ORD if S == ORD else 0)
            else: R = F.ed_enc(F.ed_add(F.ed_mul(S % ORD, F.ED_B), _T[t])); s2 = S; h = F.ed_h(R, pk, m)
            want = s2 < ORD and F.ed_enc(F.ed_add(F.ed_mul(s2, F.ED_B), F.ed_neg(F.ed_mul(h, A)))) == R
            ev.append(opened(L, R + s2.to_bytes(32, "little") + m, pk, want, "scalar %x, %s key %d" % (s2, kind, k)))
    if k % 8 == 0 and kind != "mixed":        # other encodings of R = identity
        for R in (F.P25519 + 1, 1 | 1 << 255, (F.P25519 + 1) | 1 << 255, 0, F.P25519 - 1): ev.append(opened(L, R.to_bytes(32, "little") + bytes(32) + m, pk, False, "encoding %x of the identity" % R))
    return ev
def undecodable(L, k):
    """public keys that are no curve points"""
    r = D.rng("c18u", k); pk, sk = kp(L, r.randbytes(32)); m = r.randbytes(16); sm = sign(L, m, sk); ev = []; n = 0
    for v in [r.randrange(2, F.P25519 - 1) for _ in range(6)] + list(range(2, 12)):
        for sg in (0, 1):
            b = (v | sg << 255).to_bytes(32, "little")
            for s in (sm, F.ed_enc(F.ED_ZERO) + bytes(32) + m, bytes(64) + m, b + bytes(32) + m): e = opened(L, s, b, False, "a signature under another key")
            if F.ed_dec(b) is None and sg == 0: ev.append(e)
    return ev

def nearmiss(L, it):
    """forgeries of the specification in which only the final comparison fails"""
    return [opened(L, sig + m, pk, False, "a commitment that differs by %s from the recomputed one" % hx(tw)) for sig, m, pk, tw in it][:2]
def prefix(L, k):
    """the same with commitments that begin with a zero byte"""
    r = D.rng("c18p", k); a = r.randrange(1, ORD); A = F.ed_mul(a, F.ED_B); pk = F.ed_enc(A); m = r.randbytes(20); x = r.randrange(1, ORD); P = F.ed_mul(x, F.ED_B)
    while F.ed_enc(P)[0] != 0: x += 1; P = F.ed_add(P, F.ED_B)
    ev = []; R0 = F.ed_enc(P)
    for tw in [bytes(i) + bytes([1 << r.randrange(8)]) + bytes(31 - i) for i in range(1, 32)] + [b"\0" + r.randbytes(31) for _ in range(4)]:
        R = bytes(u ^ v for u, v in zip(R0, tw)); S = (x + F.ed_h(R, pk, m) * a) % ORD; ev.append(opened(L, R + S.to_bytes(32, "little") + m, pk, False, "a commitment that differs by %s from the recomputed one" % hx(tw)))
    R = R0; S = (x + F.ed_h(R, pk, m) * a) % ORD; return ev[-1:] + [opened(L, R + S.to_bytes(32, "little") + m, pk, True, "a signature made from the secret scalar")]

def check(c):
    so = c.lib(); r = c.rnd; ev = []
    lens = list(range(0, 300)) + [384, 511, 512, 513, 1000, 1024, 4096] + ([65536, 1 << 20] if c.thorough else [20000])
    jobs = [(r.randbytes(32), D.message(r, n, n % 8) if n else b"", n <= 300) for n in lens] + [(D.special_seed(r, 32, k % 4), r.randbytes(64), True) for k in range(c.pick(40, 1000))]
    nb = c.pick(3, 30)
    for f, its in ((keygen, [D.special_seed(D.rng("c18k", c.seed, k), 32, k % 4) for k in range(c.pick(100, 3000))] + [bytes([0] * i + [1 << j] + [0] * (31 - i)) for i in range(32) for j in (0, 7)]), (signing, jobs), (foreign, list(range(c.pick(24, 300)))), (tamper, list(range(c.pick(20, 300)))),
                   (small, [("scalar", k, c.seed) for k in range(8)] + [("torsion", k, c.seed) for k in range(8)] + [("mixed", k, c.seed * 1000 + k) for k in range(c.pick(14, 200))]), (undecodable, list(range(c.pick(4, 60))))):
        res = c.pmap(f, its, so=so, chunk=4 if len(its) > 99 else 1)
        if c.viol: return
        e = [x for y in res for x in y]; ev += e; c.count(f.__name__ + "_events", len(e)); c.log(f.__name__, len(e))
    from ..core import lib; L = lib(so); js = []
    for j, tw in enumerate(D.tweaks(r) * c.pick(1, 6)):
        pk, sk = kp(L, D.rng("c18t", j % 5).randbytes(32)); js.append(dict(op="etweak", m=r.randbytes(r.choice((0, 1, 32, 64))), sk=sk, pk=pk, tw=tw))
    fs = [(s, j["m"], j["pk"], j["tw"]) for s, j in zip(c.forge(js), js)]; c.count("near_miss_commitments", len(fs)); c.log(len(fs), "near-miss commitments")
    ev += [e for f, its in ((nearmiss, [fs[k:k + 20] for k in range(0, len(fs), 20)]), (prefix, list(range(c.pick(8, 60))))) for x in c.pmap(f, its, so=so) if x for e in x]
    if c.viol: return
    c.cov["accepted_events"] = sum(e["ok"] for e in ev); c.conform(ev, "Ed25519 calls")
