"""C05 verification is bound to exactly the caller's message."""
from ..core import Violation, hx
from .. import drv as D
import ctypes as C
LEVEL = "model_checking"

class Guarded:
    """a read-only message buffer that ends exactly at an inaccessible page"""
    def __init__(self, L, data):
        self.L, self.n = L, len(data); self.p = L.dll.vf_guard(len(data), 0)
        C.memmove(self.p, data, len(data)); L.dll.vf_guard_ro(self.p, len(data), 1)
    def free(self): self.L.dll.vf_unguard(self.p, self.n, 0)

def variants(r, m, dense):
    n = len(m); out = []
    for k in range(1, n): out.append(("the first %d bytes" % k, m[:k]))
    for k in range(n + 1, 65): out.append(("an extension to %d bytes" % k, m + (bytes(k - n) if k % 3 == 0 else r.randbytes(k - n))))
    for k in range(1, n): out.append(("the last %d bytes" % k, m[k:]))
    for j in range(n):
        out.append(("byte %d changed" % j, D.flip(m, 8 * j + r.randrange(8))))
        out.append(("byte %d case or top bit changed" % j, D.put(m, j, bytes([m[j] ^ r.choice((0x20, 0x80, 0xff, 1))]))))
    for _ in range(24):
        if n >= 2:
            a, b = r.sample(range(n), 2); k = r.randrange(1, 256); x = bytearray(m); x[a] ^= k; x[b] ^= k
            out.append(("two bytes xored with the same mask", bytes(x)))
            x = bytearray(m); x[a], x[b] = x[b], x[a]; out.append(("two bytes swapped", bytes(x)))
            x = bytearray(m); x[a] = (x[a] + k) % 256; x[b] = (x[b] - k) % 256; out.append(("two bytes shifted in opposite directions", bytes(x)))
    out += [("reversed", m[::-1]), ("rotated", m[1:] + m[:1]), ("all zero", bytes(n)), ("all ones", b"\xff" * n), ("complement", bytes(b ^ 255 for b in m)), ("random", r.randbytes(n))]
    if n > 2: out += [("changed after a zero byte", m[:-1] + bytes([m[-1] ^ 1]))]
    return out if dense else r.sample(out, min(len(out), 40))

def length(L, it):
    mode, n, seed, dense, kind = it
    r = D.rng("c05", it); pk, sk = L.keys(D.rng("c05k", seed).randbytes(160))
    m = D.message(r, n, kind)
    if kind == 5 and n > 2: m = m[:n // 2] + b"\0" + m[n // 2 + 1:]
    sm = D.must_sign(L, mode, m, sk, r.randbytes(64)); D.must_open(L, mode, sm, m, pk)
    cnt = 0; ev = []
    sb, kb = D_in(sm), D_in(pk)
    def ver(x, mlen=None):
        g = Guarded(L, x) if x else None
        rc = L.call("vf_%s_verify" % mode, g.p if g else D_in(b"\0"), len(x) if mlen is None else mlen, sb, len(sm), kb)
        if g: g.free()
        return rc
    if ver(m) != 0: raise Violation("%s verify rejects the signed message" % mode, {"m": hx(m), "sm": hx(sm), "pk": hx(pk)})
    for why, x in variants(r, m, dense):
        if x == m: continue
        cnt += 1
        if ver(x) == 0: raise Violation("%s verify accepted a different message: %s" % (mode, why), {"m": hx(x), "signed": hx(m), "sm": hx(sm), "pk": hx(pk)})
        if r.random() < 0.01: ev.append(dict(op=mode + "verify", ok=False, m=hx(x), sm=hx(sm), pk=hx(pk)))
    big = m + bytes(300)
    for ml in (0, 65, 66, 128, 255, 256, 256 + n, 2**16 + n, 2**31 + n, 2**32, 2**32 + n, 2**63 + n, 2**64 - 1, 2**64 - n):
        if ml == n: continue
        cnt += 1
        if L.call("vf_%s_verify" % mode, D_in(big), ml, sb, len(sm), kb) == 0:
            raise Violation("%s verify accepted message length %d for a signature of a %d-byte message" % (mode, ml, n), {"sm": hx(sm), "pk": hx(pk), "m": hx(big)})
    # the right message with a signature that does not open
    for b in (8 * 2 + r.randrange(512), 8 * (len(sm) - 1), 8 * 70 + r.randrange(8000), 0, 9):
        x = D.flip(sm, b); cnt += 1
        if L.verify(mode, m, x, pk) == 0: raise Violation("%s verify accepted although open fails" % mode, {"m": hx(m), "sm": hx(x), "pk": hx(pk)})
        if x[:2] == sm[:2] and D.embedded(mode, x) != m and L.verify(mode, D.embedded(mode, x), x, pk) == 0: raise Violation("verify accepted an altered embedded message", {"sm": hx(x), "pk": hx(pk)})
    ev.append(dict(op=mode + "verify", ok=True, m=hx(m), sm=hx(sm), pk=hx(pk)))
    return cnt, ev
def D_in(b):
    from ..lib import inbuf
    return inbuf(b)

def check(c):
    so = c.lib()
    its = [("c", n, c.seed, True, n % 8) for n in range(1, 65)] + [("c", n, c.seed + 1, c.thorough, 1 + (n % 4)) for n in range(1, 65, c.pick(4, 1))]
    its += [("f", n, c.seed, c.thorough, n % 8) for n in range(1, 65)]
    res = c.pmap(length, its, so=so)
    if c.viol: return
    c.count("evaluations", sum(x[0] for x in res))
    c.cov["rule"] = "every message length: all prefixes, suffixes, extensions, single-byte changes, compensating two-byte changes, truncated/overflowing lengths; messages lie against an inaccessible page"
    ev = [e for x in res for e in x[1]]; c.rnd.shuffle(ev)
    c.conform([e for e in ev if e["op"][0] == "c"][:c.pick(80, 600)] + [e for e in ev if e["op"][0] == "f"][:c.pick(20, 100)], "verify calls")
