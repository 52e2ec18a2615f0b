"""Drivers shared by the checks: genuine signatures, message and key families, event records."""
import random
from .core import Violation, hx
from .lib import SIGN, LEN_SENTINEL, PK, SK

ED, DIL, SPH, NONCE = 64, 2420, 49856, 40
def rng(*k): return random.Random(repr(k))

def fields(mode, n):
    """field -> (offset, length) of a signature over an n-byte message"""
    if mode == "c":
        return {"id": (0, 1), "len": (1, 1), "ed": (2, ED), "dil": (66, DIL), "nonce": (2486, NONCE), "msg": (2526, n)}
    return {"id": (0, 1), "len": (1, 1), "ed": (2, ED), "msg": (66, n), "dil": (66 + n, DIL), "sph": (2486 + n, SPH)}
def pkfields(): return {"ed": (0, 32), "dil": (32, 1312), "sph": (1344, 64)}
def get(b, f): return b[f[0]:f[0] + f[1]]
def put(b, off, x): return b[:off] + x + b[off + len(x):]
def flip(b, bit): return put(b, bit // 8, bytes([b[bit // 8] ^ (1 << (bit % 8))]))

def message(r, n, kind):
    """message families: random bytes and byte patterns that naive code mishandles"""
    if kind == 0: return r.randbytes(n)
    if kind == 1: return bytes(n)
    if kind == 2: return b"\xff" * n
    if kind == 3: return bytes([r.randrange(256)]) * n
    if kind == 4: return bytes(r.choice((0, 0, 0, 1, 0x80, 0xff)) for _ in range(n))
    if kind == 5: return bytes((r.choice(b"abcXYZ019 \n\0") for _ in range(n)))
    if kind == 6: return b"\0" + r.randbytes(n - 1)
    return r.randbytes(n - 1) + b"\0"

def special_seed(r, n, kind):
    if kind == 0: return r.randbytes(n)
    if kind == 1: return bytes(n)
    if kind == 2: return b"\xff" * n
    return bytes(r.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(n))

def must_sign(L, mode, m, sk, stream, what="sign"):
    """signs and checks return code, length and buffer discipline; returns the signature"""
    L.rng(stream)
    rc, o, n = L.sign(mode, m, sk)
    case = {"mode": mode, "m": hx(m), "sk": hx(sk), "rng": hx(stream)}
    if rc != 0: raise Violation("%s signing of a %d-byte message failed with %d" % (mode, len(m), rc), case)
    if n != SIGN[mode] + len(m): raise Violation("%s signing of a %d-byte message reported length %d" % (mode, len(m), n), case)
    if not o.canary_ok(): raise Violation("signing wrote outside the signature buffer", case)
    return o.bytes()

def must_open(L, mode, sm, m, pk):
    case = {"mode": mode, "m": hx(m), "sm": hx(sm), "pk": hx(pk)}
    rc, o, n = L.open(mode, sm, pk, size=max(64, len(m)))
    if rc != 0: raise Violation("opening a genuine %s signature (%d-byte message) failed with %d" % (mode, len(m), rc), case)
    if n != len(m): raise Violation("opening a genuine %s signature reported message length %d instead of %d" % (mode, n, len(m)), case)
    if o.bytes(len(m)) != m: raise Violation("opening a genuine %s signature returned a different message" % mode, case)
    if not o.canary_ok(): raise Violation("open wrote outside the message buffer", case)
    r = L.verify(mode, m, sm, pk)
    if r != 0: raise Violation("verifying a genuine %s signature (%d-byte message) failed with %d" % (mode, len(m), r), case)

def must_reject(L, mode, sm, pk, why, m=None, slen=None, verify=True):
    """open and (for the embedded or the given message) verify have to fail"""
    case = {"mode": mode, "sm": hx(sm), "pk": hx(pk), "why": why, "slen": slen}
    rc, o, n = L.open(mode, sm, pk, slen=slen)
    if rc == 0: raise Violation("%s open accepted %s" % (mode, why), dict(case, out=hx(o.bytes(64)), n=n))
    if not verify: return
    if m is None: m = embedded(mode, sm)
    if 1 <= len(m) <= 64:
        if L.verify(mode, m, sm, pk, slen=slen) == 0: raise Violation("%s verify accepted %s" % (mode, why), dict(case, m=hx(m)))

def embedded(mode, sm):
    if len(sm) < 2: return b"x"
    n = sm[1]; n = n if 1 <= n <= 64 else 1
    m = get(sm, fields(mode, n)["msg"]) if len(sm) >= SIGN[mode] + n else b"x" * n
    return m

def tweaks(r, n=32):
    """differences a broken comparison of n bytes overlooks: every bit, single bytes, cancelling pairs, all but one byte"""
    def at(d):
        b = bytearray(n)
        for i, v in d.items(): b[i] = v
        return bytes(b)
    out = [at({b // 8: 1 << (b % 8)}) for b in range(8 * n)] + [at({i: 255}) for i in range(n)]
    for _ in range(20):
        i, j = r.sample(range(n), 2); v = r.choice((1, 0x80, r.randrange(1, 256))); out.append(at({i: v, j: v}))
    for i, j in ((0, n - 1), (0, 1), (n - 2, n - 1), (0, n // 2), (n // 2 - 1, n // 2)):
        out += [at({i: 0x80, j: 0x80}), at({i: 1, j: 1}), at({i: 1, j: 255}), at({i: 0xf0, j: 0x10})]
    for w in (2, 4, 8, 16): out += [at({i: 255 for i in range(k, k + w)}) for k in (0, n - w)] + [at({i: 1 << (i % 8) for i in range(n) if i % w == w - 1})]
    out += [at({i: r.randrange(1, 256) for i in range(n) if i != k}) for k in (0, 1, n // 2, n - 2, n - 1)] + [b"\xff" * n, b"\x80" * n, b"\1" * n]
    return out

# ---- event records for spec/machines/Conform.tla
def ev_csign(m, sk, rnd, sm): return dict(op="csign", ok=True, m=hx(m), sk=hx(sk), rnd=hx(rnd[:40]), sm=hx(sm))
def ev_fsign(m, sk, rnd, sm, full=False): return dict(op="fsign" if full else "fsignv", ok=True, m=hx(m), sk=hx(sk), rnd=hx(rnd[:32]), sm=hx(sm))
def ev_open(mode, sm, pk, rc, m): return dict(op=mode + "open", ok=rc == 0, sm=hx(sm), pk=hx(pk), m=hx(m if rc == 0 else b""))
