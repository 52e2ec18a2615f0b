"""C22 NaCl: authenticated encryption round trips and fails closed; primitives equal their definitions."""
import ctypes as C
from ..core import Violation, hx
from ..lib import Crash
from .. import drv as D, tlc as T, sched as S
LEVEL = "model_checking"
MACH = "machines/Box.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS Keys={1,2} Nonces={1,2} Msgs={1,2} MaxSeals=%d Variant="%s"\nINVARIANT Authentic\nINVARIANT RoundTrip\nINVARIANT NoRelease\n%sCHECK_DEADLOCK FALSE\n'
_TRIES = []
def buf(b): return C.create_string_buffer(bytes(b), max(1, len(b)))
def out(n): o = C.create_string_buffer(n + 64); C.memset(o, 0xa5, n + 64); return o
def fn(L, f, n, *a):
    """a function with one output of n bytes"""
    o = out(n); rc = L.call(f, o, *[buf(x) if isinstance(x, (bytes, bytearray)) else x for x in a])
    if o.raw[n:n + 64] != b"\xa5" * 64: raise Violation("%s writes past its output" % f, {"args": [hx(x) if isinstance(x, bytes) else x for x in a]})
    return rc, o.raw[:n]

# three interfaces to the same construction: (seal, open, keys)
class Secret:
    name = "secretbox"
    def __init__(self, L, r): self.L = L; self.k = r.randbytes(32)
    def seal(self, m, n): return fn(self.L, "vf_n_secretbox", 32 + len(m), bytes(32) + m, 32 + len(m), n, self.k)
    def open(self, c, n, d=None): return fn(self.L, "vf_n_secretbox_open", max(32, len(c)), c, len(c) if d is None else d, n, self.k)
    def key(self): return self.k
class Public:
    """box: sealed by one side, opened by the other"""
    name = "box"
    def __init__(self, L, r):
        self.L = L; self.a, self.b = r.randbytes(32), r.randbytes(32); self.A = fn(L, "vf_n_scalarmult_base", 32, self.a)[1]; self.B = fn(L, "vf_n_scalarmult_base", 32, self.b)[1]
    def seal(self, m, n): return fn(self.L, "vf_n_box", 32 + len(m), bytes(32) + m, 32 + len(m), n, self.B, self.a)
    def open(self, c, n, d=None): return fn(self.L, "vf_n_box_open", max(32, len(c)), c, len(c) if d is None else d, n, self.A, self.b)
    def key(self): return fn(self.L, "vf_n_beforenm", 32, self.B, self.a)[1]
class After:
    """precomputed shared key; the two sides compute the same one"""
    name = "afternm"
    def __init__(self, L, r):
        p = Public(L, r); self.L = L; self.k = fn(L, "vf_n_beforenm", 32, p.B, p.a)[1]; k2 = fn(L, "vf_n_beforenm", 32, p.A, p.b)[1]
        if self.k != k2: raise Violation("the two sides of a box compute different keys", {"a": hx(p.a), "b": hx(p.b)})
    def seal(self, m, n): return fn(self.L, "vf_n_afternm", 32 + len(m), bytes(32) + m, 32 + len(m), n, self.k)
    def open(self, c, n, d=None): return fn(self.L, "vf_n_open_afternm", max(32, len(c)), c, len(c) if d is None else d, n, self.k)
    def key(self): return self.k
IF = (Secret, Public, After)

def genuine(x, m, n, case):
    rc, c = x.seal(m, n)
    if rc or c[:16] != bytes(16): raise Violation("%s of a %d-byte message fails (%d) or leaves the padding nonzero" % (x.name, len(m), rc), case)
    rc, o = x.open(c, n)
    if rc: raise Violation("%s: opening a genuine box of a %d-byte message fails with %d" % (x.name, len(m), rc), case)
    if o[:32] != bytes(32) or o[32:] != m: raise Violation("%s: opening returns another message" % x.name, case)
    return c
def rejected(x, c, n, m, why, case, d=None):
    rc, o = x.open(c, n, d)
    if rc == 0: raise Violation("%s opens a box although %s" % (x.name, why), dict(case, box=hx(c), why=why))
    o = o[32:]
    for i in range(0, len(m) - 3):
        if o[i:i + 4] == m[i:i + 4] and m[i:i + 4] != b"\xa5" * 4: raise Violation("%s rejects a box but releases plaintext (%s)" % (x.name, why), dict(case, box=hx(c), out=hx(o)))

def attack(L, it):
    """every alteration of the specification at one message length"""
    cls, ln, seed, full = it; r = D.rng("c22", cls, ln, seed); x = IF[cls](L, r); y = IF[cls](L, r); m = r.randbytes(ln); n = r.randbytes(24); case = {"interface": x.name, "m": hx(m), "n": hx(n), "k": hx(x.key())}; cnt = 0
    c = genuine(x, m, n, case); n2 = r.randbytes(24); m2 = r.randbytes(ln); c2 = genuine(x, m2, n2, case)
    def fl(b, i): return D.flip(b, i)
    for t in _TRIES:
        if t == "genuine": continue
        if t == "wrongkey": rejected(y, c, n, m, "the key is another", case); cnt += 1
        elif t == "wrongboth": rejected(y, c, n2, m, "key and nonce are others", case); cnt += 1
        elif t == "wrongnonce":
            rejected(x, c, n2, m, "the nonce is another", case); cnt += 1
            for i in range(192) if full else [8 * j + r.randrange(8) for j in range(24)]: rejected(x, c, fl(n, i), m, "nonce bit %d differs" % i, case); cnt += 1
        elif t in ("taglo", "taghi"):
            lo = 16 if t == "taglo" else 24
            for i in range(8 * lo, 8 * lo + 64): rejected(x, fl(c, i), n, m, "tag bit %d differs" % (i - 128), case); cnt += 1
        elif t in ("bodya", "bodyb"):
            h = ln // 2; rng = range(32, 32 + h) if t == "bodya" else range(32 + h, 32 + ln)
            for j in rng:
                for b in range(8) if full or ln < 20 else (r.randrange(8),): rejected(x, fl(c, 8 * j + b), n, m, "byte %d of the body differs" % (j - 32), case); cnt += 1
        elif t == "cut":
            for k in sorted({1, 2, 15, 16, 17, 31, 32, 33, ln // 2, ln} | (set(range(1, ln + 1)) if full else set())):
                if 0 < k <= ln: rejected(x, c[:len(c) - k], n, m, "%d bytes are missing" % k, case); cnt += 1
            for d in range(0, 32): rejected(x, c, n, m, "the length %d is below the padding" % d, case, d=d); cnt += 1
        elif t == "extend":
            for e in (b"\0", b"\0" * 16, b"\x80", r.randbytes(1), r.randbytes(16), r.randbytes(64)): rejected(x, c + e, n, m, "%d bytes are added" % len(e), case); cnt += 1
        elif t == "splice":
            if ln: rejected(x, c[:32] + c2[32:], n, m, "tag and body belong to different boxes", case); rejected(x, c2[:32] + c[32:], n, m, "tag and body belong to different boxes", case); rejected(x, c2, n, m2, "the box is of another nonce", case); cnt += 3
            if ln >= 32: rejected(x, c[:32] + c[48:64] + c[32:48] + c[64:], n, m, "blocks are exchanged", case); cnt += 1
        else: raise RuntimeError("alteration " + t)
    for k in ("tag zero", "tag ones"): rejected(x, c[:16] + (bytes(16) if k == "tag zero" else b"\xff" * 16) + c[32:], n, m, k, case); cnt += 1
    return cnt, dict(op="secretbox", ok=True, m=hx(m), n=hx(n), k=hx(x.key()), c=hx(c[16:]))

def trip(L, it):
    """round trips over message lengths and key, nonce and message patterns"""
    ev = []; lens, seed = it
    for ln in lens:
        r = D.rng("c22t", ln, seed); x = IF[ln % 3](L, r); kind = r.randrange(4)
        if isinstance(x, Secret): x.k = D.special_seed(r, 32, r.randrange(4))
        m = bytes(ln) if kind == 0 else b"\xff" * ln if kind == 1 else r.randbytes(ln); n = D.special_seed(r, 24, r.randrange(4)); case = {"interface": x.name, "m": hx(m)[:2000], "len": ln, "n": hx(n), "k": hx(x.key())}
        c = genuine(x, m, n, case); ev.append(dict(op="secretbox", ok=True, m=hx(m), n=hx(n), k=hx(x.key()), c=hx(c[16:])))
        if ln % 5 == 0: ev.append(dict(op="secretboxopen", ok=True, m=hx(m), n=hx(n), k=hx(x.key()), c=hx(c[16:])))
    return ev

def P(f, a, b, o, rc=0): return dict(op="nacl", ok=rc == 0, f=f, a=hx(a), b=hx(b), out=hx(o))
EDGE = [0, 1, 2, 9, 2**255 - 20, 2**255 - 19, 2**255 - 18, 2**255 - 1, 2**256 - 1, 2**255, 2**255 + 9, 2**254, 325606250916557431795983626356110631294008115727848805560023387167927233504, 39382357235489614581723060781553021112529911719440698176882885853963445705823, 2**255 - 19 - 1, 2**128 - 1, 2**255 - 2**128]
def curve(L, it):
    kind, seed = it; r = D.rng("c22c", kind, seed); a = D.special_seed(r, 32, r.randrange(4)) if kind % 2 else r.randbytes(32); ev = []
    b = EDGE[kind % len(EDGE)].to_bytes(32, "little") if kind < 2 * len(EDGE) else r.randbytes(32)
    rc, o = fn(L, "vf_n_scalarmult", 32, a, b); ev.append(P("scalarmult", a, b, o, rc)); rc, o = fn(L, "vf_n_scalarmult_base", 32, a); ev.append(P("base", a, b"", o, rc)); rc, o = fn(L, "vf_n_beforenm", 32, b, a); ev.append(P("beforenm", b, a, o, rc))
    st = r.randbytes(32); L.rng(st, [[], [5, -4, 9]][kind % 2]); pk, sk = out(32), out(32); rc = L.call("vf_n_box_keypair", pk, sk)
    if rc or sk.raw[:32] != st or L.delivered() != 32: raise Violation("a box key pair is not made from the 32 random bytes drawn", {"rng": hx(st), "rc": rc})
    ev.append(P("base", st, b"", pk.raw[:32]))
    L.rng(st, [[-5], [7, -5]][kind % 2]); pk, sk = out(32), out(32)
    if L.call("vf_n_box_keypair", pk, sk) == 0: raise Violation("a box key pair is made although randomness failed", {})
    return ev
P25519 = 2**255 - 19; L1 = 2**252 + 27742317777372353535851937790883648493; L2 = (2 * P25519 + 2 - 8 * L1) // 4
def ladder(k, u):
    """x-only multiplication by any integer; None for the point at infinity"""
    p = P25519; x2, z2, x3, z3 = 1, 0, u, 1
    for t in range(k.bit_length() - 1, -1, -1):
        b = k >> t & 1
        if b: x2, z2, x3, z3 = x3, z3, x2, z2
        a, c, d, e = (x2 + z2) % p, (x2 - z2) % p, (x3 + z3) % p, (x3 - z3) % p; aa, cc, da, cb = a * a % p, c * c % p, e * a % p, d * c % p; f = (aa - cc) % p
        x3, z3, x2, z2 = (da + cb) ** 2 % p, u * (da - cb) ** 2 % p, aa * cc % p, f * (aa + 121665 * f) % p
        if b: x2, z2, x3, z3 = x3, z3, x2, z2
    return x2 * pow(z2, -1, p) % p if z2 else None
def targets(n):
    """results a reduction modulo 2^255-19 may mishandle, with the order of the point"""
    out = []
    for u in list(range(1, 20 + n)) + [P25519 - k for k in range(1, 6 + n // 4)] + [2**255 - 2**k for k in (16, 32, 64, 128)] + [2**k for k in (16, 32, 128, 240, 254)] + [2**k - 1 for k in (16, 32, 240, 254)]:
        for o in (L1, L2):
            if ladder(o, u) is None: out.append((u, o)); break
    return out
def chosen(L, it):
    """scalar multiplications whose result is a chosen number"""
    u, o, k = it; r = D.rng("c22u", it); s = r.randbytes(32); e = int.from_bytes(s, "little") & (2**255 - 8) & (2**255 - 1) | 2**254
    b = ladder(pow(e, -1, o), u).to_bytes(32, "little"); rc, x = fn(L, "vf_n_scalarmult", 32, s, b)
    if rc or x != u.to_bytes(32, "little"): raise Violation("Curve25519: the result should be %d" % u, {"scalar": hx(s), "point": hx(b), "out": hx(x)})
    return [P("scalarmult", s, b, x, rc)] if k == 0 else []
def mac(L, it):
    """one-time authenticator: random, extreme and modulus-wrapping inputs"""
    kind, seed = it; r = D.rng("c22p", kind, seed); ev = []
    for j in range(12):
        ln = (kind * 12 + j) if kind < 20 else r.choice((16, 32, 48, 64, 17, 31, 33, 80, 256))
        if kind < 20: k = r.randbytes(32); m = r.randbytes(ln)
        else:
            rr = r.choice((1, 2, 4, 5, 8, 0, (1 << 124) - 4 | 3, 0x0ffffffc0ffffffc0ffffffc0fffffff, r.getrandbits(128))); s = r.choice((0, 1, 2**128 - 1, 2**128 - 2, 2**127, r.getrandbits(128)))
            k = rr.to_bytes(16, "little") + s.to_bytes(16, "little"); p = 2**130 - 5; R = rr & 0x0ffffffc0ffffffc0ffffffc0fffffff
            m = b"".join(r.choice((b"\xff" * 16, bytes(16), b"\xfe" + b"\xff" * 15, b"\xfb" + b"\xff" * 15, b"\xf0" + b"\xff" * 15, r.randbytes(16))) for _ in range(ln // 16 + 1))[:ln]
            if R and ln >= 32 and j % 2:        # choose the last block such that the accumulator ends near 0, p or 2^130
                acc = 0
                for i in range(0, 16, 16): acc = (acc + int.from_bytes(m[i:i + 16] + b"\1", "little")) * R % p
                for tgt in r.sample([0, 1, 4, 5, p - 1, p - 2, 2**128 - 1, 2**128, 2**129, 2**130 - 6 - p if False else 6], 10):
                    v = (tgt * pow(R, -1, p) - acc) % p
                    if 2**128 <= v < 2**129: m = m[:16] + (v - 2**128).to_bytes(16, "little"); break
        rc, o = fn(L, "vf_n_auth", 16, m, len(m), k); ev.append(P("auth", m, k, o, rc))
        if L.call("vf_n_auth_verify", buf(o), buf(m), len(m), buf(k)) != 0: raise Violation("a correct authenticator is rejected", {"m": hx(m), "k": hx(k)})
        for b in range(128):
            if L.call("vf_n_auth_verify", buf(D.flip(o, b)), buf(m), len(m), buf(k)) == 0: raise Violation("an authenticator with bit %d changed is accepted" % b, {"m": hx(m), "k": hx(k)})
        for _ in range(6):
            if m:
                m2 = D.flip(m, r.randrange(8 * len(m))); w = L.call("vf_n_auth_verify", buf(o), buf(m2), len(m2), buf(k)); same = fn(L, "vf_n_auth", 16, m2, len(m2), k)[1] == o
                if (w == 0) != same: raise Violation("authenticator verification disagrees with authentication", {"m": hx(m2), "k": hx(k)})
    return ev
def stream(L, it):
    lens, seed = it; ev = []
    for ln in lens:
        r = D.rng("c22s", ln, seed); k = D.special_seed(r, 32, r.randrange(4)); n24, n8 = r.randbytes(24), D.special_seed(r, 8, r.randrange(4)); m = r.randbytes(ln)
        for f, g, n in (("xsalsa", "xsalsa20", n24), ("salsa", "salsa20", n8)):
            rc, o = fn(L, "vf_n_stream_" + g, ln, ln, n, k); ev.append(P(f, n, k, o, rc)); rc, x = fn(L, "vf_n_stream_%s_xor" % g, ln, m, ln, n, k)
            if rc or x != bytes(p ^ q for p, q in zip(m, o)): raise Violation("%s xor is not the message xor the stream" % g, {"len": ln, "k": hx(k), "n": hx(n)})
        if ln < 400:
            rc, o = fn(L, "vf_n_sha512", 64, m, ln); ev.append(dict(op="hash", alg="sha512", **{"in": hx(m)}, out=hx(o)))
            i, sg = D.special_seed(r, 16, r.randrange(4)), b"expand 32-byte k"
            rc, o = fn(L, "vf_n_core_salsa20", 64, i, k, sg); ev.append(P("core", i, k, o, rc)); rc, o = fn(L, "vf_n_core_hsalsa20", 32, i, k, sg); ev.append(P("hcore", i, k, o, rc))
    return ev
def long(L, it):
    """streams and digests longer than memory would allow to record: windows of the stream, digests of repeated bytes"""
    what, n, seed = it; r = D.rng("c22l", it); ev = []; ms = 600000
    if what == "sha512":
        z = L.dll.vf_zeros(n); o = out(64); L.call("vf_n_sha512", o, z, n, ms=ms); L.dll.vf_unmap(z, n)
        return [dict(op="hashrep", ok=True, byte=0, hi=n >> 20, lo=n & 0xfffff, out=hx(o.raw[:64]))]
    k = r.randbytes(32); W = 1 << 20; ln = (n + W - 1) // W * W; z = L.dll.vf_wrapmap(ln, W)
    for f, g, nn in (("salsawin", "salsa20", r.randbytes(8)), ("xsalsawin", "xsalsa20", r.randbytes(24))):
        rc = L.call("vf_n_stream_" + g, z, n, buf(nn), buf(k), ms=ms); b = (n - 4096) // 64; s = C.string_at(z + 64 * b, n - 64 * b)
        ev.append(dict(P(f, nn, k, s, rc), ctr=b))
        if n < 1 << 28:
            rc = L.call("vf_n_stream_%s_xor" % g, z, L.dll.vf_zeros(n), n, buf(nn), buf(k), ms=ms)
            if rc or C.string_at(z + 64 * b, n - 64 * b) != s: raise Violation("%s xor of zeros is not the stream (%d bytes)" % (g, n), {"k": hx(k), "n": hx(nn)})
    L.dll.vf_unmap(z, ln); return ev
def compare(L, seed):
    """constant-time comparison: zero exactly on equality"""
    r = D.rng("c22v", seed); n = 0
    for w in (16, 32):
        for _ in range(20):
            a = r.randbytes(w)
            if L.call("vf_n_verify%d" % w, buf(a), buf(a)) != 0: raise Violation("verify%d rejects equal strings" % w, {"a": hx(a)})
            for b in range(8 * w):
                if L.call("vf_n_verify%d" % w, buf(a), buf(D.flip(a, b))) != -1: raise Violation("verify%d does not return -1 when bit %d differs" % (w, b), {"a": hx(a)})
                x = D.flip(D.flip(a, b), r.randrange(8 * w)); n += 2
                if (L.call("vf_n_verify%d" % w, buf(a), buf(x)) == 0) != (a == x): raise Violation("verify%d is wrong" % w, {"a": hx(a), "b": hx(x)})
            for i in range(w - 1):       # differences that cancel in sums or xors
                x = bytearray(a); x[i] ^= 0x80; x[i + 1] ^= 0x80; n += 1
                if L.call("vf_n_verify%d" % w, buf(a), buf(x)) == 0: raise Violation("verify%d accepts cancelling differences" % w, {"a": hx(a), "b": hx(x)})
    return n

def check(c):
    global _TRIES
    so = c.lib()
    r = T.check(c.scratch, MACH, CFG % (2, "spec", "INVARIANT Emit\n"), workers=1); c.model(r)
    for v, inv in (("release", "NoRelease"), ("prefix", "Authentic"), ("header", "Authentic"), ("swallow", "Authentic")):
        if "Invariant %s is violated" % inv not in T.run(c.scratch, MACH, CFG % (2, v, "")).out: raise T.TlcError("the wrong design %s is not rejected" % v)
    t = {tuple(l.strip("<>").split(", ")[1:]) for l in r.lines("TRY")}; _TRIES = sorted({x[0].strip('"') for x in t})
    if {x[0] for x in t if x[1] == "TRUE"} != {'"genuine"'} or len(_TRIES) < 10: raise T.TlcError("unexpected outcomes %s" % t)
    c.sample({"alterations": _TRIES})
    lens = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 96, 127, 128, 200]
    its = [(k, ln, c.seed + s, c.thorough) for s in range(c.pick(1, 4)) for ln in (lens if not c.thorough else list(range(0, 140)) + [200, 255, 256, 257, 300]) for k in range(3) if k == 0 or ln in (0, 1, 16, 33, 64, 100, 200) or c.thorough]
    its.sort(key=lambda i: -i[1] * (1 + 5 * (i[0] == 1))); res = c.pmap(attack, its, so=so)
    if c.viol: return
    c.count("forgeries_rejected", sum(x[0] for x in res)); c.traces(sum(x[0] for x in res)); ev = [x[1] for x in res]; c.log(sum(x[0] for x in res), "altered boxes rejected")
    lens = list(range(0, c.pick(260, 1100))) + [500, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 16351, 16352, 16353, 16384, 16385, 16416, 20000] + [65503, 65504, 65505, 65535, 65536, 65537, 70000]
    res = c.pmap(trip, [(lens[i::32], c.seed) for i in range(32)], so=so)
    if c.viol: return
    ev += [e for x in res for e in x]
    a = c.pmap(curve, [(k, c.seed) for k in range(c.pick(48, 300))], so=so)
    if c.viol: return
    ts = targets(c.pick(60, 300)); x = c.pmap(chosen, [(u, o, k) for u, o in ts for k in range(c.pick(4, 12))], so=so); c.count("chosen_results", c.pick(4, 12) * len(ts)); a += x
    if c.viol: return
    b = c.pmap(mac, [(k, c.seed) for k in range(c.pick(40, 200))], so=so)
    if c.viol: return
    sl = list(range(0, c.pick(200, 700))) + [255, 256, 257, 1000, 16320, 16384, 16385, 16448, 33000] + c.pick([], [4194304 // 64]); d = c.pmap(stream, [(sl[i::32], c.seed) for i in range(32)], so=so)
    if c.viol: return
    lg = [("stream", n, c.seed) for n in (65536 + 1, 1 << 20, (1 << 22) - 64, 1 << 22, (1 << 22) + 64, (1 << 22) + 4000, (1 << 23) + 77)] + [("sha512", n, 0) for n in (65535, 65536, 1 << 20, (1 << 24) + 111, (1 << 29) - 17, (1 << 29) - 16, 1 << 29, (1 << 29) + 5)]
    if c.thorough: lg += [("stream", (1 << 30) + 200, c.seed), ("sha512", (1 << 32) - 1, 0), ("sha512", (1 << 32) + 112, 0)]
    e = c.pmap(long, sorted(lg, key=lambda x: -x[1]), so=so)
    if c.viol: return
    v = c.pmap(compare, range(c.seed, c.seed + c.pick(4, 40)), so=so); c.count("comparisons", sum(x or 0 for x in v))
    if c.viol: return
    ev += [e for x in a + b + d + e for e in x or []]; c.log(len(ev), "events"); c.conform(ev, "NaCl calls")
