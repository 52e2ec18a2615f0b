"""C04 tamper evidence: no altered signature, message or key is accepted."""
from ..core import Violation, hx
from ..lib import inbuf, Out, addr
from .. import drv as D, forge as F
import ctypes as C
LEVEL = "model_checking"

_G = {}
def genuine(L, mode, seed, n, kind=0):
    k = (mode, seed, n, kind)
    if k not in _G:
        r = D.rng("c04", *k); pk, sk = L.keys(D.rng("c04key", seed).randbytes(160))
        m = D.message(r, n, kind); _G[k] = (pk, m, D.must_sign(L, mode, m, sk, r.randbytes(64)))
    return _G[k]

def flips(L, it):
    """each listed bit of the signature (or the key) flipped, one at a time, in place"""
    mode, seed, n, kind, what, bits = it
    pk, m, sm = genuine(L, mode, seed, n, kind)
    sb, kb = inbuf(sm), inbuf(pk); o = Out(64); ln = C.c_uint64(0)
    buf = sb if what == "sig" else kb
    for b in bits:
        j, mask = b // 8, 1 << (b % 8)
        buf[j] = bytes([buf.raw[j] ^ mask])
        rc = L.call("vf_%s_open" % mode, o.addr, ln, sb, len(sm), kb)
        if rc == 0: raise Violation("%s open accepted a %s with bit %d of byte %d flipped" % (mode, {"sig": "signature", "pk": "public key"}[what], b % 8, j),
                                    {"mode": mode, "sm": hx(sb.raw[:len(sm)]), "pk": hx(kb.raw[:1408]), "genuine": hx(sm)})
        buf[j] = bytes([buf.raw[j] ^ mask])
    if L.call("vf_%s_open" % mode, o.addr, ln, sb, len(sm), kb) != 0: raise Violation("%s open rejects the genuine signature" % mode, {"sm": hx(sm), "pk": hx(pk)})
    return len(bits)

def algebra(L, it):
    """re-encodings and structured edits, both entry points"""
    mode, seed, n, kind = it
    pk, m, sm = genuine(L, mode, seed, n, kind); f = D.fields(mode, n); r = D.rng("alg", it); ev = []; cnt = 0
    alts = [("Ed25519 " + w, D.put(sm, f["ed"][0], x)) for w, x in F.ed_malleate(D.get(sm, f["ed"]))]
    alts += [("Dilithium " + w, D.put(sm, f["dil"][0], x)) for w, x in F.dil_malleate(D.get(sm, f["dil"]), r)]
    # multi-bit edits: every field xored, swapped, rotated, cleared, and the same mask applied twice
    for fld, (o, l) in f.items():
        g = D.get(sm, (o, l))
        for w, x in (("complemented", bytes(b ^ 255 for b in g)), ("cleared", bytes(l)), ("random", r.randbytes(l)), ("reversed", g[::-1]), ("rotated", g[1:] + g[:1])):
            alts.append(("%s %s" % (fld, w), D.put(sm, o, x)))
        for _ in range(6):
            if l >= 2:
                a, b = r.sample(range(l), 2); k = r.randrange(1, 256); x = bytearray(g); x[a] ^= k; x[b] ^= k
                alts.append(("%s bytes %d,%d xored with the same mask" % (fld, a, b), D.put(sm, o, bytes(x))))
                x = bytearray(g); x[a], x[b] = x[b], x[a]; alts.append(("%s bytes %d,%d swapped" % (fld, a, b), D.put(sm, o, bytes(x))))
                x = bytearray(g); x[a] = (x[a] + k) % 256; x[b] = (x[b] - k) % 256; alts.append(("%s bytes %d,%d shifted by +-%d" % (fld, a, b, k), D.put(sm, o, bytes(x))))
    # total length altered together with the header
    for d in (-2, -1, 1, 2):
        if 1 <= n + d <= 64:
            x = bytearray(sm[:len(sm) + d] if d < 0 else sm + r.randbytes(d)); x[1] = n + d; alts.append(("message length %+d" % d, bytes(x)))
    for w, x in alts:
        if x == sm: continue
        D.must_reject(L, mode, x, pk, w); cnt += 1
        if w.startswith(("Ed25519", "Dilithium")) and r.random() < it_rate: ev.append(D.ev_open(mode, x, pk, 1, b""))
    p2 = r.sample(range(1408), 8)
    for a in p2:
        for v in (0, 255, pk[a] ^ 0x80, (pk[a] + 1) % 256):
            if v != pk[a]: D.must_reject(L, mode, sm, D.put(pk, a, bytes([v])), "key byte %d changed" % a); cnt += 1
    return cnt, ev
it_rate = 0.03

def check(c):
    so = c.lib(); r = c.rnd; its = []
    def add(mode, n, kind, what, bits, step):
        bits = list(bits)
        for i in range(0, len(bits), step): its.append((mode, c.seed, n, kind, what, bits[i:i + step]))
    n0 = r.randrange(2, 64)
    add("c", n0, 0, "sig", range(8 * (2526 + n0)), 120)
    add("c", n0, 0, "pk", range(8 * 1408), 120)
    for n in range(1, 65):                    # the other lengths: header, message, ends of every field, random bits
        f = D.fields("c", n); T = 2526 + n
        bits = {b for o, l in f.values() for b in (8 * o, 8 * (o + l) - 1)} | {8 * (f["msg"][0] + j) + r.randrange(8) for j in range(n)} | set(r.sample(range(8 * T), 12)) | set(range(16))
        add("c", n, n % 8, "sig", sorted(bits), 120)
        add("c", n, n % 8, "pk", r.sample(range(8 * 1408), 6), 120)
    n1 = r.randrange(2, 64); f = D.fields("f", n1); st = c.pick(4, 1); S = f["sph"][0]
    if c.thorough: fb = range(8 * (52342 + n1))
    else: fb = [8 * j + r.randrange(8) for j in range(S)] + [8 * j + r.randrange(8) for j in range(S + r.randrange(st), S + D.SPH, st)] + list(range(8 * S, 8 * S + 64)) + list(range(8 * (S + D.SPH) - 64, 8 * (S + D.SPH)))
    add("f", n1, 0, "sig", fb, 200)
    add("f", n1, 0, "pk", c.pick(r.sample(range(8 * 1408), 300) + list(range(8 * 1344, 8 * 1408, 3)), range(8 * 1408)), 100)
    for n in (1, 2, 31, 32, 33, 63, 64):
        f = D.fields("f", n)
        bits = {b for o, l in f.values() for b in (8 * o, 8 * (o + l) - 1)} | {8 * (f["msg"][0] + j) for j in range(n)} | set(range(16)) | set(r.sample(range(8 * (52342 + n)), 20))
        add("f", n, 0, "sig", sorted(bits), 120)
    r.shuffle(its)
    c.log(sum(len(i[5]) for i in its), "single-bit alterations")
    res = c.pmap(flips, its, so=so)
    c.count("single_bit_alterations", sum(x or 0 for x in res))
    if c.viol: return
    al = [("c", c.seed, n, n % 8) for n in range(1, 65, c.pick(3, 1))] + [("f", c.seed, n, 0) for n in (c.pick((5, 64), range(1, 65, 6)))]
    res = c.pmap(algebra, al, so=so)
    if c.viol: return
    c.count("structured_alterations", sum(x[0] for x in res))
    c.count("evaluations", c.parts["single_bit_alterations"] + c.parts["structured_alterations"])
    c.cov["rule"] = "one genuine signature per message length; every bit of one compact signature and key and (quick) every byte of the header, Ed25519, message and Dilithium fields and every 4th SPHINCS+ byte of one full signature; algebraic re-encodings (S+kL, hint encodings), compensating multi-byte edits"
    ev = [e for x in res for e in x[1]]
    r.shuffle(ev)
    c.conform([e for e in ev if e["op"] == "copen"][:c.pick(60, 400)] + [e for e in ev if e["op"] == "fopen"][:c.pick(8, 60)], "re-encoded signatures")
