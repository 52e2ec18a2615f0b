"""C06 strict parsing and separation of the modes."""
import os, json, hashlib, ctypes as C
from ..core import Violation, hx
from ..lib import inbuf, Out, SIGN
from .. import drv as D, tlc as T, proto as P
LEVEL = "model_checking"
BASE = {1: 2526, 2: 52342}; NAME = {1: "c", 2: "f"}
_TABLE = set()

def call(L, mode, o, ln, buf, slen, kb): return L.call("vf_%s_open" % NAME[mode], o.addr, ln, buf, slen, kb)

def headers(L, it):
    """every identifier x length byte x stated length on the body of a genuine signature"""
    mode, n, seed, ids, body = it
    r = D.rng("c06", mode, n, seed); pk, sk = L.keys(D.rng("c06k", seed).randbytes(160)); m = r.randbytes(n)
    sm = D.must_sign(L, NAME[mode], m, sk, r.randbytes(64)); kb = inbuf(pk)
    if body == "other": sm = D.must_sign(L, NAME[3 - mode], m, sk, r.randbytes(64))
    total = len(sm); big = inbuf(sm + r.randbytes(60000 - total if total < 60000 else 400)); o = Out(64); ln = C.c_uint64(0); cnt = 0; acc = 0
    vm = inbuf(m)
    for i in ids:
        big[0] = bytes([i])
        for l in range(256):
            big[1] = bytes([l])
            for slen in {total, BASE[mode] + l, BASE[mode] + n, BASE[3 - mode] + l}:
                shaped = (mode, i, l, slen) in _TABLE
                want = body == "own" and shaped and l == n and slen == total
                if shaped and not want and not (slen == total or l % 8 == n % 8): continue      # full verification, sampled
                cnt += 1
                rc = call(L, mode, o, ln, big, slen, kb)
                if (rc == 0) != want:
                    raise Violation("%s open %s identifier %d, length byte %d, stated length %d (genuine: %d-byte message)" % (NAME[mode], "accepted" if rc == 0 else "rejected", i, l, slen, n),
                                    {"mode": mode, "sm": hx(big.raw[:min(slen, 60000)]), "slen": slen, "pk": hx(pk)})
                if cnt % 16 == 0 or want:
                    rv = L.call("vf_%s_verify" % NAME[mode], vm, n, big, slen, kb)
                    if (rv == 0) != want: raise Violation("%s verify %s identifier %d, length byte %d, stated length %d" % (NAME[mode], "accepted" if rv == 0 else "rejected", i, l, slen), {"mode": mode, "slen": slen, "pk": hx(pk)})
                acc += want
    return cnt, acc

def lengths(L, it):
    """every stated length for a genuine signature, including ones that only agree modulo a power of two"""
    mode, n, seed, kind = it
    r = D.rng("c06l", mode, n, seed); pk, sk = L.keys(D.rng("c06k", seed).randbytes(160)); m = r.randbytes(n)
    sm = D.must_sign(L, NAME[mode], m, sk, r.randbytes(64)); kb = inbuf(pk); T_ = len(sm)
    big = inbuf(sm + r.randbytes(60000 - T_)); o = Out(64); ln = C.c_uint64(0); cnt = 0
    wide = [T_ + k for e in (8, 16, 24, 31, 32, 33, 40, 48, 56, 62, 63) for k in (2**e, -2**e)] + [2**64 - 1, 2**64 - T_, 2**63, 2**32 - 1, T_ | 2**63, T_ + 3 * 2**32]
    sl = [s % 2**64 for s in wide] + (list(range(0, 3000)) + list(range(52300, 52500)) + list(range(T_ - 300, T_ + 300)) if kind else list(range(T_ - 70, T_ + 70)))
    vm = inbuf(m)
    for s in sl:
        want = s == T_
        cnt += 1
        if (call(L, mode, o, ln, big, s, kb) == 0) != want: raise Violation("%s open %s stated length %d of a %d-byte signature" % (NAME[mode], "rejected" if want else "accepted", s, T_), {"sm": hx(sm), "slen": s, "pk": hx(pk)})
        if cnt % 5 == 0 or want:
            if (L.call("vf_%s_verify" % NAME[mode], vm, n, big, s, kb) == 0) != want: raise Violation("%s verify %s stated length %d of a %d-byte signature" % (NAME[mode], "rejected" if want else "accepted", s, T_), {"sm": hx(sm), "slen": s, "pk": hx(pk)})
    return cnt, 0

def cross(L, it):
    """parts of genuine signatures of one mode arranged in the layout of the other"""
    n, seed = it
    r = D.rng("c06x", n, seed); pk, sk = L.keys(D.rng("c06k", seed).randbytes(160)); m = r.randbytes(n); cnt = 0
    cs = D.must_sign(L, "c", m, sk, r.randbytes(64)); fs = D.must_sign(L, "f", m, sk, r.randbytes(64))
    fc, ff = D.fields("c", n), D.fields("f", n); nonce = D.get(cs, fc["nonce"])
    h = hashlib.sha3_512(nonce + m + pk[1344:]).digest()
    c_ed, c_dil, f_ed, f_dil, f_sph = D.get(cs, fc["ed"]), D.get(cs, fc["dil"]), D.get(fs, ff["ed"]), D.get(fs, ff["dil"]), D.get(fs, ff["sph"])
    head = lambda i, k=n: bytes([i, k])
    cands = []
    for i in (0, 1, 2, 3):
        for ed in (c_ed, f_ed):
            for dil in (c_dil, f_dil):
                cands.append(("c", head(i) + ed + dil + nonce + m)); cands.append(("c", head(i) + ed + m + dil + nonce))
                cands.append(("f", head(i) + ed + m + dil + f_sph)); cands.append(("f", head(i, 64) + ed + h + dil + f_sph))
                cands.append(("f", head(i) + ed + dil + nonce + m + f_sph[40:]))
                cands.append(("f", head(i) + ed + m + dil + bytes(49856)))
                cands.append(("c", head(i) + ed + m + dil + f_sph[:40]))
    for mode in "cf":
        for x in (cs, fs, cs + fs, head(1) + cs[2:], head(2) + cs[2:], head(1) + fs[2:], cs + bytes(len(fs) - len(cs)), head(2) + (cs + bytes(len(fs) - len(cs)))[2:]):
            for s in {len(x), len(cs), len(fs)}:
                if s <= len(x): cands.append((mode, x[:s]))
    for mode, x in cands:
        if x in (cs, fs) and mode == {1: "c", 2: "f"}[x[0]]: continue
        if mode == "c" and x == cs or mode == "f" and x == fs: continue
        D.must_reject(L, mode, x, pk, "a rearrangement of genuine parts"); cnt += 1
    return cnt, 0

def check(c):
    so = c.lib(); out = os.path.join(c.scratch, "shape.ndjson")
    cfg = "SPECIFICATION Spec\nCONSTANT Bases <- DefaultBases\nINVARIANT WellFormedOnly\nINVARIANT NothingLost\nPOSTCONDITION EmitTable\nCHECK_DEADLOCK FALSE\n"
    r = T.check(c.scratch, "machines/ShapeMC.tla", cfg, env={"VF_OUT": out}); c.model(r)
    for l in open(out):
        t = json.loads(l); _TABLE.add((t["mode"], t["id"], t["len"], t["slen"]))
    if len(_TABLE) != 128: raise T.TlcError("shape table has %d entries" % len(_TABLE))
    its = []
    for mode in (1, 2):
        for n in c.pick((1, 37, 64), (1, 2, 31, 32, 33, 37, 63, 64)):
            for k in range(0, 256, 32): its.append(("h", (mode, n, c.seed, list(range(k, k + 32)), "own")))
        for k in range(0, 256, 64): its.append(("h", (mode, 20, c.seed, list(range(k, k + 64)), "other")))
        for n in range(1, 65): its.append(("l", (mode, n, c.seed, n % 9 == 1)))
    for n in c.pick((1, 5, 32, 40, 64), range(1, 65, 3)): its.append(("x", (n, c.seed)))
    res = c.pmap(_any, its, so=so)
    if c.viol: return
    c.count("accepting_cases", sum(x[1] for x in res))
    c.cov["rule"] = "identifier 0..255 x length byte 0..255 x stated lengths, every stated length around genuine ones and modulo powers of two, rearrangements across modes; expected verdict from the table TLC emits for Shape.tla"
    c.traces(sum(x[0] for x in res))
    c.sample({"shape_table_entry": sorted(_TABLE)[0], "entries": len(_TABLE)})
    if P.confusion(c, so)[0]:
        c.known_finding("Ed25519 and Dilithium parts of a full signature over the 64-byte message SHA3-512(nonce||m||SPHINCS+ pk) rearranged into the compact layout are accepted as a compact signature of m", "cross-mode-full-to-compact")
def _any(L, it): return {"h": headers, "l": lengths, "x": cross}[it[0]](L, it[1])
