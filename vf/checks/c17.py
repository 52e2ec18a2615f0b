"""C17 SPHINCS+: key generation, signing and verification follow the reference."""
import hashlib
from ..core import Violation, hx
from ..lib import inbuf, LEN_SENTINEL
from .. import drv as D
LEVEL = "model_checking"
N = 49856
_K = {}
def kp(L, seed):
    if seed not in _K:
        rc, p, s = L._kp("vf_s_keypair_seed", 64, 128, seed)
        if rc != 0: raise Violation("SPHINCS+ key generation failed with %d" % rc, {"seed": hx(seed)})
        if not (p.canary_ok() and s.canary_ok()): raise Violation("SPHINCS+ key generation wrote outside its buffers", {"seed": hx(seed)})
        _K[seed] = p.bytes(), s.bytes()
    return _K[seed]
def sign(L, m, sk, opt):
    L.rng(opt); rc, o, n = L.s_signature(m, sk); case = {"m": hx(m), "sk": hx(sk), "rng": hx(opt)}
    if rc != 0 or n != N: raise Violation("SPHINCS+ signing returned %d, length %d" % (rc, n), case)
    if not o.canary_ok(): raise Violation("SPHINCS+ signing wrote outside its buffer", case)
    if L.delivered() != 32: raise Violation("SPHINCS+ signing drew %d random bytes" % L.delivered(), case)
    return o.bytes()

def features(d):
    """corner classes of a 49-byte message digest: FORS indices, tree address and leaf index at their extremes"""
    bits = int.from_bytes(d[:40], "big"); ix = [(bits >> (320 - 9 * (t + 1))) & 511 for t in range(35)]; tree = d[40:48]; leaf = d[48] % 16; f = {"leaf%d" % leaf}
    for t, i in enumerate(ix):
        if i in (0, 1, 510, 511, 255, 256): f.add("fors%d=%d" % (t, i))
    for j, b in enumerate(tree):
        if b in (0, 255, 128, 127): f.add("tree%d=%d" % (j, b))
    for j in range(1, 17):
        nib = (int.from_bytes(tree, "big") >> (4 * (j - 1))) & 15
        if nib in (0, 15): f.add("layer%d=%d" % (j, nib))
    if tree[:2] in (b"\0\0", b"\xff\xff") or tree[-2:] in (b"\0\0", b"\xff\xff"): f.add("tree-run")
    return f
def choose(seeds, L, n, pool, r):
    """message/randomiser pairs that together cover as many digest corner classes as possible"""
    cand = []
    for k in range(pool):
        s = seeds[k % len(seeds)]; pk, sk = kp(L, s); m = r.randbytes(r.choice((1, 8, 32, 64))); opt = r.randbytes(32)
        R = hashlib.shake_256(sk[32:64] + opt + m).digest(32); cand.append((features(hashlib.shake_256(R + pk + m).digest(49)), s, m, opt))
    out = []; got = set()
    while len(out) < n:
        b = max(cand, key=lambda c: len(c[0] - got)); out.append(b[1:]); got |= b[0]; cand.remove(b)
    return out, len(got)

def signing(L, it):
    """signature, determinism given the randomiser, attached form; event for TLC"""
    seed, m, opt, full = it; pk, sk = kp(L, seed); case = {"m": hx(m), "seed": hx(seed), "rng": hx(opt)}
    sig = sign(L, m, sk, opt)
    L.dll.vf_stack_fill(0xee); L.dll.vf_heap_fill(0x77)
    try:
        if sign(L, m, sk, opt) != sig: raise Violation("SPHINCS+ signing with the same randomness gives another signature", case)
    finally: L.dll.vf_stack_fill(-1); L.dll.vf_heap_fill(-1)
    if L.s_verify(sig, m, pk) != 0: raise Violation("a genuine SPHINCS+ signature is rejected", case)
    L.rng(opt); rc, o, n = L.sig("vf_s_sign", N + len(m), inbuf(m), len(m), inbuf(sk))
    if rc != 0 or n != N + len(m) or o.bytes() != sig + m or not o.canary_ok(): raise Violation("the attached SPHINCS+ signature is not signature || message", case)
    rc, o, n = L.sig("vf_s_open", len(m) + N, inbuf(sig + m), len(sig + m), inbuf(pk))
    if rc != 0 or n != len(m) or o.bytes(len(m)) != m: raise Violation("opening an attached SPHINCS+ signature does not return the message", case)
    return [dict(op="ssign" if full else "ssignv", ok=True, m=hx(m), sk=hx(sk), rnd=hx(opt), sig=hx(sig))]
def keygen(L, seed):
    pk, sk = kp(L, seed); return [dict(op="skey", ok=True, seed=hx(seed), pk=hx(pk), sk=hx(sk))]

_S = {}
def base(L, k):
    if k not in _S:
        r = D.rng("c17base", k); s = r.randbytes(96); pk, sk = kp(L, s); m = r.randbytes((1, 33, 64)[k % 3]); _S[k] = (pk, m, sign(L, m, sk, r.randbytes(32)))
    return _S[k]
def ver(L, sig, m, pk, expect, why, both=True):
    rc = L.s_verify(sig, m, pk)
    if (rc == 0) != expect: raise Violation("SPHINCS+ verification returns %d for %s" % (rc, why), {"sig": hx(sig), "m": hx(m), "pk": hx(pk)})
    if len(sig) == N and both:
        rc2, o, n = L.sig("vf_s_open", len(m) + N, inbuf(sig + m), N + len(m), inbuf(pk))
        if (rc2 == 0) != expect: raise Violation("SPHINCS+ open returns %d for %s" % (rc2, why), {"sig": hx(sig), "m": hx(m), "pk": hx(pk)})
        if rc2 != 0 and n != 0: raise Violation("SPHINCS+ open reports a message of %d bytes for %s" % (n, why), {"sig": hx(sig), "m": hx(m), "pk": hx(pk)})
        if rc2 != 0 and len(m) >= 8 and o.bytes(len(m)) == m: raise Violation("SPHINCS+ open releases the message of %s" % why, {"sig": hx(sig), "m": hx(m), "pk": hx(pk)})
        if rc2 == 0 and (n != len(m) or o.bytes(len(m)) != m): raise Violation("SPHINCS+ open returned another message for %s" % why, {"sig": hx(sig), "m": hx(m), "pk": hx(pk)})
    return dict(op="sverify", ok=rc == 0, sig=hx(sig), m=hx(m), pk=hx(pk))
def nodes(L, it):
    """one altered bit in every 32-byte node of the signature"""
    k, lo, hi = it; pk, m, sig = base(L, k); r = D.rng("c17n", it); ev = []
    for j in range(lo, hi):
        e = ver(L, D.flip(sig, 256 * j + r.randrange(256)), m, pk, False, "an altered bit in node %d" % j, j % 8 == 0)
        if j == lo: ev.append(e)
    return ev
def shapes(L, it):
    """altered messages and keys, permuted parts, wrong lengths"""
    k, heavy = it; pk, m, sig = base(L, k); r = D.rng("c17s", it); ev = []
    def add(s, mm=m, p=pk, expect=False, why=""):
        e = ver(L, s, mm, p, expect, why)
        if heavy: ev.append(e)
    add(sig, expect=True, why="a genuine signature")
    for b in range(512): ver(L, sig, m, D.flip(pk, b), False, "public key bit %d altered" % b, b % 16 == 0) if not heavy or b % 64 else add(sig, p=D.flip(pk, b), why="public key bit %d altered" % b)
    for b in range(len(m) * 8): ver(L, sig, D.flip(m, b), pk, False, "message bit %d altered" % b, b % 16 == 0)
    for mm in (m + b"\0", m[:-1], b"\0" + m, b"", m + m): add(sig, mm=mm, why="another message")
    f = 32; F = [sig[f + 320 * t:f + 320 * (t + 1)] for t in range(35)]; h = f + 11200; W = [sig[h + 2272 * l:h + 2272 * (l + 1)] for l in range(17)]; R = sig[:32]
    def asm(R_, F_, W_): return R_ + b"".join(F_) + b"".join(W_)
    a, b = r.sample(range(35), 2); x = F[:]; x[a], x[b] = x[b], x[a]; add(asm(R, x, W), why="FORS trees exchanged")
    a, b = r.sample(range(17), 2); x = W[:]; x[a], x[b] = x[b], x[a]; add(asm(R, F, x), why="layers exchanged")
    for l in (0, 16, r.randrange(17)):          # authentication path entries exchanged, WOTS chains exchanged
        x = W[:]; y = [W[l][2144 + 32 * i:2176 + 32 * i] for i in range(4)]; x[l] = W[l][:2144] + b"".join(y[::-1]); add(asm(R, F, x), why="path of layer %d reversed" % l)
        y = [W[l][32 * i:32 * i + 32] for i in range(67)]; i, j = r.sample(range(67), 2); y[i], y[j] = y[j], y[i]; x = W[:]; x[l] = b"".join(y) + W[l][2144:]; add(asm(R, F, x), why="chains of layer %d exchanged" % l)
    o = base(L, k + 3); add(o[2][:32] + sig[32:], why="the randomiser of another signature"); add(sig[:32] + o[2][32:], why="the body of another signature"); add(sig, p=o[0], why="another key"); add(sig, p=o[0][:32] + pk[32:], why="another public seed"); add(sig, p=pk[:32] + o[0][32:], why="another root")
    for s in (bytes(N), b"\xff" * N, r.randbytes(N)): add(s, why="junk")
    if not heavy: 
        for n in [0, 1, 31, 32, 64, N // 2, N - 32, N - 1] + [r.randrange(N) for _ in range(4)]:
            ver(L, sig[:n], m, pk, False, "a signature of %d bytes" % n)
            rc, oo, ln = L.sig("vf_s_open", 64, inbuf(sig), n, inbuf(pk))
            if rc == 0: raise Violation("SPHINCS+ open accepts %d bytes" % n, {})
            if ln != 0: raise Violation("SPHINCS+ open of %d bytes reports a message of %d bytes" % (n, ln), {})
        for x in (b"\0", m, r.randbytes(32), bytes(N)): ver(L, sig + x, m, pk, False, "a signature with trailing bytes")
        for n in (0, N + 1, 1 << 32, (1 << 32) + N, (1 << 64) - 1):
            if L.call("vf_s_verify", inbuf(sig + bytes(8)), n, inbuf(m), len(m), inbuf(pk)) == 0: raise Violation("SPHINCS+ verification accepts a stated length of %d" % n, {})
    return ev

def nearmiss(L, it):
    """signatures made with a secret key whose stated root is altered: right in everything except the final comparison"""
    seed, tws = it; pk, sk = kp(L, seed); r = D.rng("c17r", seed, tws); ev = []
    for tw in tws:
        x = bytes(a ^ b for a, b in zip(pk[32:], tw)); m = r.randbytes(r.choice((1, 32, 64))); p2 = pk[:32] + x; sig = sign(L, m, sk[:96] + x, r.randbytes(32))
        ev.append(ver(L, sig, m, p2, False, "a root that differs by %s from the recomputed one" % hx(tw)))
    return ev[:1]

def check(c):
    so = c.lib(); r = c.rnd; from ..core import lib; L = lib(so)
    seeds = [D.special_seed(r, 96, k % 4 if k < 4 else 0) for k in range(6)]
    corner, cls = choose(seeds, L, c.pick(24, 200), c.pick(6000, 60000), r); c.log("digest corner classes covered:", cls); c.cov["digest_corner_classes"] = cls
    jobs = [(s, m, o, i < c.pick(6, 40)) for i, (s, m, o) in enumerate(corner)]
    lens = [0, 1, 2, 7, 8, 31, 32, 39, 40, 41, 63, 64, 65, 71, 72, 73, 103, 104, 105, 135, 136, 137, 175, 176, 177, 207, 208, 209, 500, 1000, 4096]
    jobs += [(r.choice(seeds), D.message(r, n, n % 6) if n else b"", D.special_seed(r, 32, n % 4), False) for n in (lens if c.thorough else lens[:24:2] + lens[1:24:2][:9] + lens[24:])]
    keys = seeds[:4] + [D.special_seed(D.rng("c17k", c.seed, k), 96, k % 4) for k in range(c.pick(12, 150))]
    keys += [bytes(32 * i) + b"\xff" * 32 + bytes(64 - 32 * i) for i in range(3)]
    ev = []
    for f, its in ((keygen, keys), (signing, jobs), (shapes, [(k, k < c.pick(1, 6)) for k in range(c.pick(6, 60))])):
        res = c.pmap(f, its, so=so)
        if c.viol: return
        ev += [e for x in res for e in x]
    tws = D.tweaks(r) * c.pick(1, 3); its = [(seeds[(k // 12) % 6], tuple(tws[k:k + 12])) for k in range(0, len(tws), 12)]
    # roots with a zero byte early on, differing only behind it
    zs = []; k = 0
    while len(zs) < c.pick(3, 12):
        s = D.rng("c17z", k).randbytes(96); k += 1; pk, sk = kp(L, s); z = pk[32:].find(b"\0")
        if 0 <= z < 10: zs.append((s, tuple(bytes(i) + bytes([1 << r.randrange(8)]) + bytes(31 - i) for i in range(z + 1, 32, 3))))
        if k > 400: break
    res = c.pmap(nearmiss, its + zs, so=so)
    if c.viol: return
    ne = [e for x in res for e in x]; c.count("near_miss_roots", len(tws)); ev += ne[:c.pick(3, 40)] + ne[-2:]
    step = 25; its = [(k, j, min(1558, j + step)) for k in range(c.pick(4, 60)) for j in range(0, 1558, step)]
    res = c.pmap(nodes, its, so=so, chunk=2)
    if c.viol: return
    c.count("node_flips", len(its) * step); ne = [e for x in res for e in x]; r.shuffle(ne); ev += ne[:c.pick(10, 150)]
    c.log(len(ev), "events to TLC"); c.conform(ev, "SPHINCS+ calls")
