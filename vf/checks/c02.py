"""C02 compact mode: both component signatures and the SPHINCS+ key binding are required."""
import hashlib
from ..core import Violation, hx
from .. import drv as D, proto as P
LEVEL = "model_checking"

def nonces(r, k):
    """random bytes the OS may deliver: arbitrary, and patterns that naive code mishandles"""
    k %= 6
    if k == 1: return bytes(40)
    if k == 2: return b"\xff" * 40
    if k == 3: z = r.randrange(1, 40); return bytes(z) + r.randbytes(40 - z)
    if k == 4: z = r.randrange(1, 40); return r.randbytes(40 - z) + bytes(z)
    if k == 5: return bytes([r.randrange(256)]) * 40
    return r.randbytes(40)

def components(L, it, mode="c"):
    """for one message length: a genuine signature in which each single component or bound field is replaced"""
    n, seed, kind = it[:3]
    r = D.rng("comp", mode, n, seed, kind)
    pk, sk = L.keys(r.randbytes(160)); pk2, sk2 = L.keys(r.randbytes(160))
    m = D.message(r, n, kind); st = nonces(r, kind + n) + r.randbytes(24)
    sm = D.must_sign(L, mode, m, sk, st); D.must_open(L, mode, sm, m, pk)
    f = D.fields(mode, n); cnt = 0
    other = D.must_sign(L, mode, D.flip(m, r.randrange(8 * n)), sk, r.randbytes(64))   # other message, same key
    again = D.must_sign(L, mode, m, sk, r.randbytes(64))                               # same message, other nonce
    theirs = D.must_sign(L, mode, m, sk2, st)                                          # other key, same message and nonce
    def rej(x, key, why):
        nonlocal cnt; cnt += 1
        D.must_reject(L, mode, x, key, why)
    for comp in ("ed", "dil") + (("sph",) if mode == "f" else ()):
        off, ln = f[comp]; g = D.get(sm, f[comp])
        for why, x in (("a zero", bytes(ln)), ("a random", r.randbytes(ln)), ("the other message's", D.get(other, f[comp])),
                       ("another key's", D.get(theirs, f[comp])), ("an all-ones", b"\xff" * ln),
                       ("a partly replaced", g[:ln // 2] + r.randbytes(ln - ln // 2)), ("a partly replaced", r.randbytes(ln // 2) + g[ln // 2:])) \
                     + ((("another nonce's", D.get(again, f[comp])),) if mode == "c" else ()):
            rej(D.put(sm, off, x), pk, "%s %s component" % (why, comp))
        for _ in range(it[3]):
            b = r.randrange(8 * ln); rej(D.put(sm, off, D.flip(g, b)), pk, "%s component with bit %d flipped" % (comp, b))
    # all components but one replaced by ones valid for the other message
    for comp in ("ed", "dil") + (("sph",) if mode == "f" else ()):
        x = D.put(other, f[comp][0], D.get(sm, f[comp])); rej(x, pk, "only the %s component valid for a spliced message" % comp)
        y = D.put(x, f["msg"][0], m) if mode == "f" else D.put(D.put(x, f["msg"][0], m), f["nonce"][0], D.get(sm, f["nonce"]))
        rej(y, pk, "only the %s component valid" % comp)
    # the bound fields: nonce, message, each part of the key
    for fld in ("nonce", "msg") if mode == "c" else ("msg",):
        off, ln = f[fld]
        for j in range(ln) if it[4] else r.sample(range(ln), min(ln, 6)):
            rej(D.flip(sm, 8 * (off + j) + r.randrange(8)), pk, "%s byte %d changed" % (fld, j))
    for part, (off, ln) in D.pkfields().items():
        rej(sm, D.put(pk, off, D.get(pk2, (off, ln))), "under a key with another %s part" % part)
        for j in (range(ln) if it[4] and ln <= 64 else r.sample(range(ln), 6)):
            if mode == "f" and part == "sph" and not it[4] and j % 2: continue
            b = 8 * (off + j) + r.randrange(8)
            rej(sm, D.flip(pk, b), "under a key whose %s part differs in bit %d" % (part, b - 8 * off))
    return cnt

def run(c, mode, lens, fn):
    so = c.lib()
    P.model(c)
    for l in lens:
        P.replay(c, so, mode, l, maxev=c.pick(40, 200))
        if c.viol: return so
    if mode == "c": its = [(n, c.seed, k, c.pick(6, 40), True) for n in range(1, 65) for k in (range(8) if c.thorough else sorted({n % 8, (n // 8 + 3) % 8}))]
    else: its = [(n, c.seed, n % 8, c.pick(3, 20), n % 8 == 0 or n < 3 or c.thorough) for n in range(1, 65)]
    res = c.pmap(fn, its, so=so)
    c.count("evaluations", sum(x or 0 for x in res))
    c.cov["rule"] = "genuine signatures of every message length with one component, bound field or key part replaced; plus every symbolic scenario of HybridProtocol.tla"
    return so

def check(c):
    so = run(c, "c", [(33, 33)] if not c.thorough else [(33, 33), (1, 64), (64, 2), (17, 18)], components)
    if not c.viol and P.confusion(c, so)[0]:
        c.known_finding("full signature over the 64-byte message SHA3-512(nonce||m||SPHINCS+ pk) rearranged into an accepted compact signature of m (no domain separation between modes)", "cross-mode-full-to-compact")
