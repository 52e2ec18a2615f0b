"""C08 entropy failure fails closed everywhere."""
from ..core import Violation, hx
from ..lib import Out, inbuf, LEN_SENTINEL
from .. import drv as D, tlc as T
import ctypes as C
LEVEL = "model_checking"
KP = {"h_keypair": (1408, 4064), "ed_keypair": (32, 64), "d_keypair": (1312, 2560), "s_keypair": (64, 128), "n_box_keypair": (32, 32)}
_K = {}
def keys(L, seed):
    if seed not in _K: _K[seed] = L.keys(D.rng("c08k", seed).randbytes(160))
    return _K[seed]

def invoke(L, f, seed, m):
    if f in KP:
        rc, p, s = L._kp("vf_" + f, *KP[f]); return rc, p.bytes() + s.bytes(), 0
    pk, sk = keys(L, seed)
    if f in ("c_sign", "f_sign"):
        rc, o, n = L.sign(f[0], m, sk); return rc, o.bytes(), n
    if f == "s_signature": rc, o, n = L.s_signature(m, sk[3936:])
    else: rc, o, n = L.sig("vf_s_sign", 49856 + len(m), inbuf(m), len(m), inbuf(sk[3936:]))
    return rc, o.bytes(), n

def fail(L, it):
    """the OS fails after delivering k bytes, in the given style; later draws would succeed"""
    f, k, need, style, seed = it; r = D.rng("c08", it); m = r.randbytes(r.randrange(1, 65))
    err = r.choice((5, 14, 38, 22, 12))
    pre = {"once": [k] if k else [], "bytes": [1] * k, "intr": [x for _ in range(k) for x in (1, -4)], "long": [k, ] if k else []}[style]
    script = pre + [-err] * (1 if style != "long" else 400)
    stream = r.randbytes(512)
    L.rng(stream, script); rc, out, n = invoke(L, f, seed, m); calls = L.rng_log()
    if not any(c[2] < 0 and c[3] != 4 for c in calls): raise Violation("%s never reached the failing draw: it used fewer than %d random bytes" % (f, k + 1), {"f": f, "script": script, "calls": calls[:20]})
    if rc == 0: raise Violation("%s returned success although the OS randomness failed after %d bytes" % (f, k), {"f": f, "script": script, "stream": hx(stream), "m": hx(m)})
    return 1

def good(L, it):
    """success under piecemeal delivery: the bytes are all drawn and the result is the specified function of them"""
    f, need, seed, sub = it; r = D.rng("c08g", it); m = r.randbytes(r.randrange(1, 65)); stream = r.randbytes(400)
    script = [] if sub == 0 else [r.choice((1, 2, 3, 8, -4)) for _ in range(40)]
    L.rng(stream, script); rc, out, n = invoke(L, f, seed, m); dl = L.delivered()
    case = {"f": f, "stream": hx(stream), "script": script, "m": hx(m)}
    if rc != 0: raise Violation("%s failed with %d although the OS delivered all bytes" % (f, rc), case)
    if dl < need: raise Violation("%s succeeded with only %d of %d random bytes" % (f, dl, need), case)
    ev = None
    if dl == need:
        s = stream[:need]
        if f == "h_keypair": ev = dict(op="hkey", ok=True, seed=hx(s), pk=hx(out[:1408]), sk=hx(out[1408:]))
        elif f == "ed_keypair": ev = dict(op="edkey", ok=True, seed=hx(s), pk=hx(out[:32]), sk=hx(out[32:]))
        elif f == "d_keypair": ev = dict(op="dkey", ok=True, seed=hx(s), pk=hx(out[:1312]), sk=hx(out[1312:]))
        elif f == "s_keypair": ev = dict(op="skey", ok=True, seed=hx(s), pk=hx(out[:64]), sk=hx(out[64:]))
        elif f == "n_box_keypair": ev = dict(op="nacl", f="base", ok=out[32:] == s, a=hx(s), out=hx(out[:32]))
        elif f == "c_sign": ev = D.ev_csign(m, keys(L, seed)[1], s, out)
        elif f == "f_sign": ev = D.ev_fsign(m, keys(L, seed)[1], s, out)
    else: raise Violation("%s drew %d random bytes instead of %d" % (f, dl, need), case)
    return ev

def influence(L, it):
    """every single random byte changes the result"""
    f, need, seed, pos = it; r = D.rng("c08i", f, seed); m = b"influence"; stream = r.randbytes(400)
    L.rng(stream); base = invoke(L, f, seed, m)
    for i in pos:
        s2 = D.flip(stream, 8 * i + D.rng(it, i).randrange(8)); L.rng(s2); x = invoke(L, f, seed, m)
        if x[0] == 0 and x[1] == base[1]: raise Violation("random byte %d of %d has no influence on the result of %s" % (i, need, f), {"f": f, "stream": hx(stream)})
    return len(pos)

def check(c):
    so = c.lib()
    r = T.check(c.scratch, "machines/Entropy.tla", "SPECIFICATION Spec\nINVARIANT FailClosed\nINVARIANT Emit\nPROPERTY Answers\nCHECK_DEADLOCK FALSE\n", workers=1)
    c.model(r); sc = set()
    for l in r.lines("RUN"):
        a = [x.strip().strip('"') for x in l[2:-2].split(",")]; sc.add((a[1], int(a[2]), a[3], int(a[4])))
    sc = sorted(sc)
    if len(sc) < 400: raise T.TlcError("too few runs")
    c.sample({"run": sc[0]})
    its = [(f, k, need, st, c.seed) for f, k, res, need in sc if res == "error" for st in (("once", "bytes", "intr", "long") if f != "f_sign" or k % 8 == 0 or c.thorough else ("once",))]
    c.log(len(its), "failing executions")
    res = c.pmap(fail, its, so=so, chunk=16); c.traces(len(its))
    if c.viol: return
    fns = sorted({(f, need) for f, k, x, need in sc}); g = []; inf = []
    for f, need in fns:
        slow = f in ("f_sign", "s_sign", "s_signature")
        for sub in range(c.pick(3 if slow else 6, 24)): g.append((f, need, c.seed + sub, sub % 2))
        pos = list(range(need))
        if slow and not c.thorough: pos = c.rnd.sample(pos, 8) + [0, need - 1]
        inf += [(f, need, c.seed, pos[i:i + 8]) for i in range(0, len(pos), 8)]
    ev = c.pmap(good, g, so=so)
    if c.viol: return
    res = c.pmap(influence, inf, so=so); c.count("influence_flips", sum(x or 0 for x in res))
    if c.viol: return
    c.conform([e for e in ev if e], "results with recorded randomness")
