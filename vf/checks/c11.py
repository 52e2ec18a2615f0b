"""C11 seeded key generation is the documented deterministic function."""
import json, ctypes as C
from ..core import Violation, hx
from ..lib import Out, inbuf
from .. import drv as D, tlc as T
LEVEL = "model_checking"
KPS = {"ed": (32, 64, 0, 32), "d": (1312, 2560, 32, 32), "s": (64, 128, 64, 96)}

def gen(L, seed, f="h_keypair_seed"):
    b = inbuf(seed); pk, sk = Out(1408), Out(4064); rc = L.call("vf_" + f, pk.addr, sk.addr, b)
    case = {"seed": hx(seed)}
    if rc != 0: raise Violation("seeded key generation failed with %d" % rc, case)
    if b.raw[:160] != seed: raise Violation("seeded key generation modified its seed", case)
    if not (pk.canary_ok() and sk.canary_ok()): raise Violation("key generation wrote outside the key buffers", case)
    return pk.bytes(), sk.bytes()

def parts(L, it):
    """layout, component agreement, determinism, random generation"""
    seed = it; pk, sk = gen(L, seed); case = {"seed": hx(seed), "pk": hx(pk), "sk": hx(sk)}
    if sk[32:64] + sk[2624:3936] + sk[4000:4064] != pk: raise Violation("the public key cannot be recovered from the secret key", case)
    want = {"pk": b"", "sk": b""}
    for n, (pn, sn, off, ln) in KPS.items():
        rc, p, s = L._kp("vf_%s_keypair_seed" % n, pn, sn, seed[off:off + ln])
        if rc != 0: raise Violation("%s seeded key generation failed" % n, case)
        if not (p.canary_ok() and s.canary_ok()): raise Violation("%s key generation wrote outside its buffers" % n, case)
        want["pk"] += p.bytes(); want["sk"] += s.bytes() + (p.bytes() if n == "d" else b"")
        # the component's own random key generation is its seeded one on the drawn bytes
        L.rng(seed[off:off + ln]); rc, p2, s2 = L._kp("vf_%s_keypair" % n, pn, sn)
        if rc != 0 or L.delivered() != ln or (p2.bytes(), s2.bytes()) != (p.bytes(), s.bytes()): raise Violation("%s random key generation is not seeded generation on the %d drawn bytes" % (n, ln), case)
    if want["pk"] != pk or want["sk"] != sk: raise Violation("hybrid keys are not the concatenation of the component keys", case)
    for fill in (0x00, 0xff):
        L.dll.vf_stack_fill(fill); L.dll.vf_heap_fill(fill)
        try:
            if gen(L, seed) != (pk, sk): raise Violation("seeded key generation is not a function of the seed", case)
        finally: L.dll.vf_stack_fill(-1); L.dll.vf_heap_fill(-1)
    L.rng(seed); rc, p, s = L.h_keypair()
    if rc != 0 or L.delivered() != 160 or (p.bytes(), s.bytes()) != (pk, sk): raise Violation("random key generation is not seeded generation on the 160 drawn bytes (drew %d)" % L.delivered(), case)
    L.rng(seed, [1, 7, -4, 30, 60, -4]); rc, p, s = L.h_keypair()
    if rc != 0 or (p.bytes(), s.bytes()) != (pk, sk): raise Violation("random key generation depends on how the bytes are delivered", case)
    return dict(op="hkey", ok=True, seed=hx(seed), pk=hx(pk), sk=hx(sk))

def locality(L, it):
    """flips of one seed byte change exactly the intervals of the layout"""
    base, b, mp, ms, bits, ev = it; pk, sk = gen(L, base); out = []
    for bit in bits:
        s2 = D.flip(base, 8 * b + bit); p2, k2 = gen(L, s2)
        for name, a, z, must in (("public", pk, p2, mp), ("secret", sk, k2, ms)):
            ch = {i for i in range(len(a)) if a[i] != z[i]}
            inside = {i for at, n in must for i in range(at, at + n)}
            case = {"seed": hx(base), "byte": b, "bit": bit}
            if ch - inside: raise Violation("seed byte %d changes %s key byte %d, outside its own component" % (b, name, min(ch - inside)), case)
            for at, n in must:
                if not any(i in ch for i in range(at, at + n)): raise Violation("seed byte %d has no influence on %s key bytes %d..%d" % (b, name, at, at + n - 1), case)
        if ev: out.append(dict(op="hkey", ok=True, seed=hx(s2), pk=hx(p2), sk=hx(k2))); ev = False
    return out

def check(c):
    so = c.lib()
    r = T.check(c.scratch, "machines/Layout.tla", "SPECIFICATION Spec\nINVARIANT Lost\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1); c.model(r)
    dep = {}
    for l in r.lines("DEP"):
        a = l[2:-2].split(",", 2); i = a[2].index('", "'); dep[int(a[1])] = (json.loads(json.loads(a[2][:i + 1].strip())), json.loads(json.loads(a[2][i + 2:].strip())))
    if len(dep) != 160: raise T.TlcError("layout table incomplete")
    seeds = [D.special_seed(D.rng("c11", c.seed, k), 160, k % 4) for k in range(c.pick(160, 1200))]
    for k in range(3):      # one component all zero / all ones, the others random
        for v in (0, 255):
            off, ln = ((0, 32), (32, 32), (64, 96))[k]; seeds.append(D.put(D.rng("c11p", k, v).randbytes(160), off, bytes([v]) * ln))
    ev = c.pmap(parts, seeds, so=so)
    if c.viol: return
    base = c.bytes(160); its = []
    for b in range(160): its.append((base, b, *dep[b], list(range(8)) if c.thorough else [c.rnd.randrange(8), (b % 8)], c.thorough or b % 8 == c.seed % 8))
    its += [(bytes(160), b, *dep[b], [b % 8], False) for b in range(160)]
    res = c.pmap(locality, its, so=so); c.count("seed_flips", sum(len(i[4]) for i in its))
    if c.viol: return
    c.conform([e for e in ev if e] + [e for x in res if x for e in x], "key generations")
