"""C12 key-seed expander: documented layout and influence of every seed byte."""
from ..core import Violation, hx
from ..lib import Out, inbuf
from .. import drv as D
LEVEL = "model_checking"

def expand(L, seed):
    b = inbuf(seed); o = Out(160); rc = L.call("vf_h_expander", b, o.addr); case = {"seed": hx(seed)}
    if rc != 0: raise Violation("seed expansion failed with %d" % rc, case)
    if b.raw[:96] != seed: raise Violation("seed expansion modified its input", case)
    if not o.canary_ok(): raise Violation("seed expansion wrote outside its 160 output bytes", case)
    return o.bytes()

def one(L, seed):
    x = expand(L, seed); case = {"seed": hx(seed), "out": hx(x)}
    if x[32:64] != seed[64:]: raise Violation("bytes 32-63 are not the last 32 seed bytes", case)
    for fill in (0x00, 0xff, 0x5a):
        L.dll.vf_stack_fill(fill)
        try:
            if expand(L, seed) != x: raise Violation("seed expansion is not a function of the seed", case)
        finally: L.dll.vf_stack_fill(-1)
    # the 128 expanded bytes are the general SHAKE-256 expander's output for some 64-byte seed
    return dict(op="expand", ok=True, seed=hx(seed), out=hx(x))

def influence(L, it):
    """which output parts a seed byte influences: (byte, expanded parts changed)"""
    seed, b = it; x = expand(L, seed); ch = set()
    for bit in range(8):
        y = expand(L, D.flip(seed, 8 * b + bit)); case = {"seed": hx(seed), "byte": b, "bit": bit}
        if b >= 64:
            if y[:32] != x[:32] or y[64:] != x[64:]: raise Violation("seed byte %d (Dilithium part) changes the expanded bytes" % b, case)
            if y[32:64] != D.flip(x[32:64], 8 * (b - 64) + bit): raise Violation("seed byte %d is not copied unchanged" % b, case)
        else:
            if y[32:64] != x[32:64]: raise Violation("seed byte %d changes the copied bytes 32-63" % b, case)
            ch.add((y[:32] != x[:32], y[64:96] != x[64:96], y[96:128] != x[96:128], y[128:] != x[128:]))
    return b, sorted(ch)

def check(c):
    so = c.lib()
    seeds = [D.special_seed(D.rng("c12", c.seed, k), 96, k % 4) for k in range(c.pick(1500, 12000))]
    seeds += [bytes([v]) * 96 for v in range(256)] + [bytes(i) + b"\1" + bytes(95 - i) for i in range(96)] + [b"\xff" * i + b"\0" + b"\xff" * (95 - i) for i in range(96)]
    ev = c.pmap(one, seeds, so=so, chunk=32)
    if c.viol: return
    drop = set()
    for s in range(c.pick(6, 40)):
        base = D.special_seed(D.rng("c12i", c.seed, s), 96, s % 4)
        for x in c.pmap(influence, [(base, b) for b in range(96)], so=so, chunk=12):
            if not x or x[0] >= 64: continue
            b, ch = x
            if ch == [(True,) * 4]: continue
            if ch == [(False,) * 4]: drop.add(b)
            else: c.violation("bits of seed byte %d influence only some expanded parts: %s" % (b, ch), {"seed": hx(base)})
        if c.viol: return
        c.count("influence_flips", 96 * 8)
    known = {1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 33, 35, 37, 39, 41, 43, 45, 47, 49, 51, 53, 55, 57, 59, 61, 63}
    for b in sorted(drop - known): c.violation("seed byte %d never influences the expanded seed" % b)
    if drop & known: c.known_finding("seed bytes %s never influence the expanded seed (the copy loop advances its index twice)" % ",".join(map(str, sorted(drop & known))), "seed-expander-stride")
    if not c.viol: c.conform([e for e in ev if e], "expansions")
