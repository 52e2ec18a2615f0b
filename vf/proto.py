"""Symbolic protocol model (HybridProtocol.tla): model checking, scenario generation, replay."""
import os, json, hashlib
from .core import Violation, hx
from . import tlc as T, drv as D

CFG = 'CONSTANTS NK=2 NN=2 NM=2 MaxIssue=%d Variant="%s"\nCHECK_DEADLOCK FALSE\n'
MACH = "machines/HybridProtocol.tla"

def model(c):
    """the combiner's security, and that the invariant distinguishes wrong combiners"""
    r = T.check(c.scratch, MACH, "SPECIFICATION Spec\nINVARIANT Unforgeable\n" + CFG % (c.pick(2, 3), "spec"))
    c.model(r); c.log("Unforgeable holds on", r.distinct, "states")
    for v in ("or", "nosph", "nononce", "nomsg", "noed") if c.thorough else ("or", "nosph"):
        r = T.run(c.scratch, MACH, "SPECIFICATION Spec\nINVARIANT Unforgeable\n" + CFG % (2, v))
        if "Invariant Unforgeable is violated" not in r.out: raise T.TlcError("the invariant does not reject the wrong combiner " + v)
    c.cov["wrong_combiners_rejected_by_model"] = 5 if c.thorough else 2

def scenarios(c, kind):
    out = os.path.join(c.scratch, "sc.ndjson")
    r = T.check(c.scratch, MACH, "INIT Init\nNEXT Next\nPOSTCONDITION EmitScenarios\n" + CFG % (0, "spec"), env={"VF_OUT": out, "VF_KIND": kind})
    sc = [json.loads(l) for l in open(out)]
    if len(sc) < 1000 or not any(s["accept"] for s in sc): raise T.TlcError("scenario generation produced %d scenarios" % len(sc))
    return sc

class World:
    """concrete keys, messages and nonces behind the symbolic names, and all component signatures"""
    def __init__(self, L, seed, lens):
        r = D.rng("world", seed, lens); self.r = r
        self.keys = {k: L.keys(r.randbytes(160)) for k in (1, 2)}
        self.msgs = {i + 1: r.randbytes(n) for i, n in enumerate(lens)}
        if lens[0] == lens[1]:       # equal lengths: the two messages differ in one byte only
            self.msgs[2] = D.flip(self.msgs[1], r.randrange(8 * lens[0]))
        self.nonces = {1: r.randbytes(40)}
        self.nonces[2] = D.flip(self.nonces[1], r.randrange(320))
        self.comp = {}; self.L = L
    def payload(self, p):
        if p["t"] == "m": return self.msgs[p["m"]]
        return hashlib.sha3_512(self.nonces[p["n"]] + self.msgs[p["m"]] + self.keys[p["k"]][0][1344:]).digest()
    def sig(self, scheme, comp, salt=0):
        L = self.L
        if comp["by"] == 0:
            n = {"ed": 64, "dil": 2420, "sph": 49856}[scheme]
            j = salt % 4; r = D.rng("junk", scheme, salt)
            if j == 0: return bytes(n)
            if j == 1: return r.randbytes(n)
            g = self.comp[(scheme, 1, "m", 0, 1, 0)]
            return D.flip(g, r.randrange(8 * n)) if j == 2 else D.put(g, r.randrange(n - 8), r.randbytes(8))
        p = comp["p"]; key = (scheme, comp["by"], p["t"], p["n"], p["m"], p["k"])
        if key not in self.comp: self.comp[key] = self._make(scheme, comp["by"], self.payload(p))
        return self.comp[key]
    def _make(self, scheme, by, m):
        L = self.L; sk = self.keys[by][1]
        if scheme == "ed": rc, o, n = L.ed_sign(m, sk[:64]); s = o.bytes(64)
        elif scheme == "dil": rc, o, n = L.d_signature(m, sk[64:2624]); s = o.bytes()
        else:
            L.rng(self.r.randbytes(64)); rc, o, n = L.s_signature(m, sk[3936:]); s = o.bytes()
        if rc: raise Violation("component signing (%s) failed with %d" % (scheme, rc), {"m": hx(m), "sk": hx(sk)})
        return s
    def pk(self, p):
        return self.keys[p["ed"]][0][:32] + self.keys[p["dil"]][0][32:1344] + self.keys[p["sph"]][0][1344:]
    def blob(self, s, salt=0):
        m = self.payload(s["msg"])
        if s["mode"] == "c":
            return bytes([1, len(m)]) + self.sig("ed", s["ed"], salt) + self.sig("dil", s["dil"], salt // 4) + self.nonces[s["nonce"]] + m, m
        return bytes([2, len(m)]) + self.sig("ed", s["ed"], salt) + m + self.sig("dil", s["dil"], salt // 4) + self.sig("sph", s["sph"], salt // 16), m

_W = {}; _SC = []
def world(L, key):
    if key not in _W:
        w = _W[key] = World(L, *key)
        for sch in ("ed", "dil") + (("sph",) if key[0][0] == "f" else ()):
            w.sig(sch, {"by": 1, "p": {"t": "m", "n": 0, "m": 1, "k": 0}})
    return _W[key]

def _replay(L, it):
    key, idx = it
    w = world(L, key); w.L = L; ev = []
    for i in idx:
        s = _SC[i]; pk = w.pk(s["pk"]); sm, m = w.blob(s["s"], i); mode = s["s"]["mode"]
        case = {"scenario": s, "sm": hx(sm), "pk": hx(pk), "m": hx(m)}
        rc, o, n = L.open(mode, sm, pk)
        if (rc == 0) != s["accept"]:
            raise Violation("%s open %s a candidate that the specification %s" % (mode, "accepts" if rc == 0 else "rejects", "accepts" if s["accept"] else "rejects"), case)
        if rc == 0 and (n != len(m) or o.bytes(len(m)) != m): raise Violation("%s open returned a different message" % mode, case)
        if s["accept"] or mode == "c" or i % 3 == 0:
            if (L.verify(mode, m, sm, pk) == 0) != s["accept"]:
                raise Violation("%s verify disagrees with the specification on a spliced candidate" % mode, case)
        if s["accept"] or i % 400 == 7: ev.append(D.ev_open(mode, sm, pk, rc, m))
    return ev

def warm(L, it):
    """creates the component signatures a world needs, in parallel pieces, and returns them"""
    key, names = it
    w = world(L, key); w.L = L
    for scheme, comp in names: w.sig(scheme, comp)
    return w.comp

def replay(c, so, mode, lens, maxev=60, thin=1):
    """replays every scenario; lens: the lengths of the two symbolic messages"""
    global _SC
    if not _SC: _SC = scenarios(c, mode)
    from .core import lib
    key = ((mode, c.seed), lens)
    names = {}
    for s in _SC:
        for sch in ("ed", "dil", "sph"):
            x = s["s"][sch]
            if x["by"]: names[(sch, x["by"], x["p"]["t"], x["p"]["n"], x["p"]["m"], x["p"]["k"])] = (sch, x)
    L = lib(so); w = world(L, key)
    names = list(names.values()); parts = [names[i::8] for i in range(8)]
    for comp in c.pmap(warm, [(key, p) for p in parts], so=so): w.comp.update(comp or {})
    if c.viol: return
    n = len(_SC); idx = list(range(0, n, thin)); step = 100
    D.rng("order", lens).shuffle(idx)
    res = c.pmap(_replay, [(key, idx[i:i + step]) for i in range(0, len(idx), step)], so=so)
    c.count("scenarios_replayed", len(idx)); c.count("scenarios_accepting", sum(_SC[i]["accept"] for i in idx))
    if c.viol: return
    ev = [e for r in res if r for e in r]
    acc = [e for e in ev if e["ok"]]; rej = [e for e in ev if not e["ok"]]
    D.rng("ev", c.seed).shuffle(acc); D.rng("ev", c.seed).shuffle(rej)
    c.sample({"scenario": _SC[n // 2], "lens": lens})
    c.conform(acc[:maxev // 2] + rej[:maxev // 2], "spliced candidates")

def confusion(c, so):
    """the known finding of the model (Confused), demonstrated on the real code; returns True if it is present"""
    from .core import lib
    L = lib(so); r = D.rng("confusion", c.seed)
    pk, sk = L.keys(r.randbytes(160)); m = r.randbytes(20); nonce = r.randbytes(40)
    h = hashlib.sha3_512(nonce + m + pk[1344:]).digest()
    f = D.must_sign(L, "f", h, sk, r.randbytes(64))
    F = D.fields("f", 64)
    forged = bytes([1, len(m)]) + D.get(f, F["ed"]) + D.get(f, F["dil"]) + nonce + m
    full_to_compact = L.open("c", forged, pk)[0] == 0
    # compact -> full needs a forged SPHINCS+ component, here made with the signer's SPHINCS+ key only
    cs = D.must_sign(L, "c", m, sk, nonce); C = D.fields("c", 20)
    L.rng(r.randbytes(64)); rc, o, n = L.s_signature(h, sk[3936:])
    forged = bytes([2, 64]) + D.get(cs, C["ed"]) + h + D.get(cs, C["dil"]) + o.bytes()
    compact_to_full = L.open("f", forged, pk)[0] == 0
    return full_to_compact, compact_to_full
