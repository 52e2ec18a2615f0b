"""C21 the WASM layer: wrappers are faithful, released memory is erased; natively and on wasm32."""
import os, json, ctypes as C
from ..core import Violation, hx
from ..lib import Crash, SIGN
from .. import drv as D, tlc as T, build as B, wasm as W, calls as K
from . import c07 as A
LEVEL = "model_checking"
MACH = "machines/Wasm.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS Sizes={%s} MaxOps=%d MaxBlocks=%d Variant="%s"\nINVARIANT Erased\nINVARIANT Faithful\n%sCHECK_DEADLOCK FALSE\n'
LIBFN = {"keyseed": "crypto_sign_dilithium_ed25519_sphincs_keypair_seed", "keypair": "crypto_sign_dilithium_ed25519_sphincs_keypair", "csign": "crypto_sign_compact_dilithium_ed25519_sphincs",
         "cverify": "crypto_verify_compact_dilithium_ed25519_sphincs", "expander": "crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander", "random": "randombytes", "prng": "seedexpander_wrapper"}
NATIVE = {"keyseed": "vf_h_keypair_seed", "keypair": "vf_h_keypair", "csign": "vf_c_sign", "cverify": "vf_c_verify", "expander": "vf_h_expander", "random": "vf_randombytes", "prng": "vf_prng_wrapper"}
_BIND = {}
def A_MOK(mc): return mc in ("one", "mid", "max", "na")
SCRIPT = {"ok": [], "na": [], "fail": [-5], "failmid": [11, -5], "eintr": [-4, 7, -4, 5]}

class Case:
    def __init__(self, g, args, stream=b"", rng="ok", s=None): self.g, self.args, self.stream, self.rng, self.s = g, args, stream, rng, s
    def show(self): return {"function": self.g, "args": [a if a[0] != "in" else ("in", hx(a[1])[:400]) for a in self.args], "rng": self.rng, "scenario": self.s}

def concrete(L, s, n, seed):
    """a scenario of Api.tla as a list of arguments"""
    r = D.rng("c21", json.dumps(s, sort_keys=True), n, seed); w = A.world(L, seed, n); f = s["f"]; nul = set(s["nul"])
    P = lambda name, a: ("null",) if name in nul else a
    st = r.randbytes(200)
    if f == "expander": args = [P("seed", ("in", r.randbytes(96))), P("out", ("out", 160))]
    elif f == "keyseed": args = [P("pk", ("out", 1408)), P("sk", ("out", 4064)), P("seed", ("in", r.randbytes(160)))]
    elif f == "keypair": args = [P("pk", ("out", 1408)), P("sk", ("out", 4064))]
    elif f == "csign":
        ml = A.mlen_of(s["mc"], n, r); args = [P("sm", ("out", 2526 + 64)), P("smlen", ("len",)), P("m", ("in", (w["m"] + r.randbytes(1300))[:1300])), ("val", ml), P("sk", ("in", w["sk"]))]
    else:
        sm = A.corrupt("c", w["c"], n, s["body"], r); sl = A.slen_of(s["sc"], len(sm), 2527, 2590, r); ml = A.mlen_of(s["mc"], n, r); m = w["m"]
        if s["mc"] in ("one", "max"): m = (m + m + bytes(64))[:ml] if ml != n else bytes(x ^ 1 for x in m)
        args = [P("m", ("in", m + bytes(1200))), ("val", ml), P("sm", ("in", sm + r.randbytes(1200))), ("val", sl), P("pk", ("in", w["pk2"] if s["body"] == "wrongkey" else w["pk"]))]
    return Case(f, args, st, s["rng"], s)
def more(seed, quick):
    """PRNG and randomness: lengths around every boundary, NULL arguments, failing sources"""
    r = D.rng("c21m", seed); out = []
    for sl in (0, 1, 31, 32, 33, 40, 64, 96, 200):
        for ol in sorted({0, 1, sl - 1, sl, sl + 1, 64, 65, 135, 136, 137, 300, 1000} - {-1}):
            for nul in ((), ("seed",), ("out",)):
                if nul and ol != 300: continue
                out.append(Case("prng", [("null",) if "seed" in nul else ("in", r.randbytes(sl)), ("val", sl), ("null",) if "out" in nul else ("out", max(ol, 1)), ("val", ol)]))
    for n in (0, 1, 2, 31, 32, 40, 160, 255, 256, 257, 300, 1000, 4096):
        for rng in ("ok", "fail", "failmid", "eintr"):
            if n < 12 and rng in ("failmid", "eintr"): continue
            out.append(Case("random", [("out", max(1, n)), ("val", n)], r.randbytes(n + 8), rng))
    return out

def native(L, case, f):
    bufs = []; v = []; live = L.dll.vf_live()
    for a in case.args:
        if a[0] == "val": v.append(a[1])
        elif a[0] == "null": v.append(0)
        else:
            b = C.create_string_buffer(a[1] if a[0] == "in" else b"", max(1, len(a[1]))) if a[0] == "in" else C.create_string_buffer((a[1] if a[0] == "out" else 8) + 64)
            if a[0] != "in": C.memset(b, 0xa5, len(b))
            bufs.append(b); v.append(b)
    L.rng(case.stream, SCRIPT[case.rng])
    try: rc = L.call(f, *v)
    except Crash as e: return ("crash",)
    return rc, [b.raw for b in bufs], [(n, ret, err) for p, n, ret, err in L.rng_log()], L.dll.vf_live() - live
def wrappers(L, cases):
    """the wrapper and the library function on equal arguments, memory and randomness: same result, effect and draws"""
    inv = {g: w for w, g in _BIND.items()}; out = []
    for c in cases:
        a = native(L, c, NATIVE[c.g]); b = native(L, c, inv[c.g])
        if a != b:
            what = "return value %s instead of %s" % (b[0], a[0]) if a[0] != b[0] else "another effect on the buffers" if a[1] != b[1] else "other draws of randomness" if a[2] != b[2] else "memory left allocated"
            raise Violation("%s differs from the library function: %s" % (inv[c.g], what), c.show())
        if c.s is not None and a[0] != "crash" and (a[0] == 0) != c.s["ok"]: raise Violation("%s %s but the specification says otherwise" % (inv[c.g], "succeeds" if a[0] == 0 else "fails"), c.show())
        out.append((a[0], a[1]) if a[0] != "crash" else None)
    return out
def build_cases(L, it):
    scen, n, seed = it; return [concrete(L, s, n, seed) for s in scen]

def heap_native(L, hs):
    """allocator histories: contents at the moment of release, other blocks untouched"""
    d = L.dll; n = 0
    for f in ("mem_alloc", "mem_alloc_long_long"): getattr(d, f).restype = C.c_void_p; getattr(d, f).argtypes = [C.c_size_t]
    for h in hs:
        blk = []
        for s in h:
            case = {"history": h}
            if s[0] == "alloc":
                live = d.vf_live(); p = (d.mem_alloc_long_long if s[1] == "ll" else d.mem_alloc)(s[2]); blk.append([p, s[2], None])
                if not p: raise Violation("allocating %d bytes failed" % s[2], case)
                if d.vf_live() != live + 1: raise Violation("an allocation makes %d blocks" % (d.vf_live() - live), case)
                C.memset(p, 0, s[2])
            elif s[0] == "fill": b = blk[s[1]]; b[2] = bytes(1 + (i * 7 + s[1]) % 255 for i in range(b[1])); C.memmove(b[0], b[2], b[1])
            else:
                b = blk[s[1]]; live = d.vf_live(); d.vf_watch(b[0], s[2]); L.call("mem_free", b[0], s[2], void=True); k = d.vf_watch_result()
                if k < 0 or d.vf_live() != live - 1: raise Violation("the block is not released exactly once", case)
                if k > 0: raise Violation("%d of %d bytes of a block are not zero when it is released" % (k, s[2]), case)
                b[0] = None
                for o in blk:
                    if o[0] and o[2] is not None and C.string_at(o[0], o[1]) != o[2]: raise Violation("releasing one block changed another", case)
        n += 1
    return n

def rec(case, f, pair=None, mode="node"):
    r = dict(f=f, args=[("in", hx(a[1])) if a[0] == "in" else a for a in case.args], rng=hx(case.stream), mode=mode)
    if pair: r["pair"] = pair
    return r
def small(case): return all(a[0] != "val" or a[1] < 2**32 for a in case.args)

def wasm32(c, mod, cases, results, heap):
    inv = {g: w for w, g in _BIND.items()}; recs = []; meta = []; rnd = D.rng("c21w", c.seed)
    for case, res in zip(cases, results):
        if not small(case) or res is None: continue
        draws = case.g in ("keypair", "csign", "random")
        modes = (["node", "window"] if case.rng == "ok" else ["fail", "norequire", "windownocrypto"]) if draws else ["node"]
        if draws and case.rng not in ("ok", "fail"): continue
        if len(modes) > 1 and case.g == "csign" and case.s["mc"] != "mid": modes = [rnd.choice(modes)]
        for m in modes: recs.append(rec(case, inv[case.g], LIBFN[case.g], m)); meta.append((case, res, m))
    out = W.run(c.scratch, mod, recs); ev = []
    for (case, res, m), o in zip(meta, out):
        w = inv[case.g]; show = dict(case.show(), environment=m, result={k: str(v)[:300] for k, v in o.items()}); draws = case.g in ("keypair", "csign", "random")
        if not o["same"]: c.violation("%s on wasm32 differs from the library function (return value %s, %s)" % (w, o["rc"], o["pairrc"]), show); continue
        if o["err"]: c.violation("%s on wasm32 does not return: %s" % (w, o["err"]), show); continue
        if not o["intact"]: c.violation("%s on wasm32 modified an input" % w, show); continue
        ok = res[0] == 0
        if m == "windownocrypto": ok = case.s is None or (not case.s["nul"] and A_MOK(case.s["mc"]))        # falls back to the module: randomness works
        if case.g == "random" and case.args[1][1] == 0: ok = o["rc"] == 0        # nothing to draw: the source may be consulted or not
        if (o["rc"] == 0) != ok: c.violation("%s on wasm32 %s, natively it %s" % (w, "succeeds" if o["rc"] == 0 else "fails", "succeeds" if ok else "fails"), show); continue
        if m in ("fail", "norequire") and draws and o["rc"] == 0 and not (case.g == "random" and case.args[1][1] == 0): c.violation("%s on wasm32 succeeds without a source of randomness" % w, show); continue
        if ok and m != "windownocrypto":
            nat = [b for a, b in zip([a for a in case.args if a[0] in ("in", "out", "len")], res[1]) if a[0] != "in"]
            for x, y, a in zip(o["outs"], nat, [a for a in case.args if a[0] in ("out", "len")]):
                k = 8 if a[0] == "len" else a[1]
                if x != hx(y[:k]): c.violation("%s on wasm32 gives another result than natively" % w, show); break
        if len(c.viol) >= 5: return ev
        if ok and case.g == "keyseed" and len(ev) < 200: ev.append(dict(op="hkey", ok=True, seed=hx(case.args[2][1]), pk=o["outs"][0], sk=o["outs"][1]))
        if ok and case.g == "prng": ev.append(dict(op="prng", ok=True, seed=hx(case.args[0][1]), out=o["outs"][0]))
        if ok and case.g == "csign": ml = case.args[3][1]; ev.append(dict(op="csign", ok=True, m=hx(case.args[2][1][:ml]), sk=hx(case.args[4][1]), rnd=hx(case.stream[:40]), sm=o["outs"][0][:2 * (2526 + ml)]))
        if case.g == "cverify" and case.s and not case.s["nul"] and case.args[3][1] <= 2600 and 1 <= case.args[1][1] <= 64: ml, sl = case.args[1][1], case.args[3][1]; ev.append(dict(op="cverify", ok=o["rc"] == 0, m=hx(case.args[0][1][:ml]), sm=hx(case.args[2][1][:sl]), pk=hx(case.args[4][1])))
    c.count("wasm32_wrapper_calls", 2 * len(recs)); c.traces(len(recs)); c.log(len(recs), "wrapper calls on wasm32")
    ho = W.run(c.scratch, mod, [{"heap": h} for h in heap], tag="h"); 
    for h, o in zip(heap, ho):
        for s, x in zip([s for s in h if s[0] != "fill"], o["heap"]):
            if s[0] == "alloc" and not x or s[0] == "free" and (x[0] != 1 or x[3] != 1): c.violation("allocator on wasm32: %s" % s, {"history": h, "log": o}); break
            if s[0] == "free" and x[1] != 0: c.violation("wasm32: %d of %d bytes of a block are not zero when it is released" % (x[1], s[2]), {"history": h}); break
            if s[0] == "free" and not x[4]: c.violation("wasm32: releasing one block changed another", {"history": h}); break
        if len(c.viol) >= 5: break
    c.count("wasm32_heap_histories", len(heap)); c.traces(len(heap))
    return ev

_T = {}
def tables(L, it): return K.table(L, *it)
def alone(L, it): return it[1].run(L, K.Arena())
def library(c, so, mod):
    """the library's functions on the 32-bit target give the results of the native build"""
    t = [x for x in c.pmap(tables, [(c.seed + 500, w) for w in range(c.pick(2, 8))], so=so) if x]; items = [(k, x[k]) for x in t for k in sorted(x) if not x[k].script or k.endswith("fail")]
    if c.viol: return
    nat = c.pmap(alone, items, so=so)
    if c.viol: return
    recs = [dict(f=x.f, args=[("in", hx(a[1])) if a[0] == "in" else a for a in x.args], rng=hx(x.stream), mode="fail" if x.script else "node") for k, x in items]
    for (k, x), r, o in zip(items, nat, W.run(c.scratch, mod, recs, tag="l")):
        if o["err"]: c.violation("%s on wasm32 does not return: %s" % (k, o["err"]), x.case())
        elif (o["rc"] == 0 or x.f in K.VOID) != r[0]: c.violation("%s on wasm32 %s, natively it %s" % (k, "succeeds" if o["rc"] == 0 else "fails", "succeeds" if r[0] else "fails"), x.case())
        elif r[0]:
            outs = [v for a, v in zip([a for a in x.args if a[0] in ("out", "len")], o["outs"]) if a[0] == "out"]; n = r[1]
            ln = [v for a, v in zip([a for a in x.args if a[0] in ("out", "len")], o["outs"]) if a[0] == "len"]
            if ln: ln = int.from_bytes(bytes.fromhex(ln[0]), "little"); ln = ln & 0xffffffff if x.f[:5] in ("vf_d_", "vf_s_") else ln      # size_t has 32 bits
            if ln and ln != n: c.violation("%s on wasm32 reports length %d instead of %d" % (k, ln, n), x.case())
            elif [v[:2 * len(y)] for v, y in zip(outs, r[2])] != [hx(y) for y in r[2]]: c.violation("%s on wasm32 gives another result than natively" % k, x.case())
        if len(c.viol) >= 5: return
    c.count("wasm32_library_calls", len(items)); c.traces(len(items)); c.log(len(items), "library calls on wasm32")

def check(c):
    global _BIND
    so = c.lib(extra=[(os.path.join(B.REPO, "wasm/hybrid-pqc.c"), ["-O0", "-I" + os.path.join(W.W, "include")])])
    r = T.check(c.scratch, MACH, CFG % ("1,8", c.pick(6, 7), 2, "spec", "INVARIANT Emit\n") + "POSTCONDITION Bindings\n", workers=1); c.model(r)
    for v, inv in (("partial", "Erased"), ("late", "Erased"), ("none", "Erased"), ("other", "Faithful"), ("drop", "Faithful"), ("guard", "Faithful")):
        if "Invariant %s is violated" % inv not in T.run(c.scratch, MACH, CFG % ("1,8", 4, 2, v, "")).out: raise T.TlcError("the wrong design %s is not rejected" % v)
    hs = [json.loads(x) for x in sorted({json.dumps(json.loads(json.loads(l[2:-2].split(",", 1)[1].strip()))) for l in r.lines("RUN")})]
    _BIND = json.loads(json.loads(r.lines("BIND")[0][2:-2].split(",", 1)[1].strip()))
    big = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 160, 255, 256, 257, 1000, 1408, 2590, 4064, 4096, 65536, 100000]
    heap = hs + [[["alloc", k, n], ["fill", 0], ["free", 0, n]] for n in list(range(1, c.pick(300, 5000))) + big for k in ("b", "ll")]
    heap += [[["alloc", "b", a], ["fill", 0], ["alloc", "ll", b], ["fill", 1], ["free", 0, a], ["alloc", "b", a], ["free", 1, b], ["fill", 2], ["free", 2, a]] for a in big[-14:] for b in big[-14:]]
    c.log(len(heap), "allocator histories")
    if len(hs) < 100: raise T.TlcError("too few histories")
    n = c.pmap(heap_native, [heap[i::16] for i in range(16)], so=so)
    if c.viol: return
    c.traces(sum(n)); c.count("heap_histories", sum(n)); c.sample({"heap": hs[-1]})
    sc = [s for s in A.scenarios(c) if s["f"] in LIBFN]; its = []
    for k, n in enumerate([1, 2, c.rnd.randrange(3, 63), 63, 64] if not c.thorough else range(1, 65)):
        use = sc if k < 3 or c.thorough else [s for s in sc if not s["nul"]]
        use = [s for s in use if not (n in (1, 64) and s["mc"] in ("one", "max"))]
        for i in range(0, len(use), 40): its.append((use[i:i + 40], n, c.seed))
    its += [([s for s in sc if s["ok"] and s["f"] in ("csign", "cverify") and s["mc"] == "mid"], n, c.seed) for n in range(1, 65)]
    cases = [x for y in c.pmap(build_cases, its, so=so) for x in y or []] + more(c.seed, not c.thorough)
    if c.viol: return
    step = 20; res = c.pmap(wrappers, [cases[i:i + step] for i in range(0, len(cases), step)], so=so)
    if c.viol: return
    res = [x for y in res for x in y]; c.count("native_wrapper_calls", 2 * len(cases)); c.traces(len(cases)); c.log(len(cases), "argument combinations natively,", sum(1 for x in res if x and x[0] == 0), "succeed"); c.sample(cases[0].show()); c.sample(cases[-1].show())
    for g in LIBFN:
        if not any(x and x[0] == 0 for y, x in zip(cases, res) if y.g == g): return c.violation("no call of %s succeeds" % g)
    try: mod = W.build(c.scratch)
    except B.BuildError as e: c.log("no wasm32 build:", str(e)[-300:]); c.assumptions.append("the code could not be compiled for wasm32 here; native execution only"); mod = None
    ev = []
    if mod:
        ev = wasm32(c, mod, cases, res, heap)
        if c.viol: return
        library(c, so, mod)
        if c.viol: return
    else:
        for case, x in zip(cases, res):
            if x and x[0] == 0 and case.g == "csign": ml = case.args[3][1]; ev.append(dict(op="csign", ok=True, m=hx(case.args[2][1][:ml]), sk=hx(case.args[4][1]), rnd=hx(case.stream[:40]), sm=hx(x[1][0][:2526 + ml])))
    groups = {}
    for e in ev: groups.setdefault(e["op"], []).append(e)
    c.conform([e for g in groups.values() for e in c.rnd.sample(g, min(len(g), c.pick(40, 400)))], "wrapper results")
    c.assumptions.append("the Emscripten runtime is represented by harness/wasm (allocator, inline JavaScript executed by node)")
