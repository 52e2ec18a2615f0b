"""C07 failed calls return an error and leave the caller's outputs untouched."""
import json, ctypes as C
from ..core import Violation, hx
from ..lib import inbuf, Out, SIGN, LEN_SENTINEL, Crash
from .. import drv as D, tlc as T
LEVEL = "model_checking"
_W = {}
def world(L, seed, n):
    k = (seed, n)
    if k not in _W:
        r = D.rng("c07", seed, n); pk, sk = L.keys(r.randbytes(160)); pk2, _ = L.keys(r.randbytes(160)); m = D.message(r, n, n % 8)
        _W[k] = dict(pk=pk, sk=sk, pk2=pk2, m=m, c=D.must_sign(L, "c", m, sk, r.randbytes(64)), f=D.must_sign(L, "f", m, sk, r.randbytes(64)))
    return _W[k]

def mlen_of(mc, n, r): return {"zero": 0, "one": 1, "mid": n, "max": 64, "over": r.choice((65, 66, 100, 127, 128, 200)), "mod8": 256 * r.randrange(1, 5) + n, "mod32": 2**32 * r.choice((1, 2, 2**31)) + n, "huge": 2**64 - 1}[mc]
def corrupt(mode, sm, n, body, r):
    f = D.fields(mode, n)
    if body in ("genuine", "wrongkey"): return sm
    if body == "badid": return bytes([r.choice([x for x in range(256) if x != sm[0]])]) + sm[1:]
    if body == "badlen": return sm[:1] + bytes([r.choice([x for x in (0, 1, n - 1, n + 1, 64, 65, 128, 255) if x != n])]) + sm[2:]
    o, l = f[{"baded": "ed", "baddil": "dil", "badnonce": "nonce", "badmsg": "msg", "badsph": "sph"}[body]]
    return D.flip(sm, 8 * o + r.randrange(8 * l))
def slen_of(sc, T_, lo, hi, r): return {"exact": T_, "zero": 0, "minus1": T_ - 1, "plus1": T_ + 1, "belowmin": r.randrange(1, lo), "abovemax": hi + r.randrange(1, 500), "mod32": T_ + 2**32}[sc]

def one(L, s, n, seed, fill=0xA5):
    """one scenario of Api.tla on the real code"""
    r = D.rng("c07s", json.dumps(s, sort_keys=True), n, seed); w = world(L, seed, n); f = s["f"]; nul = set(s["nul"])
    outs = {}; ev = {"scenario": s, "n": n}
    ln = C.c_uint64(LEN_SENTINEL)
    def ptr(name, p): return 0 if name in nul else p
    if f in ("keypair", "fsign", "csign"):
        stream = r.randbytes(400)
        L.rng(stream, {"ok": [], "fail": [-r.choice((5, 38, 14))], "failmid": [r.randrange(1, 30), -r.choice((5, 14))], "eintr": [-4, 7, -4, -4, 5]}[s["rng"]])
    if f == "expander":
        o = Out(160, fill); outs["out"] = o; rc = L.call("vf_h_expander", ptr("seed", inbuf(r.randbytes(96))), ptr("out", o.addr))
    elif f in ("keyseed", "keypair"):
        p, q = Out(1408, fill), Out(4064, fill)
        a = [ptr("pk", p.addr), ptr("sk", q.addr)] + ([ptr("seed", inbuf(r.randbytes(160)))] if f == "keyseed" else [])
        rc = L.call("vf_h_" + ("keypair_seed" if f == "keyseed" else "keypair"), *a)
    elif f in ("fsign", "csign"):
        mode = f[0]; ml = mlen_of(s["mc"], n, r); o = Out(SIGN[mode] + 64, fill); outs["sm"] = o
        mb = inbuf((w["m"] + r.randbytes(2000))[:2000])
        rc = L.call("vf_%s_sign" % mode, ptr("sm", o.addr), ptr("smlen", ln), ptr("m", mb), ml, ptr("sk", inbuf(w["sk"])))
        outs["smlen"] = ln
        if rc == 0 and s["ok"]:
            if ln.value != SIGN[mode] + ml: raise Violation("successful %s reports length %d" % (f, ln.value), ev)
    else:
        mode = f[0] if f[0] in "cf" else "f"; sm = corrupt(mode, w[mode], n, s["body"], r)
        T_ = len(sm); lo, hi = SIGN[mode] + 1, SIGN[mode] + 64; pk = w["pk2"] if s["body"] == "wrongkey" else w["pk"]
        if f == "dverify":
            fd = D.fields("f", n)["dil"]; sm = D.get(sm, fd); T_ = lo = hi = 2420; pk = pk[32:1344]
        sl = slen_of(s["sc"], T_, lo, hi, r); sb = inbuf(sm + r.randbytes(1200)); kb = inbuf(pk)
        if f in ("fopen", "copen"):
            o = Out(64, fill); outs["m"] = o; outs["mlen"] = ln
            rc = L.call("vf_%s_open" % mode, ptr("m", o.addr), ptr("mlen", ln), ptr("sm", sb), sl, ptr("pk", kb))
            if rc == 0 and s["ok"] and (ln.value != n or o.bytes(n) != w["m"]): raise Violation("successful open returns another message", ev)
        else:
            ml = mlen_of(s["mc"], n, r); m = w["m"]
            if s["mc"] in ("one", "max"): m = (m + m + bytes(64))[:ml] if ml != n else bytes(x ^ 1 for x in m)
            mb = inbuf(m + bytes(1200))
            rc = L.call({"fverify": "vf_f_verify", "cverify": "vf_c_verify", "dverify": "vf_hd_verify"}[f], ptr("m", mb), ml, ptr("sm", sb), sl, ptr("pk", kb))
    if (rc == 0) != s["ok"]: raise Violation("%s %s but the specification says it %s" % (f, "succeeded" if rc == 0 else "failed with %d" % rc, "succeeds" if s["ok"] else "fails"), ev)
    if rc != 0:
        for name, o in outs.items():
            if name in nul: continue
            if isinstance(o, Out):
                if not o.untouched(): raise Violation("%s failed with %d but wrote to its output '%s'" % (f, rc, name), dict(ev, out=hx(o.bytes()[:256])))
            elif o.value != LEN_SENTINEL: raise Violation("%s failed with %d but set its length output to %d" % (f, rc, o.value), ev)
    for o in outs.values():
        if isinstance(o, Out) and not o.canary_ok(): raise Violation("%s wrote outside its output buffer" % f, ev)

def run(L, it):
    scen, n, seed, fill = it
    for s in scen: one(L, s, n, seed, fill)
    return len(scen)

def scenarios(c):
    r = T.check(c.scratch, "machines/Api.tla", "SPECIFICATION Spec\nINVARIANT FailedUntouched\nINVARIANT NullFails\nINVARIANT LengthFails\nINVARIANT AllOrNothing\nINVARIANT Scen\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n", workers=1)
    c.model(r)
    sc = [json.loads(json.loads(l[l.index(",") + 1:l.rindex(">>")].strip())) for l in r.lines("SCEN")]
    uniq = {json.dumps(s, sort_keys=True): s for s in sc}
    return [uniq[k] for k in sorted(uniq)]

def check(c):
    so = c.lib(); sc = scenarios(c); c.log(len(sc), "scenarios")
    if len(sc) < 500: raise T.TlcError("too few scenarios")
    its = []
    ns = [c.rnd.randrange(2, 64), 2] if not c.thorough else [2, 5, 31, 32, 33, 47, 63]
    for n in ns:
        for fill in (0xA5, 0x00):
            for i in range(0, len(sc), 40): its.append((sc[i:i + 40], n, c.seed, fill))
    # every message length: the failing contents of open, and signing failures
    few = [s for s in sc if not s["nul"] and (s["f"] == "copen" and s["sc"] == "exact" or s["f"] == "csign" and s["mc"] == "mid")]
    fewf = [s for s in sc if not s["nul"] and (s["f"] == "fopen" and s["sc"] == "exact" or s["f"] == "fsign" and s["mc"] == "mid" and s["rng"] == "fail")]
    for n in range(2, 64):
        for k in range(c.pick(2, 10)): its.append((few, n, c.seed + k, 0x5A))
        if n % c.pick(6, 1) == 0: its.append((fewf, n, c.seed, 0x5A))
    c.rnd.shuffle(its)
    res = c.pmap(run, its, so=so)
    c.traces(sum(x or 0 for x in res)); c.count("distinct_scenarios", len(sc)); c.sample(sc[0]); c.sample(sc[-1])
    if not c.viol: edge(c, so)

def edges(L, n):
    """shortest and longest messages in every failing content class"""
    cnt = 0
    for mode in "cf":
        w = world(L, 1, n); r = D.rng("c07e", n, mode)
        for body in ("badid", "badlen", "baded", "baddil", "badmsg", "wrongkey") + (("badnonce",) if mode == "c" else ("badsph",)):
            s = {"f": mode + "open", "nul": [], "mc": "na", "sc": "exact", "body": body, "rng": "na", "ok": False}
            one(L, s, n, 1); cnt += 1
    return cnt
def edge(c, so):
    res = c.pmap(edges, [1, 64], so=so); c.traces(sum(x or 0 for x in res))
