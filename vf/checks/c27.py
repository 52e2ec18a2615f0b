"""C27 the same function on every platform: recorded results of native builds and of emulated big-endian 64- and 32-bit machines, compared."""
import os, json, hashlib
from ..core import Violation, hx
from .. import drv as D, tlc as T, calls as K, mips
LEVEL = "model_checking"
MACH = "machines/Portable.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS BYTE=%d Variant="%s"\nINVARIANTS Same Agree\nCHECK_DEADLOCK FALSE\n'
LONG = {"vf_f_sign", "vf_s_signature"}
K.VOID.update({"vf_sha3_384"})
RATE = (168, 136, 136, 104, 72)

def extra(L, seed, w):
    """calls aimed at what differs between platforms: high bits, long counters, piecewise hashing, length fields"""
    r = D.rng("c27", seed, w); I = lambda b: ("in", bytes(b)); O = lambda k: ("out", k); V = lambda k: ("val", k); N = ("len",); o = []
    def add(k, f, *a, stream=b""): o.append(K.Call(k, f, list(a), stream))
    for k in range(5):
        for st in (1, 7, 8, 61, RATE[k] - 1, RATE[k], RATE[k] + 1):
            n = r.choice((RATE[k] - 1, RATE[k], RATE[k] + 9, 300)); q = 300 if k < 2 else (32, 48, 64)[k - 2]; add("stream", "vf_hash_stream", V(k), O(q), V(q), I(r.randbytes(n)), V(n), V(st))
    for n in (0, 1, 71, 72, 103, 104, 135, 136, 167, 168, 500):
        x = r.randbytes(n)
        for f, q in (("vf_sha3_256", 32), ("vf_sha3_384", 48), ("vf_sha3_512", 64)): add("hash", f, O(q), I(x), V(n))
        for f in ("vf_shake128", "vf_shake256"): add("hash", f, O(400), V(400), I(x), V(n))
    for n in (0, 1, 111, 112, 127, 128, 129, 255, 400): add("sha512", "vf_n_sha512", O(64), I(r.randbytes(n)), V(n))
    for b in (0, 255, 128, 127):
        s = bytes([b]) * 32; add("edkey", "vf_ed_keypair_seed", O(32), O(64), I(s)); add("dkey", "vf_d_keypair_seed", O(1312), O(2560), I(s)); add("mult", "vf_n_scalarmult", O(32), I(s), I(r.randbytes(32))); add("mult", "vf_n_scalarmult", O(32), I(r.randbytes(32)), I(s)); add("base", "vf_n_scalarmult_base", O(32), I(s))
        add("auth", "vf_n_auth", O(16), I(s * 3), V(96), I(s)); add("auth", "vf_n_auth", O(16), I(r.randbytes(33)), V(33), I(r.randbytes(32))); add("core", "vf_n_core_salsa20", O(64), I(s[:16]), I(s), I(b"expand 32-byte k")); add("core", "vf_n_core_hsalsa20", O(32), I(s[:16]), I(s), I(b"expand 32-byte k"))
        add("prng", "vf_prng_wrapper", I(s), V(32), O(500), V(500)); add("expand", "vf_h_expander", I(s * 3), O(160))
    k, nn = r.randbytes(32), r.randbytes(24)
    for n in (1, 64, 65, 64 * 300): add("stream", "vf_n_stream_salsa20", O(n), V(n), I(nn[:8]), I(k)); add("stream", "vf_n_stream_xsalsa20_xor", O(n), I(r.randbytes(n)), V(n), I(nn), I(k))
    a = r.randbytes(32)
    for b in (a, D.flip(a, 0), D.flip(a, 255), D.flip(a, 127), r.randbytes(32)): add("cmp", "vf_n_verify32", I(a), I(b)); add("cmp", "vf_n_verify16", I(a[:16]), I(b[:16]))
    pk, sk = L.keys(r.randbytes(160)); st = r.randbytes(72)
    for n in (1, 64, 65, 127, 128, 200, 255): add("csign", "vf_c_sign", O(2526 + n), N, I(r.randbytes(n)), V(n), I(sk), stream=st)
    m = r.randbytes(64); cs = K._sign(L, "vf_c_sign", 2590, m, sk, st)
    big = 1 << 32
    for b in (0, 1, 63, 65, 127, 128, 192, 255): add("clen", "vf_c_open", O(64), N, I(cs[:1] + bytes([b]) + cs[2:]), V(2590), I(pk)); add("cid", "vf_c_open", O(64), N, I(bytes([b]) + cs[1:]), V(2590), I(pk)); add("flen", "vf_f_open", O(64), N, I(b"\2" + bytes([b]) + r.randbytes(52342 + b - 2)), V(52342 + b), I(pk))
    for n in (2590 + big, big, big - 1, (1 << 63) + 2590, 2 ** 64 - 1): add("cbig", "vf_c_open", O(64), N, I(cs), V(n), I(pk)); add("cbig", "vf_c_verify", I(m), V(64), I(cs), V(n), I(pk)); add("cbigm", "vf_c_verify", I(m), V(n), I(cs), V(2590), I(pk)); add("cbigs", "vf_c_sign", O(2590), N, I(m), V(n), I(sk), stream=st)
    m = r.randbytes(40); d = K._sign(L, "vf_d_signature", 2420, m, sk[64:2624], b"")
    for n in (2420, 2420 + big, 2420 + (1 << 63), 2419, big, 2 ** 64 - 1): add("hdlen", "vf_hd_verify", I(m), V(40), I(d), V(n), I(pk[32:1344]))
    for i in range(6):
        m = r.randbytes(r.randrange(1, 200)); d = K._sign(L, "vf_d_signature", 2420, m, sk[64:2624], b""); add("dsig", "vf_d_signature", O(2420), N, I(m), V(len(m)), I(sk[64:2624])); add("dver", "vf_d_verify", I(d), V(2420), I(m), V(len(m)), I(pk[32:1344])); add("dver", "vf_d_verify", I(D.flip(d, r.randrange(2420 * 8))), V(2420), I(m), V(len(m)), I(pk[32:1344]))
        e = K._sign(L, "vf_ed_sign", 64 + len(m), m, sk[:64], b""); add("esig", "vf_ed_sign", O(64 + len(m)), N, I(m), V(len(m)), I(sk[:64])); add("eopen", "vf_ed_open", O(64 + len(m)), N, I(e), V(len(e)), I(pk[:32])); add("eopen", "vf_ed_open", O(64 + len(m)), N, I(D.flip(e, r.randrange(8 * len(e)))), V(len(e)), I(pk[:32]))
    return o
def make(L, it):
    seed, w = it; t = [c for k, c in K.table(L, seed, w).items() if not k.startswith("random")]
    if w == 0: t += extra(L, seed, w)
    return t
def both(L, it):
    """a batch of calls on one platform"""
    img, calls = it; r = []
    if img is None:
        ar = K.Arena(); L.timeout_ms = 30000; f = lambda c: K.fresh(L, lambda: c.run(L, ar))
    else:
        m = mips.Machine(img); f = lambda c: m.run(c, 15 * 10 ** 9 if c.f in LONG else 2 * 10 ** 9)
    for c in calls:
        r.append(f(c))
        if not isinstance(r[-1][0], bool): break        # the machine is not reliable any more
    return r
def ints(res):
    if not isinstance(res[0], bool): return [2, 0, 0, 0]
    h = hashlib.sha256(repr(res).encode()).digest(); return [int(res[0])] + [int.from_bytes(h[4 * i:4 * i + 4], "big") >> 2 for i in range(3)]
def show(res): return "failure" if res[0] is False else "%s: %s" % res if not isinstance(res[0], bool) else "success, length %s, %s" % (res[1], ", ".join(hx(x)[:64] for x in res[2]))

def emulate(c, emu, calls, cheap, long_):
    big, small = emu; jobs = [(big, [i]) for i in long_ if (calls[i][0] == 0 or c.thorough) and (calls[i][1].kind in ("fsign", "fsignfail", "ssign"))]
    if c.thorough: jobs += [(small, [i]) for i in long_ if calls[i][0] == 0 and calls[i][1].kind in ("fsign", "ssign")]
    jobs += [(p, cheap[i::24]) for p in emu for i in range(24)]
    return jobs
def check(c):
    for b in c.pick((4,), (4, 6)): c.model(T.check(c.scratch, MACH, CFG % (b, "spec"), workers=4, heap="2g"))
    for v in ("memcpy", "char", "word", "long", "lenchar", "logical", "pun"):
        if "is violated" not in T.run(c.scratch, MACH, CFG % (3, v), workers=2, heap="1g").out: raise T.TlcError("the wrong design %s is not rejected" % v)
    nat = [("gcc -O3", c.lib()), ("gcc -O0, char unsigned", c.lib("o0u", opt="-O0", flags=["-funsigned-char", "-UNDEBUG"])), ("clang -O2, char unsigned", c.lib("clu", cc="clang", opt="-O2", flags=["-funsigned-char"]))]
    if c.thorough: nat += [("gcc -Os, char signed", c.lib("oss", opt="-Os", flags=["-fsigned-char"])), ("clang -O3", c.lib("clo3", cc="clang", opt="-O3")), ("gcc -O2 -flto", c.lib("lto", opt="-O2", flags=["-flto"])), ("gcc -O1 -fwrapv, char unsigned", c.lib("wrapv", opt="-O1", flags=["-fwrapv", "-funsigned-char"]))]
    emu = [("big-endian, 64 bits, char unsigned", mips.build(c.scratch, 64, flags=["-funsigned-char"])), ("big-endian, 32 bits, char unsigned", mips.build(c.scratch, 32, flags=["-funsigned-char"]))]
    ws = c.pick((0, 2), tuple(range(0, 12, 2))); calls = [(w, x) for w, y in zip(ws, c.pmap(make, [(c.seed, w) for w in ws], so=nat[0][1])) for x in y or []]
    if c.viol: return
    res = []      # (call, platform, result)
    cheap = [i for i, (w, x) in enumerate(calls) if x.f not in LONG]; long_ = [i for i, (w, x) in enumerate(calls) if x.f in LONG]
    for name, so in nat:
        todo = [cheap[i::16] for i in range(16)] + [[i] for i in long_ if calls[i][0] == 0 or c.thorough]
        for t, r in zip(todo, c.pmap(both, [(None, [calls[i][1] for i in t]) for t in todo], so=so)):
            res += [(i, name, x) for i, x in zip(t, r or [])]
        if name != nat[0][0] and any(not isinstance(x[0], bool) for i, m, x in res): emu = []; break
    if not emu: jobs = []
    else: jobs = emulate(c, emu, calls, cheap, long_)
    for ((name, img), t), r in zip(jobs, c.pmap(both, [(p[1], [calls[i][1] for i in t]) for p, t in jobs], so=nat[0][1])): res += [(i, name, x) for i, x in zip(t, r or [])]
    if c.viol: return
    p = os.path.join(c.scratch, "plat.ndjson"); order = {n: k for k, (n, _) in enumerate(nat + emu)}
    res.sort(key=lambda x: (x[0], order[x[1]]))
    with open(p, "w") as f:
        for i, n, x in res: f.write(json.dumps(dict(call=i + 1, plat=order[n] + 1, res=ints(x))) + "\n")
    t = T.run(c.scratch, "machines/PortableTrace.tla", "SPECIFICATION Spec\nINVARIANT Reached\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=1, heap="4g")
    if not t.ok or not t.lines("END") or t.lines("LONE") and not t.lines("BAD") and all(isinstance(x[0], bool) for _, _, x in res): raise T.TlcError("PortableTrace: exit %d\n%s" % (t.code, t.out[-3000:]))
    c.model(t); c.traces(len(res)); c.count("calls", len(calls)); c.count("platforms", len(order)); told = set()
    for l in t.lines("BAD"):
        i, n, x = res[int(l.strip("<>").split(",")[1]) - 1]; call = calls[i][1]
        if call.kind in told or len(told) >= 5: continue
        told.add(call.kind); first = next((m, y) for j, m, y in res if j == i); ev = [(m, y) for j, m, y in res if j == i]
        wrong = [m for m, y in ev if not call.kind.endswith(("len", "big", "bigm", "bigs")) and isinstance(y[0], bool) and K.event(call, y) and c._conform([K.event(call, y)], 1, "2g")]
        c.violation("%s (%s) does not give the same result on all platforms: %s: %s; %s: %s%s" % (call.f, call.kind, first[0], show(first[1]), n, show(x), "; not what the specification says on: " + ", ".join(wrong) if wrong else ""), {"call": call.case(), "results": {m: show(y) for m, y in ev}})
    for i, n, x in res[:3]: c.sample({"call": calls[i][1].f, "platform": n, "result": show(x)[:100]})
    c.assumptions += ["big-endian and 32-bit machines are MIPS64/MIPS32 release 2 as emulated by harness/mips/emu.c with clang's code and a minimal C library; randombytes is replaced there (C09, C10, C25, C26 decide it)", "32-bit platforms do not run SPHINCS+ signing in the quick tier (C21 does on wasm32)"]
