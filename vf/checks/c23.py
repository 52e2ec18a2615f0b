"""C23 secret-independent control flow and memory accesses: the real code's branches and addresses, recorded and compared (self-composition)."""
import os, json, hashlib, subprocess, ctypes as C
from ..core import Violation, hx
from ..lib import Crash
from .. import drv as D, tlc as T, build as B, calls as K
LEVEL = "model_checking"
MACH = "machines/Observer.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS K=%d Variant="%s"\nINVARIANT Blind\nCHECK_DEADLOCK FALSE\n'
REN = ["malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "memcmp", "strcmp", "strncmp", "strlen", "strncpy", "memchr"]
class Ev(C.Structure): _fields_ = [("kind", C.c_uint64), ("pc", C.c_uint64), ("val", C.c_uint64)]
VOID = {"vf_shake128", "vf_shake256", "vf_sha3_256", "vf_sha3_384", "vf_sha3_512"}
BRANCHES = {"Dilithium signing, branches"}        # what is published decides addresses here, but no branch
def prepare(L):
    d = L.dll; d.vc_begin.argtypes = [C.c_uint64, C.c_void_p, C.c_uint64, C.c_uint64]; d.vc_hash.restype = d.vc_count.restype = d.vc_branches.restype = C.c_uint64

def observe(L, ar, call, log=None, cap=0, frm=0, br=False):
    v = call.place(ar); L.rng(call.stream, call.script); L.dll.vc_begin(L.fn(call.f), C.addressof(log) if log is not None else None, cap, frm)
    try: rc = L.call("vc_tramp", *v, void=False, ms=120000)
    except Crash as e: raise Violation("%s crashed: %s" % (call.f, e), call.case())
    rc = 0 if call.f in VOID else rc & 0xffffffff
    return (rc, L.dll.vc_count(), L.dll.vc_branches()) if br else (rc, L.dll.vc_count(), L.dll.vc_hash())
def where(L, pc):
    for l in open("/proc/self/maps"):
        if os.path.realpath(L.so) in l or L.so in l:
            base = int(l.split("-")[0], 16); p = subprocess.run(["addr2line", "-f", "-e", L.so, hex(pc - 1 - base)], capture_output=True, text=True); return " ".join(p.stdout.split())
    return hex(pc)
def locate(L, ar, a, b, br):
    """the first event in which two runs differ"""
    W = 1 << 18; la, lb = (Ev * W)(), (Ev * W)(); S = C.c_uint64 * (2 << 14); L.dll.vc_snap.restype = C.POINTER(S); na = observe(L, ar, a)[1]; sa = list(L.dll.vc_snap().contents); nb = observe(L, ar, b)[1]; sb = list(L.dll.vc_snap().contents); lo = 0
    while lo + W < min(na, nb, W << 14) and sa[2 * (lo // W + 1) + br] == sb[2 * (lo // W + 1) + br]: lo += W
    end = lo + 2 * W
    while lo < max(min(na, end), 1):
        observe(L, ar, a, la, W, lo); ca = L.dll.vc_count(); observe(L, ar, b, lb, W, lo); cb = L.dll.vc_count(); k = max(0, min(W, ca - lo, cb - lo))
        i = next((i for i in range(k) if (la[i].kind, la[i].pc, la[i].val) != (lb[i].kind, lb[i].pc, lb[i].val) and not (br and (la[i].kind, la[i].pc) == (lb[i].kind, lb[i].pc) and la[i].kind in (2, 3, 4))), None) if bytes(la)[:24 * k] != bytes(lb)[:24 * k] else None
        if i is not None:
            same = la[i].pc == lb[i].pc; kind = {1: "branch", 2: "address read", 3: "address written", 4: "memory function", 5: "comparison"}[la[i].kind] if same else "branch"
            return "%s at %s%s" % (kind, where(L, la[i].pc), "" if same else " / " + where(L, lb[i].pc))
        if k < W: return "number of steps (%d, %d)" % (ca, cb)
        lo += W
    return "?"
def group(L, it):
    """one operation with one public part and several secrets"""
    name, calls = it; br = name in BRANCHES; prepare(L); ar = K.Arena(); out = []; observe(L, ar, calls[0]); first = observe(L, ar, calls[0], br=br)
    for i, c in enumerate(calls):
        o = observe(L, ar, c, br=br)
        if o != first and not any(x[1] != first for x in out): out.append((i, o, locate(L, ar, calls[0], c, br)))
        else: out.append((i, o, None))
    return out

def secrets(r, n, k):
    """k secrets of n bytes: patterns that shortcuts depend on, then random ones"""
    s = [bytes(n), b"\xff" * n, bytes(n - 1) + b"\1", b"\1" + bytes(n - 1), bytes(n // 2) + r.randbytes(n - n // 2), r.randbytes(n // 2) + bytes(n - n // 2), b"\x80" + bytes(n - 1), bytes(n - 1) + b"\x80", bytes(n - 1) + b"\x40", b"\xaa" * n, b"\x08" + b"\xff" * (n - 2) + b"\x7f" if n > 2 else b"\7" * n]
    if k < len(s): s = s[:2] + r.sample(s[2:], max(0, k - 5))
    while len(s) < k: s.append(r.randbytes(n))
    return s

# ---- Dilithium: secret vectors that leave the accepted attempt and the published hints as they are
def packeta(v): return sum((2 - x) << (3 * i) for i, x in enumerate(v)).to_bytes(96, "little")
def packt0(v): return sum((4096 - x) << (13 * i) for i, x in enumerate(v)).to_bytes(416, "little")
def vectors(r, kind):
    p = lambda: [r.randrange(-2, 3) for _ in range(256)]; z = [0] * 256
    one = [r.choice((-2, -1, 1, 2)) if i == r.randrange(256) else 0 for i in range(256)]; t = [list(z) for _ in range(4)]
    if kind % 3 == 1: t[r.randrange(4)][r.randrange(256)] = r.choice((1, -1))
    if kind % 3 == 2:
        for x in t: x[r.randrange(256)] = r.choice((1, -1))
    s = {0: lambda: (z, z), 1: lambda: ([2] * 256, [-2] * 256), 2: lambda: (one, z), 3: lambda: (z, p()), 4: lambda: (p(), z)}.get(kind, lambda: (p(), p()))
    return [s()[0] for _ in range(4)], [s()[1] for _ in range(4)], t
def mask(key, tr, m, n):
    mu = hashlib.shake_256(tr + m).digest(64); rp = hashlib.shake_256(key + bytes(32) + mu).digest(64); y = []
    for i in range(4):
        b = int.from_bytes(hashlib.shake_256(rp + (4 * n + i).to_bytes(2, "little")).digest(576), "little")
        y.append([131072 - (b >> (18 * j) & 0x3ffff) for j in range(256)])
    return y
def unpackz(sig):
    return [[131072 - (int.from_bytes(sig[32 + 576 * i:608 + 576 * i], "little") >> (18 * j) & 0x3ffff) for j in range(256)] for i in range(4)]
def dil(L, it):
    """groups of secret keys for which one message is signed at the first attempt, with no hints: everything published but z is equal"""
    seed, n, want = it; r = D.rng("c23d", seed, n); rho, key, tr = r.randbytes(32), r.randbytes(32), r.randbytes(64); best = []
    for _ in range(12):
        m = r.randbytes(n); y = mask(key, tr, m, 0); got = {}
        for k in range(60):
            s1, s2, t0 = vectors(r, k); sk = rho + key + tr + b"".join(map(packeta, s1)) + b"".join(map(packeta, s2)) + b"".join(map(packt0, t0))
            rc, o, ln = L.d_signature(m, sk)
            if rc or ln != 2420: continue
            sig = o.bytes(2420)
            if any(sig[2336:]) or any(abs(a - b) > 78 for u, v in zip(unpackz(sig), y) for a, b in zip(u, v)): continue
            got.setdefault(sig[:32], []).append(sk)
            if max(map(len, got.values())) >= want: break
        b = max(got.values(), key=len, default=[])
        if len(b) > len(best): best, bm = b, m
        if len(best) >= want: break
    return ("Dilithium signing of %d bytes" % n, [K.Call("dsig", "vf_d_signature", [("out", 2420), ("len",), ("in", bm), ("val", n), ("in", sk)]) for sk in best]) if len(best) > 1 else None

def draws(c):
    """the bytes a challenge seed rejects (FIPS 204 SampleInBall)"""
    s = hashlib.shake_256(c).digest(272)[8:]; p = rej = 0
    for i in range(217, 256):
        while s[p] > i: p += 1; rej += 1
        p += 1
    return rej
def dilb(L, it):
    """keys (one matrix, everything else differs) and messages signed at the first attempt, without hints and rejected challenge bytes: no published value decides a branch"""
    seed, part, want = it; q = D.rng("c23b", seed); rho = q.randbytes(32); r = D.rng("c23b", seed, part); out = []
    for k in range(4000):
        key, tr, m = r.randbytes(32), r.randbytes(64), r.randbytes(32); s1, s2, t0 = vectors(r, 3 * r.randrange(10)) if k % 8 == 0 else (s1, s2, t0); sk = rho + key + tr + b"".join(map(packeta, s1)) + b"".join(map(packeta, s2)) + b"".join(map(packt0, t0))
        rc, o, ln = L.d_signature(m, sk); sig = o.bytes(2420)
        if rc or ln != 2420 or any(sig[2336:]) or draws(sig[:32]) or any(abs(a - b) > 78 for u, v in zip(unpackz(sig), mask(key, tr, m, 0)) for a, b in zip(u, v)): continue
        out.append(K.Call("dsig", "vf_d_signature", [("out", 2420), ("len",), ("in", m), ("val", 32), ("in", sk)]))
        if len(out) >= want: break
    return out

def groups(L, it):
    seed, thorough = it; r = D.rng("c23", seed); g = []; C_ = K.Call; I = lambda b: ("in", b); O = lambda n: ("out", n); V = lambda n: ("val", n); LEN = ("len",)
    k = 24 if thorough else 12; lens = (1, 2, 31, 32, 33, 64, 111, 127, 128, 200) if thorough else (1, 32, 64, 130)
    def add(name, cs): g.append((name, list(cs)))
    add("Ed25519 key generation", [C_("", "vf_ed_keypair_seed", [O(32), O(64), I(s)]) for s in secrets(r, 32, k)])
    for n in lens:
        m = r.randbytes(n); sk = []
        for s in secrets(r, 32, k): sk.append(edkey(L, s)[1])
        add("Ed25519 signing of %d bytes" % n, [C_("", "vf_ed_sign", [O(64 + n), LEN, I(m), V(n), I(x)]) for x in sk])
    add("SPHINCS+ key generation", [C_("", "vf_s_keypair_seed", [O(64), O(128), I(s)]) for s in secrets(r, 96, 5 if not thorough else 16)])
    ds = r.randbytes(32); e = secrets(r, 32, 8); f = secrets(r, 96, 8)
    for j in range(0, 8, 2 if not thorough else 8): add("hybrid key generation %d" % j, [C_("", "vf_h_keypair_seed", [O(1408), O(4064), I(e[(j + x) % 8] + ds + f[(j + 3 * x) % 8])]) for x in range(2 if not thorough else 8)])
    pk, sk = L.keys(r.randbytes(160)); m = r.randbytes(64); st = r.randbytes(200); eks = [edkey(L, s)[1] for s in secrets(r, 32, k)]
    for n in (1, 37, 64): add("compact signing of %d bytes" % n, [C_("", "vf_c_sign", [O(2590), LEN, I(m[:n]), V(n), I(x + sk[64:3936] + y + sk[4000:])], st) for x, y in zip(eks, secrets(r, 64, k))])
    for n in (64,) if not thorough else (1, 17, 64): add("full signing of %d bytes" % n, [C_("", "vf_f_sign", [O(52406), LEN, I(m[:n]), V(n), I(x + sk[64:])], st) for x in (eks[0], eks[1], eks[-1])])
    add("seed expander", [C_("", "vf_h_expander", [I(s), O(160)]) for s in secrets(r, 96, k)])
    for n in (32, 64, 96): add("PRNG %d" % n, [C_("", "vf_prng_wrapper", [I(s), V(n), O(3 * n), V(3 * n)]) for s in secrets(r, n, k)])
    for n in (1, 31, 64, 71, 72, 135, 136, 137, 300):
        for h, o in (("vf_sha3_256", 32), ("vf_sha3_384", 48), ("vf_sha3_512", 64)): add("%s of %d bytes" % (h, n), [C_("", h, [O(o), I(s), V(n)]) for s in secrets(r, n, 6)])
        for h in ("vf_shake128", "vf_shake256"): add("%s of %d bytes" % (h, n), [C_("", h, [O(200), V(200), I(s), V(n)]) for s in secrets(r, n, 6)])
        add("SHA-512 of %d bytes" % n, [C_("", "vf_n_sha512", [O(64), I(s), V(n)]) for s in secrets(r, n, 8)])
    p = r.randbytes(31) + b"\x11"; nn = r.randbytes(24)
    add("Curve25519", [C_("", "vf_n_scalarmult", [O(32), I(s), I(p)]) for s in secrets(r, 32, 2 * k)])
    add("Curve25519 base", [C_("", "vf_n_scalarmult_base", [O(32), I(s)]) for s in secrets(r, 32, 2 * k)])
    add("box key", [C_("", "vf_n_beforenm", [O(32), I(p), I(s)]) for s in secrets(r, 32, k)])
    add("Salsa20 core", [C_("", "vf_n_core_salsa20", [O(64), I(nn[:16]), I(s), I(b"expand 32-byte k")]) for s in secrets(r, 32, k)])
    add("HSalsa20 core", [C_("", "vf_n_core_hsalsa20", [O(32), I(nn[:16]), I(s), I(b"expand 32-byte k")]) for s in secrets(r, 32, k)])
    for n in (0, 1, 15, 16, 17, 63, 64, 65, 200):
        add("authenticator of %d bytes" % n, [C_("", "vf_n_auth", [O(16), I(t or b"\0"), V(n), I(s)]) for s, t in zip(secrets(r, 32, k), secrets(r, n, k) if n else [b""] * k)])
        mm = r.randbytes(n); key = r.randbytes(32); tag = val(L, "vf_n_auth", 16, mm or b"\0", n, key)
        wrong = [D.flip(tag, 8 * i + r.randrange(8)) for i in range(16)] + [bytes(x ^ 255 for x in tag), r.randbytes(16)]
        add("wrong authenticator of %d bytes" % n, [C_("", "vf_n_auth_verify", [I(t), I(mm or b"\0"), V(n), I(key)]) for t in wrong])
        add("right authenticator of %d bytes" % n, [C_("", "vf_n_auth_verify", [I(val(L, "vf_n_auth", 16, mm or b"\0", n, s)), I(mm or b"\0"), V(n), I(s)]) for s in secrets(r, 32, k)])
        if n: add("stream of %d bytes" % n, [C_("", "vf_n_stream_xsalsa20_xor", [O(n), I(t), V(n), I(nn), I(s)]) for s, t in zip(secrets(r, 32, k), secrets(r, n, k))])
        z = 32 + n; box = [(s, bytes(32) + t) for s, t in zip(secrets(r, 32, k), secrets(r, n, k) if n else [b""] * k)]
        add("secret box of %d bytes" % n, [C_("", "vf_n_secretbox", [O(z), I(t), V(z), I(nn), I(s)]) for s, t in box])
        add("opening a secret box of %d bytes" % n, [C_("", "vf_n_secretbox_open", [O(z), I(val(L, "vf_n_secretbox", z, t, z, nn, s)), V(z), I(nn), I(s)]) for s, t in box])
        s, t = box[-1]; cc = val(L, "vf_n_secretbox", z, t, z, nn, s)
        add("opening a forged secret box of %d bytes" % n, [C_("", "vf_n_secretbox_open", [O(z), I(D.flip(cc, 8 * i + r.randrange(8))), V(z), I(nn), I(s)]) for i in range(16, z)][:60])
        if n in (0, 64, 65): add("box of %d bytes" % n, [C_("", "vf_n_box", [O(z), I(t), V(z), I(nn), I(p), I(s)]) for s, t in box[:6]])
    for w, f in ((16, "vf_n_verify16"), (32, "vf_n_verify32")):
        a = r.randbytes(w); add("comparison of %d different bytes" % w, [C_("", f, [I(a), I(D.flip(a, b))]) for b in range(8 * w)] + [C_("", f, [I(a), I(bytes(x ^ 255 for x in a))])]); add("comparison of %d equal bytes" % w, [C_("", f, [I(s), I(s)]) for s in secrets(r, w, k)])
    return g
def edkey(L, s):
    p, q = C.create_string_buffer(32), C.create_string_buffer(64)
    if L.call("vf_ed_keypair_seed", p, q, C.create_string_buffer(s, 32)): raise Violation("Ed25519 key generation failed", {"seed": hx(s)})
    return p.raw, q.raw
def val(L, f, n, *a):
    o = C.create_string_buffer(n)
    if L.call(f, o, *[C.create_string_buffer(x, max(1, len(x))) if isinstance(x, bytes) else x for x in a]): raise Violation("%s failed" % f, {})
    return o.raw

def check(c):
    m = T.check(c.scratch, MACH, CFG % (c.pick(3, 4), "spec"), workers=2, heap="2g"); c.model(m)
    for v in ("branch", "skip", "lookup", "early", "reject"):
        if "is violated" not in T.run(c.scratch, MACH, CFG % (2, v), workers=2, heap="1g").out: raise T.TlcError("the wrong design %s is not rejected" % v)
    plain = c.lib(); so = c.lib("ct", cc="clang", opt="-O1", harness=("shim.c", "api.c", "ct.c"), repo_flags=["-gline-tables-only", "-fno-builtin", "-mllvm", "-replexitval=never", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", *["-D%s=vc_%s" % (x, x) for x in REN]])
    g = c.pmap(groups, [(c.seed, c.thorough)], so=plain)[0]; ds = c.pmap(dil, [(c.seed + i, n, c.pick(5, 20)) for i in range(c.pick(1, 6)) for n in c.pick((1, 32, 64), (1, 2, 31, 32, 33, 63, 64, 200))], so=plain)
    if c.viol: return
    db = [x for y in c.pmap(dilb, [(c.seed, i, c.pick(2, 8)) for i in range(8)], so=plain) for x in y or []]
    if c.viol: return
    ds = [x for x in ds if x] + ([("Dilithium signing, branches", db)] if len(db) > 1 else []); g += ds; c.count("dilithium_groups", len(ds)); c.count("dilithium_runs", sum(len(x[1]) for x in ds))
    if len(ds) < 2: raise RuntimeError("no Dilithium keys with equal public parts found")
    g.sort(key=lambda x: -(1000 if "SPHINCS" in x[0] or "hybrid" in x[0] or "full" in x[0] else len(x[1]))); res = c.pmap(group, g, so=so)
    if c.viol: return
    p = os.path.join(c.scratch, "obs.ndjson"); idx = []
    with open(p, "w") as f:
        for gi, (x, o) in enumerate(zip(g, res)):
            for i, (rc, n, h), d in o: f.write(json.dumps(dict(pub=gi, sec=i, obs=[rc & 0x7fffffff, n % (1 << 30), h >> 34, h >> 4 & 0x3fffffff])) + "\n"); idx.append((x, i, d, n))
    t = T.run(c.scratch, "machines/ObserverTrace.tla", "SPECIFICATION Spec\nINVARIANT Reached\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=1, heap="4g")
    if not t.ok or not t.lines("END") or t.lines("LONE"): raise T.TlcError("ObserverTrace: exit %d\n%s" % (t.code, t.out[-3000:]))
    c.model(t); c.traces(len(idx)); c.count("operations", len(g)); c.count("runs", len(idx)); c.count("events_observed", sum(x[3] for x in idx)); told = set()
    for l in t.lines("BAD"):
        (name, cs), i, d, n = idx[int(l.strip("<>").split(",")[1]) - 1]
        if name in told or len(told) >= 5: continue
        told.add(name); d = d or next((e for (x, _, e, _) in idx if x[0] == name and e), ""); c.violation("%s: what an observer sees depends on the secret: %s" % (name, d), {"operation": name, "difference": d, "first": cs[0].case(), "second": cs[i].case()})
    for x, o in list(zip(g, res))[:3]: c.sample({"operation": x[0], "secrets": len(o), "events": o[0][1][1], "digest": "%016x" % o[0][1][2]})
    c.assumptions += ["branches and addresses as of clang -O1's intermediate code; conditional moves and the timing of single instructions are not observed", "Dilithium key generation and rejected attempts, and SPHINCS+ signing (whose branches depend on published values), are not compared"]
