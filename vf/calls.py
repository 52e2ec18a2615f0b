"""Concrete calls for the kinds of spec/machines/Calls.tla, their results alone in a fresh process, and ways to run them together."""
import os, json, pickle, ctypes as C
from .core import Violation, hx
from .lib import Crash
from . import drv as D
VOID = {"vf_shake256", "vf_shake128", "vf_sha3_256", "vf_sha3_512"}
SLOT = 1 << 17; ARENA = 7 * SLOT

class Arena:
    """argument i of every call lives at the same address"""
    def __init__(self): self.buf = C.create_string_buffer(ARENA + 4096); self.base = (C.addressof(self.buf) + 4095) & ~4095
    def at(self, i): return self.base + i * SLOT

class Call:
    """f: entry point; args: ("in", bytes) | ("out", size) | ("len",) | ("val", n); stream/script: the randomness"""
    def __init__(self, kind, f, args, stream=b"", script=()):
        self.kind, self.f, self.args, self.stream, self.script = kind, f, args, stream, list(script)
    def case(self):
        return {"kind": self.kind, "f": self.f, "args": [a if a[0] != "in" else ("in", hx(a[1])[:6000]) for a in self.args], "rng": hx(self.stream), "script": self.script}
    def place(self, ar):
        v = []
        for i, a in enumerate(self.args):
            p = ar.at(i)
            if a[0] == "in": C.memmove(p, a[1] or b"\0", max(1, len(a[1]))); v.append(p)
            elif a[0] == "out": C.memset(p, 0xa5, a[1]); v.append(p)
            elif a[0] == "len": C.memset(p, 0x11, 8); v.append(p)
            else: v.append(a[1])
        return v
    def result(self, ar, rc):
        """what the caller observes: success or failure, and on success the outputs up to the reported length; inputs are intact"""
        n = None; out = []
        for i, a in enumerate(self.args):
            if a[0] == "len": n = C.c_uint64.from_address(ar.at(i)).value
        for i, a in enumerate(self.args):
            if a[0] == "in" and C.string_at(ar.at(i), len(a[1])) != a[1]: return ("input modified", i)
            if a[0] == "out" and rc == 0: out.append(C.string_at(ar.at(i), a[1] if n is None else min(n, a[1])))
        return (rc == 0, n if rc == 0 else None, out)
    def run(self, L, ar, rng=True, hook=None):
        v = self.place(ar)
        if rng: L.rng(self.stream, self.script)
        if hook: hook()
        try: rc = L.call(self.f, *v, void=self.f in VOID)
        except Crash as e: return ("crash", str(e))
        return self.result(ar, rc)

def _sign(L, f, cap, m, sk, st):
    L.rng(st); rc, o, n = L.sig(f, cap, C.create_string_buffer(m, max(1, len(m))), len(m), C.create_string_buffer(sk, len(sk)))
    if rc: raise Violation("%s failed with %d" % (f, rc), {"m": hx(m)})
    return o.bytes(n)

def table(L, seed, w):
    """one concrete call per kind; worlds 2k and 2k+1 share key prefixes and message lengths, so that a partial comparison cannot tell them apart"""
    r = D.rng("calls", seed, w); q = D.rng("callsq", seed, w // 2)
    ks = bytearray(q.randbytes(160))
    if w % 2: ks[r.choice((31, 40, 63, 159))] ^= 1 << r.randrange(8)
    ks = bytes(ks); pk, sk = L.keys(ks); n = q.randrange(1, 65); m = bytearray(q.randbytes(n))
    if w % 2: m[-1] ^= 0x40
    m = bytes(m); st = r.randbytes(200); o = {}
    def add(kind, f, *args, stream=b"", script=()): o[kind] = Call(kind, f, list(args), stream, script)
    def bad(b, at): return D.flip(b, 8 * at + r.randrange(8))
    I = lambda b: ("in", bytes(b)); O = lambda k: ("out", k); V = lambda k: ("val", k); N = ("len",)
    add("keyseed", "vf_h_keypair_seed", O(1408), O(4064), I(ks)); add("expand", "vf_h_expander", I(r.randbytes(96)), O(160))
    for k, sc in (("key", []), ("keyshort", [96, 10]), ("keyfail", [-5]), ("keylate", [50, -5])): add(k, "vf_h_keypair", O(1408), O(4064), stream=r.randbytes(160), script=sc)
    for k, sc in (("csign", []), ("csignshort", [13, 20]), ("csignfail", [-5]), ("csignlate", [30, -5])): add(k, "vf_c_sign", O(2526 + n), N, I(m), V(n), I(sk), stream=r.randbytes(40), script=sc)
    add("csignbad", "vf_c_sign", O(2526 + 65), N, I(bytes(65)), V(65), I(sk), stream=st)
    cs = _sign(L, "vf_c_sign", 2526 + n, m, sk, r.randbytes(40)); cb = bad(cs, r.choice((40, 100, 2400, 2500, 2526)))
    def op(k, f, sm, slen=None): add(k, f, O(64), N, I(sm), V(len(sm) if slen is None else slen), I(pk))
    def ve(k, f, m, sm): add(k, f, I(m), V(len(m)), I(sm), V(len(sm)), I(pk))
    op("copen", "vf_c_open", cs); op("copenrej", "vf_c_open", cb); op("copenlen", "vf_c_open", cs, len(cs) - 1)
    ve("cverify", "vf_c_verify", m, cs); ve("cverifyrej", "vf_c_verify", bad(m, n - 1), cs)
    add("fsign", "vf_f_sign", O(52342 + n), N, I(m), V(n), I(sk), stream=r.randbytes(32)); add("fsignfail", "vf_f_sign", O(52342 + n), N, I(m), V(n), I(sk), stream=r.randbytes(32), script=[-5])
    fs = _sign(L, "vf_f_sign", 52342 + n, m, sk, r.randbytes(32)); fb = bad(fs, r.choice((40, 300, 2400 + n, 30000, 52000)))
    op("fopen", "vf_f_open", fs); op("fopenrej", "vf_f_open", fb); ve("fverify", "vf_f_verify", m, fs); ve("fverifyrej", "vf_f_verify", bad(m, 0), fs)
    ds = _sign(L, "vf_d_signature", 2420, m, sk[64:2624], b""); dp = pk[32:1344]
    ss = fs[2486 + n:]; sp = pk[1344:]
    es = _sign(L, "vf_ed_sign", 64 + n, m, sk[:64], b""); ep = pk[:32]
    add("hdverify", "vf_hd_verify", I(m), V(n), I(ds), V(2420), I(dp)); add("hdverifyrej", "vf_hd_verify", I(m), V(n), I(bad(ds, r.randrange(2000))), V(2420), I(dp))
    add("edkey", "vf_ed_keypair", O(32), O(64), stream=r.randbytes(32)); add("edsign", "vf_ed_sign", O(64 + n), N, I(m), V(n), I(sk[:64]))
    add("edopen", "vf_ed_open", O(64 + n), N, I(es), V(64 + n), I(ep)); add("edopenrej", "vf_ed_open", O(64 + n), N, I(bad(es, 50)), V(64 + n), I(ep))
    add("dkey", "vf_d_keypair", O(1312), O(2560), stream=r.randbytes(32)); add("dkeyseed", "vf_d_keypair_seed", O(1312), O(2560), I(ks[32:64]))
    add("dsign", "vf_d_signature", O(2420), N, I(m), V(n), I(sk[64:2624])); add("dverify", "vf_d_verify", I(ds), V(2420), I(m), V(n), I(dp)); add("dverifyrej", "vf_d_verify", I(bad(ds, 5)), V(2420), I(m), V(n), I(dp))
    add("skey", "vf_s_keypair", O(64), O(128), stream=r.randbytes(96)); add("skeyseed", "vf_s_keypair_seed", O(64), O(128), I(ks[64:]))
    add("ssign", "vf_s_signature", O(49856), N, I(m), V(n), I(sk[3936:]), stream=r.randbytes(32)); add("sverify", "vf_s_verify", I(ss), V(49856), I(m), V(n), I(sp)); add("sverifyrej", "vf_s_verify", I(bad(ss, 20000)), V(49856), I(m), V(n), I(sp))
    rn = r.randrange(1, 400)
    for k, sc in (("random", []), ("randomshort", [rn // 3 or 1, 7]), ("randomfail", [1, -5])): add(k, "vf_randombytes", O(rn + (k == "randomfail")), V(rn + (k == "randomfail")), stream=r.randbytes(400), script=sc)
    sd = r.randbytes(64); add("prng", "vf_prng_wrapper", I(sd), V(64), O(300), V(300))
    x = r.randbytes(r.randrange(1, 400)); add("shake", "vf_shake256", O(200), V(200), I(x), V(len(x))); add("sha3", "vf_sha3_512", O(64), I(x), V(len(x))); add("sha512", "vf_n_sha512", O(64), I(x), V(len(x)))
    nn, k = r.randbytes(24), q.randbytes(32); bm = bytes(32) + x
    c = C.create_string_buffer(len(bm)); L.call("vf_n_secretbox", c, C.create_string_buffer(bm, len(bm)), len(bm), C.create_string_buffer(nn, 24), C.create_string_buffer(k, 32)); c = c.raw[:len(bm)]
    add("secretbox", "vf_n_secretbox", O(len(bm)), I(bm), V(len(bm)), I(nn), I(k)); add("sbopen", "vf_n_secretbox_open", O(len(bm)), I(c), V(len(c)), I(nn), I(k)); add("sbopenrej", "vf_n_secretbox_open", O(len(bm)), I(bad(c, 20)), V(len(c)), I(nn), I(k))
    add("boxkey", "vf_n_box_keypair", O(32), O(32), stream=r.randbytes(32)); a, b = r.randbytes(32), r.randbytes(32)
    add("box", "vf_n_box", O(len(bm)), I(bm), V(len(bm)), I(nn), I(a), I(b)); add("scalarmult", "vf_n_scalarmult", O(32), I(a), I(b))
    return o

def fresh(L, f, timeout=120):
    """f() in a forked copy of this process; a death of the copy is ("crash", status)"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r); d = pickle.dumps(f())
            with os.fdopen(w, "wb") as h: h.write(d)
            code = 0
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h: d = h.read()
    _, st = os.waitpid(pid, 0)
    if st: return ("crash", "the process died (status %d)" % st)
    return pickle.loads(d)

def event(call, res):
    """a record for spec/machines/Conform.tla, where it has a form for the call"""
    ok = res[0]; a = call.args; h = lambda i: hx(a[i][1]); out = res[2]; k = call.f
    if not isinstance(ok, bool): return None
    if k == "vf_h_keypair_seed": return dict(op="hkey", ok=ok, seed=h(2), pk=hx(out[0]), sk=hx(out[1]))
    if k == "vf_h_keypair" and ok: return dict(op="hkey", ok=ok, seed=hx(call.stream), pk=hx(out[0]), sk=hx(out[1]))
    if k == "vf_c_sign" and ok: return dict(op="csign", ok=ok, m=h(2), sk=h(4), rnd=hx(call.stream), sm=hx(out[0]))
    if k == "vf_f_sign" and ok: return dict(op="fsignv", ok=ok, m=h(2), sk=h(4), rnd=hx(call.stream), sm=hx(out[0]))
    if k in ("vf_c_open", "vf_f_open"): return dict(op=k[3] + "open", ok=ok, sm=hx(a[2][1][:a[3][1]]), pk=h(4), m=hx(out[0]) if ok else "")
    if k in ("vf_c_verify", "vf_f_verify"): return dict(op=k[3] + "verify", ok=ok, m=h(0), sm=h(2), pk=h(4))
    if k == "vf_hd_verify": return dict(op="hdverify", ok=ok, m=h(0), sig=h(2), pk=h(4))
    if k == "vf_ed_keypair": return dict(op="edkey", ok=ok, seed=hx(call.stream), pk=hx(out[0]), sk=hx(out[1]))
    if k == "vf_ed_sign": return dict(op="edsign", ok=ok, m=h(2), sk=h(4), sm=hx(out[0]))
    if k == "vf_ed_open": return dict(op="edopen", ok=ok, sm=h(2), pk=h(4), m=hx(out[0]) if ok else "")
    if k == "vf_d_keypair": return dict(op="dkey", ok=ok, seed=hx(call.stream), pk=hx(out[0]), sk=hx(out[1]))
    if k == "vf_d_keypair_seed": return dict(op="dkey", ok=ok, seed=h(2), pk=hx(out[0]), sk=hx(out[1]))
    if k == "vf_d_signature": return dict(op="dsign", ok=ok, m=h(2), sk=h(4), sig=hx(out[0]))
    if k == "vf_d_verify": return dict(op="dverify", ok=ok, sig=h(0), m=h(2), pk=h(4))
    if k == "vf_s_keypair": return dict(op="skey", ok=ok, seed=hx(call.stream), pk=hx(out[0]), sk=hx(out[1]))
    if k == "vf_s_keypair_seed": return dict(op="skey", ok=ok, seed=h(2), pk=hx(out[0]), sk=hx(out[1]))
    if k == "vf_s_signature": return dict(op="ssignv", ok=ok, m=h(2), sk=h(4), rnd=hx(call.stream), sig=hx(out[0]))
    if k == "vf_s_verify": return dict(op="sverify", ok=ok, sig=h(0), m=h(2), pk=h(4))
    if k == "vf_prng_wrapper": return dict(op="prng", ok=ok, seed=h(0), out=hx(out[0]))
    if k == "vf_shake256": return dict(op="hash", alg="shake256", **{"in": h(2)}, out=hx(out[0]))
    if k == "vf_sha3_512": return dict(op="hash", alg="sha3-512", **{"in": h(1)}, out=hx(out[0]))
    if k == "vf_n_sha512": return dict(op="hash", alg="sha512", **{"in": h(1)}, out=hx(out[0]))
    if k == "vf_n_secretbox": return dict(op="secretbox", ok=ok, m=hx(a[1][1][32:]), n=h(3), k=h(4), c=hx(out[0][16:]))
    if k == "vf_n_scalarmult": return dict(op="nacl", ok=ok, f="scalarmult", a=h(1), b=h(2), out=hx(out[0]))
    return None
