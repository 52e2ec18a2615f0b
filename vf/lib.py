"""ctypes binding to the built code under test (harness/api.c + harness/shim.c)."""
import ctypes as C, threading
SIGN = {"c": 2526, "f": 52342}
PK, SK, SEED = 1408, 4064, 160
CANARY = 96

class Crash(Exception):
    """A call of the code under test faulted, aborted or hung."""

class RngEv(C.Structure):
    _fields_ = [("ptr", C.c_uint64), ("len", C.c_uint64), ("ret", C.c_int64), ("err", C.c_int64)]

def addr(b):
    return 0 if b is None else (b if isinstance(b, int) else C.addressof(b))

def inbuf(data):
    """an input buffer holding exactly data (plus one terminating byte outside it)"""
    return None if data is None else C.create_string_buffer(bytes(data), max(len(data), 1))

class Out:
    """an output buffer of n bytes with canaries on both sides, filled with a known pattern"""
    def __init__(self, n, fill=0xA5):
        self.n = n; self.fill = fill
        self.raw = C.create_string_buffer(n + 2 * CANARY)
        C.memset(self.raw, 0xE7, n + 2 * CANARY)
        C.memset(C.addressof(self.raw) + CANARY, fill, n)
        self.addr = C.addressof(self.raw) + CANARY
    def bytes(self, k=None):
        return C.string_at(self.addr, self.n if k is None else k)
    def canary_ok(self):
        a = C.string_at(C.addressof(self.raw), CANARY); b = C.string_at(self.addr + self.n, CANARY)
        return a == b"\xe7" * CANARY and b == b"\xe7" * CANARY
    def untouched(self):
        return self.bytes() == bytes([self.fill]) * self.n

LEN_SENTINEL = 0x1122334455667788

class Lib:
    def __init__(self, so):
        self.dll = C.CDLL(so); self.so = so
        d = self.dll
        d.vf_call.restype = C.c_int64
        d.vf_call.argtypes = [C.c_void_p, C.c_int, C.c_int] + [C.c_uint64] * 6
        for f in ("vf_rng_delivered", "vf_rng_spos", "vf_rng_ncalls", "vf_fault_addr"):
            getattr(d, f).restype = C.c_uint64
        for f in ("vf_live", "vf_allocs", "vf_watch_result", "vf_alloc_no", "vf_alloc_failed"):
            getattr(d, f).restype = C.c_int64
        d.vf_rng_log.restype = C.POINTER(RngEv)
        d.vf_guard.restype = C.c_void_p; d.vf_guard.argtypes = [C.c_size_t, C.c_int]
        d.vf_guard_ro.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
        d.vf_unguard.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
        d.vf_rng.argtypes = [C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t]
        for f in ("vf_zeros", "vf_wrapmap"): getattr(d, f).restype = C.c_void_p
        d.vf_zeros.argtypes = [C.c_size_t]; d.vf_wrapmap.argtypes = [C.c_size_t, C.c_size_t]; d.vf_unmap.argtypes = [C.c_void_p, C.c_size_t]
        d.vf_alloc_plan.argtypes = [C.c_void_p, C.c_int64, C.c_int64]
        d.vf_watch.argtypes = [C.c_void_p, C.c_size_t]
        self._fn = {}
        self.timeout_ms = 60000
        self._keep = {}

    def fn(self, name):
        if name not in self._fn:
            self._fn[name] = C.cast(getattr(self.dll, name), C.c_void_p).value
        return self._fn[name]

    def call(self, name, *args, void=False, ms=None):
        a = [x & 0xFFFFFFFFFFFFFFFF if isinstance(x, int) else addr(x) for x in args]
        a += [0] * (6 - len(a))
        r = self.dll.vf_call(self.fn(name), self.timeout_ms if ms is None else ms, 1 if void else 0, *a)
        if r <= -99990 and r > -100100:
            raise Crash("%s: signal %d (fault address 0x%x)" % (name, -99990 - r, self.dll.vf_fault_addr()))
        return r

    # ---- randomness
    def rng(self, stream=b"", script=()):
        s = C.create_string_buffer(bytes(stream), max(1, len(stream)))
        sc = (C.c_int64 * max(1, len(script)))(*script)
        self._keep[threading.get_ident()] = (s, sc)
        self.dll.vf_rng(C.addressof(s), len(stream), C.addressof(sc), len(script))
    def rng_log(self):
        n = self.dll.vf_rng_ncalls(); lg = self.dll.vf_rng_log()
        return [(lg[i].ptr, lg[i].len, lg[i].ret, lg[i].err) for i in range(min(n, 4096))]
    def delivered(self):
        return self.dll.vf_rng_delivered()

    # ---- keys
    def _kp(self, name, pkn, skn, seed=None):
        pk, sk = Out(pkn), Out(skn)
        args = [pk.addr, sk.addr] + ([inbuf(seed)] if seed is not None else [])
        rc = self.call(name, *args)
        return rc, pk, sk
    def h_keypair_seed(self, seed): return self._kp("vf_h_keypair_seed", PK, SK, seed)
    def h_keypair(self): return self._kp("vf_h_keypair", PK, SK)
    def keys(self, seed):
        rc, pk, sk = self.h_keypair_seed(seed)
        return pk.bytes(), sk.bytes()
    def expander(self, seed):
        o = Out(160); rc = self.call("vf_h_expander", inbuf(seed), o.addr); return rc, o

    # ---- hybrid signatures; mode "c" or "f"
    def sign(self, mode, m, sk, size=None):
        o = Out(SIGN[mode] + len(m) if size is None else size); n = C.c_uint64(LEN_SENTINEL)
        rc = self.call("vf_%s_sign" % mode, o.addr, n, inbuf(m), len(m), inbuf(sk))
        return rc, o, n.value
    def open(self, mode, sm, pk, slen=None, size=64):
        o = Out(size); n = C.c_uint64(LEN_SENTINEL)
        rc = self.call("vf_%s_open" % mode, o.addr, n, inbuf(sm), len(sm) if slen is None else slen, inbuf(pk))
        return rc, o, n.value
    def verify(self, mode, m, sm, pk, slen=None, mlen=None):
        return self.call("vf_%s_verify" % mode, inbuf(m), len(m) if mlen is None else mlen, inbuf(sm), len(sm) if slen is None else slen, inbuf(pk))

    # ---- components
    def sig(self, name, cap, *args):
        """signature functions with (out, *outlen, ...)"""
        o = Out(cap); n = C.c_uint64(LEN_SENTINEL)
        rc = self.call(name, o.addr, n, *args)
        return rc, o, n.value
    def ed_sign(self, m, sk): return self.sig("vf_ed_sign", 64 + len(m), inbuf(m), len(m), inbuf(sk))
    def ed_open(self, sm, pk): return self.sig("vf_ed_open", len(sm), inbuf(sm), len(sm), inbuf(pk))
    def d_signature(self, m, sk): return self.sig("vf_d_signature", 2420, inbuf(m), len(m), inbuf(sk))
    def d_verify(self, sig, m, pk): return self.call("vf_d_verify", inbuf(sig), len(sig), inbuf(m), len(m), inbuf(pk))
    def s_signature(self, m, sk): return self.sig("vf_s_signature", 49856, inbuf(m), len(m), inbuf(sk))
    def s_verify(self, sig, m, pk): return self.call("vf_s_verify", inbuf(sig), len(sig), inbuf(m), len(m), inbuf(pk))
    def hd_verify(self, m, sig, pk): return self.call("vf_hd_verify", inbuf(m), len(m), inbuf(sig), len(sig), inbuf(pk))
