"""C19 exact memory footprint: every call on buffers of exactly the specified extents."""
import os, json, struct, subprocess, ctypes as C, concurrent.futures as cf
from ..core import Violation, hx
from ..lib import Crash
from .. import drv as D, tlc as T, build as B
LEVEL = "model_checking"
MACH = "machines/Footprint.tla"
CFG = 'CONSTANTS Variant="%s"\nCHECK_DEADLOCK FALSE\nINVARIANTS ReadsInside WritesInside Covered\nSPECIFICATION Spec\n'
VOID = {"vf_shake128", "vf_shake256", "vf_sha3_256", "vf_sha3_384", "vf_sha3_512"}
STREAM = bytes(range(7, 167)) + b"\x99" * 96

class World:
    """genuine contents for the roles of the specification"""
    def __init__(self, L, seed):
        r = self.r = D.rng("c19w", seed); self.L = L; self.seed = seed; self.pk, self.sk = L.keys(r.randbytes(160)); self.nonce = r.randbytes(24); self.key = r.randbytes(32); self.memo = {}
    def msg(self, n): return D.rng("c19m", self.seed, n).randbytes(n)
    def get(self, role, n, mlen):
        k = (role, n, mlen)
        if k not in self.memo: self.memo[k] = self._get(role, n, mlen)
        b = self.memo[k]; assert len(b) == n, (role, n, len(b)); return b
    def sig(self, fn, cap, m, sk):
        self.L.rng(STREAM); rc, o, n = self.L.sig(fn, cap, C.create_string_buffer(m, max(1, len(m))), len(m), C.create_string_buffer(sk, len(sk)))
        if rc: raise Violation("%s failed with %d" % (fn, rc), {"m": hx(m)})
        return o.bytes(n)
    def _get(self, role, n, mlen):
        fit = lambda b: (b + D.rng("c19x", role).randbytes(n))[:n]
        if role == "msg": return self.msg(n)
        if role == "hsk": return self.sk
        if role == "hpk": return self.pk
        if role == "edsk": return self.sk[:64]
        if role == "edpk": return self.pk[:32]
        if role == "dsk": return self.sk[64:2624]
        if role == "dpk": return self.pk[32:1344]
        if role == "ssk": return self.sk[3936:]
        if role == "spk": return self.pk[1344:]
        if role == "nonce": return self.nonce
        if role == "key": return self.key
        if role == "csig": return self.sig("vf_c_sign", n, self.msg(n - 2526), self.sk)
        if role == "fsig": return self.sig("vf_f_sign", n, self.msg(n - 52342), self.sk)
        if role == "dsig": return fit(self.sig("vf_d_signature", 2420, self.msg(mlen), self.sk[64:2624]))
        if role == "ssig": return fit(self.sig("vf_s_signature", 49856, self.msg(mlen), self.sk[3936:]))
        if role == "edsm": k = max(0, n - 64); return self.sig("vf_ed_sign", 64 + k, self.msg(k), self.sk[:64])[:n]
        if role == "dsm": k = max(0, n - 2420); return self.sig("vf_d_sign", 2420 + k, self.msg(k), self.sk[64:2624])[:n]
        if role == "ssm": k = max(0, n - 49856); return self.sig("vf_s_sign", 49856 + k, self.msg(k), self.sk[3936:])[:n]
        if role == "boxm": return bytes(32) + self.msg(n - 32)
        if role == "box":
            o = C.create_string_buffer(max(1, n)); self.L.call("vf_n_secretbox", o, C.create_string_buffer(bytes(32) + self.msg(n - 32), n), n, C.create_string_buffer(self.nonce, 24), C.create_string_buffer(self.key, 32)); return o.raw[:n]
        return D.rng("c19r", self.seed, role, n).randbytes(n)
    def concrete(self, call):
        """the specification's call with contents: (function, [(direction, size, set bytes, contents)])"""
        a = call["a"]; m = [x["n"] for x in a if x["d"] == "in" and x["r"] == "msg"]; mlen = m[0] if m else 0; out = []
        for i, x in enumerate(a): out.append((x["d"], x["n"], x["w"], self.get(x["r"], x["n"], mlen) if x["d"] == "in" else b""))
        if call["f"] == "vf_n_core_salsa20" or call["f"] == "vf_n_core_hsalsa20": pass
        return call["f"], out

def guarded(L, call, side, fill):
    """one call on guard-page buffers; returns (rc, outputs)"""
    f, args = call; bufs = []; vals = []
    try:
        for d, n, w, data in args:
            if d == "val": vals.append(n); continue
            if d == "len": v = C.create_string_buffer(b"\x11" * 8 + b"\xc7" * 8, 16); bufs.append((d, v, 8, w, data)); vals.append(C.addressof(v)); continue
            p = L.dll.vf_guard(n, side); C.memset(p, 0xa5, n)
            if d == "in": C.memmove(p, data, n); L.dll.vf_guard_ro(p, n, 1)
            bufs.append((d, p, n, w, data)); vals.append(p)
        L.dll.vf_stack_fill(fill); L.dll.vf_heap_fill(fill); L.rng(STREAM); live = L.dll.vf_live()
        case = {"f": f, "side": side, "args": [(d, n, hx(x)[:400]) for d, n, w, x in args]}
        try: rc = L.call(f, *vals, void=f in VOID)
        except Crash as e: raise Violation("%s touches memory outside the extents of its arguments or crashes: %s" % (f, e), case)
        finally: L.dll.vf_stack_fill(-1); L.dll.vf_heap_fill(-1)
        if L.dll.vf_live() != live: raise Violation("%s leaves %d heap blocks allocated" % (f, L.dll.vf_live() - live), case)
        outs = []
        for d, p, n, w, data in bufs:
            if d == "len":
                if p.raw[8:] != b"\xc7" * 8: raise Violation("%s writes past the length output" % f, case)
                outs.append(p.raw[:8]); continue
            got = C.string_at(p, n)
            if d == "in" and got != data: raise Violation("%s modified an input" % f, case)
            pg = (n + 4095) // 4096 * 4096 or 4096          # the rest of the pages, on the side without a guard page next to it
            slack = C.string_at(p + n, pg - n) if side else C.string_at(p - (pg - n), pg - n)
            if slack != b"\xc3" * len(slack): raise Violation("%s wrote outside an argument's extent" % f, case)
            if d == "out": outs.append(got)
        return rc, outs
    finally:
        for d, p, n, w, data in bufs:
            if d != "len":
                if d == "in": L.dll.vf_guard_ro(p, n, 0)
                L.dll.vf_unguard(p, n, side)

def run(L, it):
    """both guard sides and two memory fills give the same result"""
    out = []
    for call in it:
        a = guarded(L, call, 0, 0x00); b = guarded(L, call, 1, 0xee)
        if a != b: raise Violation("the result of %s depends on uninitialised memory or on buffer placement" % call[0], {"f": call[0], "args": [(d, n, hx(x)[:400]) for d, n, w, x in call[1]]})
        outs = [o[:w] if a[0] == 0 else b"" for o, w in zip(a[1], [w for d, n, w, x in call[1] if d in ("out", "len")])]
        out.append((a[0], outs))
    return out
_SC = []; _W = None
def shape_calls(w, i):
    """the calls for one malformed shape: lying headers and lengths, in buffers of exactly the stated length; never acceptable"""
    mode, ident, ln, slen, noread = _SC[i]; md = {1: "c", 2: "f"}[mode]; out = []
    for body in ("genuine", "random"):
        base = {1: 2526, 2: 52342}[mode]; k = ln if 1 <= ln <= 64 else 64
        sm = (w.get(md + "sig", base + k, 0) if body == "genuine" else b"") + D.rng("c19s", slen).randbytes(max(0, slen)); sm = bytearray(sm[:slen])
        if slen > 0: sm[0] = ident
        if slen > 1: sm[1] = ln
        if slen > 70: sm[66 if mode == 1 else slen // 2] ^= 1
        out.append(("vf_%s_open" % md, [("out", k, 0, b""), ("len", 8, 0, b""), ("in", slen, 0, bytes(sm)), ("val", slen, 0, b""), ("in", 1408, 0, w.pk)]))
        if body == "genuine" or i % 5 == 0: out.append(("vf_%s_verify" % md, [("in", k, 0, w.msg(k)), ("val", k, 0, b""), ("in", slen, 0, bytes(sm)), ("val", slen, 0, b""), ("in", 1408, 0, w.pk)]))
    return out
def shapes(L, idx):
    w = World(L, 77); n = 0
    for i in idx:
        for call in shape_calls(w, i):
            rc, outs = guarded(L, call, i % 2, 0xee); n += 1
            if rc == 0: raise Violation("%s accepts a malformed signature" % call[0], {"args": [(d, k, hx(x)) for d, k, s, x in call[1]]})
    return n

def pack(calls):
    out = []
    for f, args in calls:
        out.append(bytes([len(f)]) + f.encode() + bytes([f in VOID]) + struct.pack("<Q", len(STREAM)) + STREAM + bytes([len(args)]))
        for d, n, w, x in args: out.append(bytes([{"val": 0, "in": 1, "out": 2, "len": 3}[d]]) + struct.pack("<QQ", n, w) + x)
    return b"".join(out)
def sanitised(c, exe, kind, calls, expected):
    """runs the calls in a sanitised executable and compares the results with those of the production build"""
    def part(k):
        mine = list(range(k, len(calls), 8)); base = os.path.join(c.scratch, "%s.%d" % (kind, k)); open(base + ".in", "wb").write(pack([calls[i] for i in mine]))
        p = subprocess.run([exe, base + ".in", base + ".out"], capture_output=True, text=True, timeout=800, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=78:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=78:print_stacktrace=0", MSAN_OPTIONS="exitcode=0:halt_on_error=0:print_stats=0"))
        d = open(base + ".out", "rb").read(); pos = 0
        for j, i in enumerate(mine):
            f, args = calls[i]
            if pos + 8 > len(d): return (i, "%s: %s" % (kind, next((l for l in p.stderr.splitlines() if "ERROR" in l or "runtime error" in l or "WARNING" in l or l.startswith("FP")), p.stderr[-300:] or "exit %d" % p.returncode)), p.stderr[-3000:])
            rc = struct.unpack("<q", d[pos:pos + 8])[0]; pos += 8; outs = []
            for dd, n, w, x in args:
                if dd in ("out", "len"): k2 = w if rc == 0 else 0; outs.append(d[pos:pos + k2]); pos += k2
            if (rc == 0) != (expected[i][0] == 0) or (rc == 0 and outs != expected[i][1]): return (i, "%s build gives another result" % kind, "")
        if p.returncode: return (mine[-1], "%s: exit %d" % (kind, p.returncode), p.stderr[-3000:])
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(part, range(8)):
            if r and len(c.viol) < 5: c.violation("%s has undefined behaviour (%s)" % (calls[r[0]][0], r[1]), {"f": calls[r[0]][0], "args": [(d, n, hx(x)[:4000]) for d, n, w, x in calls[r[0]][1]], "report": r[2]})
    c.count("calls_%s" % kind, len(calls))
def executables(c):
    """the sanitised builds (clang); all of the repository's sources instrumented"""
    def one(k, fl): 
        return B.build_exe(c.scratch, k, cc="clang", opt="-O1", flags=fl, harness=("fp.c", "api.c"), link=("-rdynamic", "-ldl", "-Wl,--wrap=getrandom"))
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(one, "asan", ("-g", "-fsanitize=address,undefined", "-fno-sanitize=shift-base,function,alignment", "-fno-sanitize-recover=all")); m = ex.submit(one, "msan", ("-fsanitize=memory", "-fsanitize-recover=memory", "-fno-sanitize-memory-param-retval")); return a.result(), m.result()

def check(c):
    global _SC, _W
    so = c.lib(); ex = cf.ThreadPoolExecutor(1); exes = ex.submit(executables, c)
    out = os.path.join(c.scratch, "calls.ndjson")
    r = T.check(c.scratch, MACH, CFG % "spec" + "CONSTRAINT Scen\nPOSTCONDITION EmitCalls\n", env={"VF_OUT": out}, workers=1); c.model(r)
    for v in ("notbound", "nototal", "nolen"):
        if "is violated" not in T.run(c.scratch, MACH, CFG % v).out: raise T.TlcError("the invariants do not reject the wrong order of checks " + v)
    _SC = sorted({tuple(int(x) for x in l.replace("TRUE", "1").replace("FALSE", "0").strip("<>").split(",")[1:]) for l in r.lines("SCEN")}); spec = [json.loads(l) for l in open(out)]
    c.log(len(_SC), "malformed shapes,", len(spec), "calls specified")
    if len(_SC) < 1000 or len(spec) < 500: raise T.TlcError("too few scenarios")
    from ..core import lib
    L = lib(so); calls = []
    for sd in range(c.pick(1, 8)):
        w = World(L, c.seed * 100 + sd); calls += [w.concrete(x) for x in spec]
    D.rng("c19", c.seed).shuffle(calls)
    step = 8; res = c.pmap(run, [calls[i:i + step] for i in range(0, len(calls), step)], so=so)
    if c.viol: return
    exp = [x for y in res for x in y]; ok = sum(x[0] == 0 for x in exp); c.log(len(exp), "calls in guard pages,", ok, "succeed"); c.traces(len(exp)); c.count("calls_guarded", 2 * len(exp))
    seen = {calls[i][0] for i in range(len(calls)) if exp[i][0] == 0}; missing = {x["f"] for x in spec} - seen - {"vf_n_auth_verify", "vf_n_verify16", "vf_n_verify32", "vf_n_box_open"}
    if missing: return c.violation("no call succeeds of " + ", ".join(sorted(missing)))
    idx = list(range(len(_SC))); D.rng("c19i", c.seed).shuffle(idx); n = c.pmap(shapes, [idx[i::16] for i in range(16)], so=so)
    if c.viol: return
    c.count("malformed_calls", sum(n)); c.traces(sum(n)); c.log(sum(n), "malformed calls")
    a, m = exes.result(); c.log("sanitised builds done"); ex.shutdown()
    w = World(L, 77); bad = [x for i in idx[:c.pick(500, len(idx))] for x in shape_calls(w, i)]; calls += bad; exp += [(1, [])] * len(bad)
    sanitised(c, a, "asan+ubsan", calls, exp); c.log("asan+ubsan"); sanitised(c, m, "msan", calls, exp)
    for i in range(3): c.sample({"call": calls[i][0], "extents": [(d, n) for d, n, w, x in calls[i][1]], "rc": exp[i][0]})
    c.assumptions.append("left shifts of negative integers (TweetNaCl's carries) are defined as gcc and clang define them")
