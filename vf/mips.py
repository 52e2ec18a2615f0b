"""The code under test on emulated big-endian MIPS (64 and 32 bits): clang/lld build with a minimal C library, run by harness/mips/emu.c."""
import os, re, struct, subprocess, shutil, ctypes as C, concurrent.futures as cf
from . import build as B
M = os.path.join(B.HARNESS, "mips"); W = os.path.join(B.HARNESS, "wasm")
TARGET = {64: ["--target=mips64-unknown-elf", "-mips64r2", "-mabi=64"], 32: ["--target=mips-unknown-elf", "-mips32r2"]}
def lld():
    for p in ("/usr/lib/llvm-18/bin/ld.lld", shutil.which("ld.lld") or ""):
        if p and os.path.exists(p): return [p]
    return [os.path.realpath(shutil.which("wasm-ld")), "-flavor", "gnu"]

def entries():
    """name -> parameter types of api.c's functions"""
    o = {}
    for ret, f, ps in re.findall(r"^E (\w+) (vf_\w+)\(([^)]*)\)", open(os.path.join(B.HARNESS, "api.c")).read(), re.M):
        if f.startswith("vf_x_") or f in ("vf_prng_init", "vf_prng_next", "vf_prng_release", "vf_prng_size"): continue
        o[f] = (ret, [re.sub(r"\s*\w+$", "", p).strip() + ("*" if "*" in p and not re.sub(r"\s*\w+$", "", p).strip().endswith("*") else "") for p in ps.split(",")])
    return o
def dispatch():
    es = entries(); t = []
    for f, (ret, ps) in es.items(): t.append("%s %s(%s);" % (ret, f, ", ".join(ps)))
    t.append("int vf_dispatch(int k, ull *a) { int rc = 0; size_t t;\nswitch (k) {")
    for k, (f, (ret, ps)) in enumerate(es.items()):
        a = []; pre = post = ""
        for i, p in enumerate(ps):
            if "size_t" in p and "*" in p: pre = "t = (size_t)*(ull *)(uintptr_t)a[%d]; " % i; post = " *(ull *)(uintptr_t)a[%d] = t;" % i; a.append("&t")
            elif "*" in p: a.append("(void *)(uintptr_t)a[%d]" % i)
            else: a.append("a[%d]" % i)
        t.append("case %d: %s%s%s(%s);%s break;" % (k, pre, "rc = " if ret == "int" else "", f, ", ".join(a), post))
    return "\n".join(t) + "\ndefault: return -99; } return rc; }\n", {f: k for k, f in enumerate(es)}

def build(outdir, bits, opt="-O1", flags=()):
    """returns (image, emulator): what run() needs"""
    name = "mips%d" % bits; d = os.path.join(outdir, name + ".o.d"); os.makedirs(d, exist_ok=True)
    txt, idx = dispatch(); open(os.path.join(d, "dispatch.h"), "w").write(txt)
    fl = ["clang", *TARGET[bits], opt, *flags, "-msoft-float", "-mno-abicalls", "-fno-pic", "-G0", "-ffreestanding", "-nostdlibinc", "-femulated-tls", "-std=gnu11", "-w", "-DNDEBUG", "-fno-builtin", "-fno-stack-protector", "-I" + d, "-isystem", os.path.join(W, "libc"), "-I" + B.REPO]
    src = [os.path.join(B.REPO, s) for s in B.sources() if not s.endswith("randombytes.c")] + [os.path.join(B.HARNESS, "api.c"), os.path.join(M, "guest.c")]
    obj = [os.path.join(d, s.replace("/", "_") + ".o") for s in src]
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: B.run(fl + ["-c", j[0], "-o", j[1]]), zip(src, obj)))
    elf = os.path.join(outdir, name + ".elf"); B.run([*lld(), "-static", "-Ttext=0x100000", "-e", "vf_dispatch", *obj, "-o", elf])
    emu = os.path.join(outdir, "emu.so")
    if not os.path.exists(emu): B.run(["gcc", "-O3", "-shared", "-fPIC", "-w", os.path.join(M, "emu.c"), "-o", emu])
    return dict(elf=elf, emu=emu, idx=idx, bits=bits)

SIZE = 48 << 20; STACK = SIZE - 4096; ARENA = 24 << 20; ARGS = ARENA - 4096
class Fault(Exception): pass
class Machine:
    def __init__(self, img):
        self.img = img; d = self.d = C.CDLL(img["emu"]); u = C.c_uint64
        d.emu_new.restype = C.c_void_p; d.emu_mem.restype = C.c_void_p; d.emu_count.restype = d.emu_fault.restype = d.emu_pc.restype = u
        for f in (d.emu_mem, d.emu_count, d.emu_fault, d.emu_pc, d.emu_raw, d.emu_free): f.argtypes = [C.c_void_p]
        d.emu_code.argtypes = [C.c_void_p, u, u]; d.emu_run.argtypes = [C.c_void_p, u, u, u, u, u, u, C.POINTER(u)]; d.emu_new.argtypes = [u]
        self.e = d.emu_new(SIZE); self.mem = d.emu_mem(self.e); b = open(img["elf"], "rb").read(); b64 = b[4] == 2; self.sym = {}
        if b[5] != 2: raise RuntimeError("not a big-endian image")
        if b64: shoff, shn, phoff, phn = struct.unpack(">Q", b[40:48])[0], struct.unpack(">H", b[60:62])[0], struct.unpack(">Q", b[32:40])[0], struct.unpack(">H", b[56:58])[0]
        else: shoff, shn, phoff, phn = struct.unpack(">I", b[32:36])[0], struct.unpack(">H", b[48:50])[0], struct.unpack(">I", b[28:32])[0], struct.unpack(">H", b[44:46])[0]
        for i in range(phn):
            if b64: ty, fl, off, va, _, fs, ms, _ = struct.unpack(">IIQQQQQQ", b[phoff + 56 * i:phoff + 56 * i + 56])
            else: ty, off, va, _, fs, ms, fl, _ = struct.unpack(">IIIIIIII", b[phoff + 32 * i:phoff + 32 * i + 32])
            if ty == 1:
                if va + ms > ARGS - (8 << 20): raise RuntimeError("image too large")
                C.memmove(self.mem + va, b[off:off + fs], fs)
        sec = [struct.unpack(">IIQQQQIIQQ", b[shoff + 64 * i:shoff + 64 * i + 64]) if b64 else struct.unpack(">IIIIIIIIII", b[shoff + 40 * i:shoff + 40 * i + 40]) for i in range(shn)]
        for s in sec:
            if s[1] == 2:
                st = sec[s[6]]
                for k in range(0, s[5], s[9]):
                    x = b[s[4] + k:s[4] + k + s[9]]
                    if b64: nm, va = struct.unpack(">I", x[:4])[0], struct.unpack(">Q", x[8:16])[0]
                    else: nm, va = struct.unpack(">II", x[:8])
                    q = st[4] + nm; self.sym[b[q:b.index(b"\0", q)].decode()] = va
            elif s[1] == 1 and s[2] & 4: text = s       # executable
        d.emu_code(self.e, text[3], text[5]); self.text = (text[3], text[5])
    def put(self, a, b): C.memmove(self.mem + a, b, len(b))
    def get(self, a, n): return C.string_at(self.mem + a, n)
    def where(self, pc): return max(((v, k) for k, v in self.sym.items() if v <= pc and k), default=(0, "?"))[1]
    def run(self, call, limit=40 * 10 ** 9):
        """a vf.calls.Call: what the caller observes, in the form of Call.result"""
        a = []; p = ARENA; at = []
        for x in call.args:
            n = len(x[1]) if x[0] == "in" else x[1] if x[0] == "out" else 8
            if x[0] == "val": a.append(x[1]); at.append(None); continue
            p = (p + 7) // 8 * 8 + (len(a) % 2 if x[0] != "len" else 0)        # odd addresses too
            self.put(p, x[1] if x[0] == "in" else b"\xa5" * n if x[0] == "out" else b"\x11" * 8); a.append(p); at.append(p); p += n + 64
            if p > STACK - (12 << 20): raise RuntimeError("arguments too large")
        self.put(ARGS, b"".join(struct.pack(">Q", v & (2 ** 64 - 1)) for v in a)); s = call.stream or b"\0"; s = (s * (1024 // len(s) + 1))[:1024]
        self.put(self.sym["vf_stream"], s); self.put(self.sym["vf_pos"], bytes(4)); self.put(self.sym["vf_fail"], struct.pack(">I", int(any(v < 0 for v in call.script))))
        res = C.c_uint64(); rc = self.d.emu_run(self.e, self.sym["vf_dispatch"], STACK - 256, 0, self.img["idx"][call.f], ARGS, limit, C.byref(res))
        if rc == 1: raise RuntimeError("emulator: unknown instruction %08x in %s" % (self.d.emu_raw(self.e) & 0xffffffff, self.where(self.d.emu_pc(self.e))))
        if rc: return ("crash", "%s at %#x in %s" % ({2: "bad address", 3: "misaligned access", 4: "trap", 5: "no end"}[rc], self.d.emu_fault(self.e), self.where(self.d.emu_pc(self.e))))
        ret = res.value & 0xffffffff; n = None; out = []
        for x, q in zip(call.args, at):
            if x[0] == "len": n = struct.unpack(">Q", self.get(q, 8))[0]
        for i, (x, q) in enumerate(zip(call.args, at)):
            if x[0] == "in" and self.get(q, len(x[1])) != x[1]: return ("input modified", i)
            if x[0] == "out" and ret == 0: out.append(self.get(q, x[1] if n is None else min(n, x[1])))
        return (ret == 0, n if ret == 0 else None, out)
    def count(self): return self.d.emu_count(self.e)
    def close(self): self.d.emu_free(self.e); self.e = None
