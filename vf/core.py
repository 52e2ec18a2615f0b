"""Check framework: scratch space, parallel drivers, verdicts, evidence."""
import os, sys, json, time, tempfile, shutil, random, traceback, hashlib, multiprocessing as mp, concurrent.futures as cf
from concurrent.futures.process import BrokenProcessPool
from . import build as B, tlc as T
from .lib import Lib, Crash

class Violation(Exception):
    def __init__(self, what, case=None):
        super().__init__(what); self.what = what; self.case = case or {}
    def __reduce__(self):
        return (Violation, (self.what, self.case))

def hx(b): return bytes(b).hex()

_LIB = {}
def lib(so):
    """per-process handle"""
    k = (os.getpid(), so)
    if k not in _LIB: _LIB[k] = Lib(so)
    return _LIB[k]

def _guard(a):
    f, so, item = a
    try:
        return ("ok", f(lib(so), item) if so else f(item))
    except Violation as v:
        return ("violation", v.what, v.case)
    except Crash as c:
        return ("violation", "call crashed or hung: " + str(c), {"item": repr(item)[:4000]})
    except Exception:
        return ("error", traceback.format_exc())

class Check:
    def __init__(self, pid, level):
        self.pid = pid; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick"); self.tier = self.tier if self.tier in ("quick", "thorough") else "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rnd = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time(); self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []; self.viol = []; self.known = []
        base = os.environ.get("VF_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else None)
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=base)
        self.parts = {}
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, q, t): return t if self.thorough else q
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)
    # ---- randomness
    def bytes(self, n, rnd=None): return (rnd or self.rnd).randbytes(n)
    # ---- build
    def lib(self, name="lib", **kw):
        so = B.build(self.scratch, name, **kw); return so
    # ---- counting
    def count(self, key, n=1): self.parts[key] = self.parts.get(key, 0) + n
    def sample(self, s):
        if len(self.cov["samples"]) < 12: self.cov["samples"].append(s)
    def model(self, r):
        self.cov["states"] += r.distinct; self.cov["transitions"] += r.generated
    def traces(self, n): self.cov["traces_validated_against_impl"] += n
    # ---- verdicts
    def violation(self, what, case=None):
        self.viol.append((what, case or {}))
        self.log("violated:", what[:300])
    def known_finding(self, what, ident, case=None):
        """a recorded defect: reported as such only if known-findings.txt lists it"""
        tag = "known: property=%s id=%s " % (self.pid, ident)
        if not any(l.startswith(tag) for l in open(os.path.join(B.VERIF, "known-findings.txt"))): return self.violation(what, case)
        self.known.append(what); print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)
    # ---- parallel driver
    def pmap(self, f, items, so=None, chunk=1, workers=8, stop=True):
        """f(lib, item) over all items in worker processes; violations are recorded, the other results returned"""
        items = list(items); res = [None] * len(items)
        if not items: return res
        ctx = mp.get_context("fork"); nv = 0
        try:
            with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
                for i, r in enumerate(ex.map(_guard, [(f, so, it) for it in items], chunksize=chunk)):
                    if r[0] == "ok": res[i] = r[1]
                    elif r[0] == "violation":
                        if nv < 5: self.violation(r[1], dict(r[2], driver=f.__name__))
                        nv += 1
                        if stop and nv >= 5: ex.shutdown(cancel_futures=True, wait=False); break
                    else: raise RuntimeError(r[1])
        except BrokenProcessPool:
            self.log("a worker process died; locating the case")
            bad = self._isolate(f, items, so)
            if bad is None: raise RuntimeError("worker died but no case reproduces it")
            self.violation("a call of the code under test killed the process", {"driver": f.__name__, "item": repr(bad)[:4000]})
        return res
    def _isolate(self, f, items, so):
        """runs the items in subprocesses until one reproducibly kills its process"""
        ctx = mp.get_context("fork"); t = time.time()
        def dies(part):
            p = ctx.Process(target=lambda: [_guard((f, so, it)) for it in part]); p.start(); p.join(300)
            if p.is_alive(): p.kill(); p.join(); return True
            return p.exitcode != 0
        n = max(1, len(items) // 16)
        for k in range(0, len(items), n):
            part = items[k:k + n]
            if dies(part):
                while len(part) > 1 and time.time() - t < 200:
                    h = len(part) // 2
                    part = part[:h] if dies(part[:h]) else part[h:]
                return part[0] if len(part) == 1 else part
            if time.time() - t > 400: break
        return None
    # ---- trace validation against spec/machines/Conform.tla
    def conform(self, events, what="calls", workers=8, heap="8g", describe=None):
        """validates recorded call events; records a violation for each rejected one"""
        if not events: return
        bad = self._conform(events, workers, heap)
        if bad:
            again = self._conform([events[i] for i in bad[:20]], workers, heap)
            if not again: raise T.TlcError("rejection not repeated")
            for j in again[:3]:
                e = events[bad[j]]
                self.violation("recorded call '%s' is not a behaviour of the specification" % e["op"], {"event": e})
        self.traces(len(events)); self.count("events:" + what, len(events))
        ops = {}
        for e in events: ops.setdefault(e["op"], e)
        for e in list(ops.values())[:4]:
            self.sample({k: (v if not isinstance(v, str) or len(v) <= 80 else v[:64] + "...(%d hex digits)" % len(v)) for k, v in e.items()})
    def _conform(self, events, workers, heap):
        p = tempfile.mktemp(dir=self.scratch, suffix=".ndjson")
        order = sorted(range(len(events)), key=lambda i: -COST.get(events[i]["op"], 1))
        with open(p, "w") as f:
            for i in order: f.write(json.dumps(events[i]) + "\n")
        r = T.run(self.scratch, "machines/Conform.tla", "SPECIFICATION Spec\nPOSTCONDITION AllSeen\nCHECK_DEADLOCK FALSE\n",
                  env={"VF_TRACE": p}, workers=workers, heap=heap)
        if not r.ok: raise T.TlcError("Conform: exit %d\n%s" % (r.code, r.out[-3000:]))
        self.model(r); os.unlink(p)
        return [order[int(l.split(",")[1]) - 1] for l in r.lines("BAD")]
    # ---- near-miss signatures generated by spec/machines/Forge.tla
    def forge(self, jobs, workers=8, heap="6g"):
        """jobs: dicts op (dtweak, etweak), m, sk, pk, tw (bytes); returns the signatures"""
        p = tempfile.mktemp(dir=self.scratch, suffix=".ndjson")
        with open(p, "w") as f:
            for j in jobs: f.write(json.dumps({k: v if isinstance(v, (str, list)) else hx(v) for k, v in j.items()}) + "\n")
        r = T.run(self.scratch, "machines/Forge.tla", "SPECIFICATION Spec\nINVARIANT OnlyNear\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=workers, heap=heap)
        if not r.ok: raise T.TlcError("Forge: exit %d\n%s" % (r.code, r.out[-3000:]))
        self.model(r); os.unlink(p); out = [None] * len(jobs)
        for l in r.out.splitlines():
            if l.startswith('"OUT '): a = l.strip('"').split(); out[int(a[1]) - 1] = bytes.fromhex(a[2])
        if None in out: raise T.TlcError("Forge: missing results")
        self.traces(len(out)); return out
    # ---- end of the run
    def finish(self):
        cov = dict(self.cov); cov.update(self.parts)
        os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(B.VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.viol:
            d = os.path.join(B.VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
            for i, (w, c) in enumerate(self.viol[:10]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f: json.dump({"property": self.pid, "what": w, "case": c, "seed": self.seed, "tier": self.tier}, f, indent=1, default=str)
                print("  ", w[:500]); print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, B.VERIF)), flush=True)
            return 1
        self.log("held on everything explored", {k: v for k, v in cov.items() if isinstance(v, int)})
        return 0

# rough relative cost of explaining one event, so that the long ones start first
COST = {"fsign": 1000, "ssign": 1000, "skey": 60, "hkey": 70, "fsignv": 60, "sverify": 40, "ssignv": 41, "fopen": 60, "fverify": 60}
