"""Deterministic scheduling of concurrent calls: a thread stops before every OS random draw and continues when the schedule says so."""
import threading, ctypes as C
HOOK = C.CFUNCTYPE(None)

class Job(threading.Thread):
    def __init__(self, sched, tid, calls):
        super().__init__(daemon=True); self.sched, self.tid, self.calls = sched, tid, calls
        self.go = threading.Semaphore(0); self.stop = threading.Semaphore(0); self.done = False; self.err = None; self.results = []; self.free = False
    def pause(self):
        if self.free: return
        self.stop.release(); self.go.acquire()
    def run(self):
        L = self.sched.L; self.cb = HOOK(self.pause)
        self.go.acquire()
        try:
            for f in self.calls:
                self.results.append(f(L, self))
        except BaseException as x:
            self.err = x
        finally:
            self.done = True; self.stop.release()
    def hook(self):
        """arms the hook of this thread (after vf_rng, which clears it)"""
        self.sched.L.dll.vf_rng_hook.argtypes = [C.c_void_p]; self.sched.L.dll.vf_rng_hook(C.cast(self.cb, C.c_void_p))

class Sched:
    """calls: {thread: [f(L, job), ...]}; order: thread ids, one entry per step (start or draw)"""
    def __init__(self, L, calls):
        self.L = L; self.jobs = {t: Job(self, t, fs) for t, fs in calls.items()}
        self.old = L.timeout_ms; L.timeout_ms = 0
    def run(self, order, timeout=60):
        for j in self.jobs.values(): j.start()
        try:
            for t in order:
                j = self.jobs[t]
                if j.done: continue
                j.go.release()
                if not j.stop.acquire(timeout=timeout): raise TimeoutError("thread %r did not reach its next step" % t)
            for j in self.jobs.values():
                j.free = True
                while not j.done:
                    j.go.release()
                    if not j.stop.acquire(timeout=timeout): raise TimeoutError("thread %r did not finish" % j.tid)
                j.join(timeout)
        finally: self.L.timeout_ms = self.old
        for j in self.jobs.values():
            if j.err: raise j.err
        return {t: j.results for t, j in self.jobs.items()}
