"""C26 randomness of the WebAssembly build in browsers, workers and Node: random/randombytes.c for Emscripten, executed on wasm32."""
import os, json
from .. import drv as D, tlc as T, build as B, wasm as W
LEVEL = "model_checking"
MACH = "machines/WebRandom.tla"
CFG = 'SPECIFICATION Spec\nCONSTANTS MaxN=%d Quota=2 Variant="%s"\nINVARIANTS FullDelivery NoEscape FailsOnlyWithCause%s\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'
Q = 65536
# window: 1 without, 2 with a generator; require: 1 without, 2 with the module
ENVS = {"browser": dict(window=2), "bundled page": dict(window=2, require=2), "page, no module": dict(window=2, require=1), "old browser": dict(window=1), "old browser with module": dict(window=1, require=2), "node": dict(require=2), "node without crypto": dict(require=1), "worker": dict(worker=1), "nothing": {}}
def page(e): return e.get("window") == 2
def host(e): return e.get("require") == 2

def check(c):
    m = T.check(c.scratch, MACH, CFG % (c.pick(6, 8), "spec", " Emit"), workers=1, heap="1g"); c.model(m)
    for v in ("once", "nocatch", "deaf", "first", "weak"):
        if "is violated" not in T.run(c.scratch, MACH, CFG % (6, v, ""), workers=2, heap="1g").out: raise T.TlcError("the wrong design %s is not rejected" % v)
    mod = W.build(c.scratch, only=["random/randombytes.c"]); beh = sorted({tuple(l.strip('"').split()[1:]) for l in m.out.splitlines() if l.startswith('"RUN ')}); r = D.rng("c26", c.seed); cases = {}
    def add(env, n, fail): cases[(env, n, tuple(fail))] = 1
    for b in beh:
        k = int(b[0]); h = b[3] if len(b) > 3 else ""; fail = [i for i, ch in enumerate(h) if ch.isupper()]
        for name, e in ENVS.items():
            if (page(e), host(e)) != (b[1][0] == "1", b[1][1] == "1"): continue
            for s in ((0,) if k % 2 == 0 else (1, 7, 40, 160, 4096, 65535, r.randrange(1, Q))): add(name, (k // 2) * Q + s, fail)
    for name in ENVS:        # sizes around every boundary, and failures the code may or may not reach
        for n in [0, 1, 2, 3, 8, 31, 32, 40, 96, 160, 255, 256, 257, 1000, Q - 1, Q, Q + 1, 2 * Q - 1, 2 * Q, 2 * Q + 1, 3 * Q + 17] + [r.randrange(1, 5 * Q) for _ in range(c.pick(6, 60))]:
            add(name, n, []); add(name, n, [0]); add(name, n, [1]); add(name, n, [0, 1])
            for _ in range(c.pick(0, 4)): add(name, n, sorted(r.sample(range(8), r.randrange(1, 5))))
    cs = sorted(cases); r.shuffle(cs); out = W.run(c.scratch, mod, [dict(web=dict(env=ENVS[e], n=n, fail=list(f))) for e, n, f in cs]); p = os.path.join(c.scratch, "web.ndjson")
    with open(p, "w") as f:
        for (e, n, _), o in zip(cs, out): f.write(json.dumps(dict(page=page(ENVS[e]), host=host(ENVS[e]), worker="worker" in ENVS[e], n=n, rc=o["rc"], escape=o["err"] is not None, guard=o["guard"], weak=o["weak"], calls=o["calls"], pieces=o["pieces"])) + "\n")
    t = T.run(c.scratch, "machines/WebRandomTrace.tla", "SPECIFICATION Spec\nINVARIANT Reached\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, workers=1, heap="4g")
    if not t.ok or not t.lines("END"): raise T.TlcError("WebRandomTrace: exit %d\n%s" % (t.code, t.out[-3000:]))
    c.model(t); c.traces(len(cs)); c.count("calls", len(cs)); c.count("failures", sum(o["rc"] != 0 for o in out)); c.count("beyond_quota", sum(n > Q for e, n, f in cs))
    for l in t.lines("BAD")[:5]:
        i = int(l.strip("<>").split(",")[1]) - 1; (e, n, f), o = cs[i], out[i]
        what = "does not return: " + o["err"] if o["err"] else "writes outside the buffer" if not o["guard"] else "returns 0 although not every byte came from a generator" if o["rc"] == 0 else "fails although the generator works"
        c.violation("randomness on wasm32 (%s) for %d bytes %s" % (e, n, what), {"environment": e, "n": n, "failing_requests": f, "result": {k: str(v)[:400] for k, v in o.items()}})
    for x in list(zip(cs, out))[:3]: c.sample({"case": x[0], "result": {k: str(v)[:200] for k, v in x[1].items()}})
    if not any(o["rc"] == 0 and n > Q and page(ENVS[e]) for (e, n, f), o in zip(cs, out)) and not c.viol: raise RuntimeError("no large request succeeded")
    c.assumptions.append("browsers' getRandomValues and Node's crypto module behave as the stand-ins of harness/wasm/driver.js (65536-byte quota, exceptions on failure); Emscripten hands inline JavaScript over as the text of the macro argument")
