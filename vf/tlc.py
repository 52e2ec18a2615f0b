"""Runs TLC on the specification, with the committed Java overrides compiled on demand."""
import os, re, subprocess, glob, hashlib, tempfile, json, shutil, threading
from .build import VERIF
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
if not os.path.exists(DEPS):
    c = glob.glob("/opt/veriftools/tla/*ommunity*.jar"); DEPS = c[0] if c else ""
SPEC = os.path.join(VERIF, "spec")

class TlcError(Exception):
    """The model checker itself failed: an error of the machinery, never a verdict on the code."""

_LOCK = threading.Lock()
def classes(scratch):
    with _LOCK: return _classes(scratch)
def _classes(scratch):
    d = os.path.join(scratch, "classes")
    if not os.path.isdir(d):
        os.makedirs(d)
        src = sorted(glob.glob(os.path.join(SPEC, "java", "vf", "*.java")))
        p = subprocess.run(["javac", "-cp", JAR, "-d", d, *src], capture_output=True, text=True)
        if p.returncode:
            raise TlcError("javac: " + p.stderr[-2000:])
    return d

class Result:
    def __init__(s, code, out):
        s.code, s.out = code, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        s.generated, s.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        s.depth = int(m[-1]) if m else 0
        s.ok = code == 0 and ("No error has been found" in out or "Progress" in out or "simulation" in out.lower())
    def lines(s, tag):
        """values printed with PrintT(<<tag, ...>>) as raw strings (may span several lines)"""
        pre = '<<"%s"' % tag; out = []; cur = None
        for l in s.out.splitlines():
            if cur is None:
                if l.startswith(pre): cur = l
                else: continue
            else:
                cur += " " + l.strip()
            if cur.count("<<") == cur.count(">>"):
                out.append(cur); cur = None
        return out

def run(scratch, module, cfg, env=None, workers=8, args=(), heap="6g", timeout=850, dirs=("machines",), stack="64m"):
    """module: path of a .tla file (in /verif/spec); cfg: text of the configuration."""
    cd = classes(scratch)
    wd = tempfile.mkdtemp(dir=scratch, prefix="tlc.")
    cf = os.path.join(wd, "M.cfg"); open(cf, "w").write(cfg)
    libs = ":".join([os.path.join(SPEC, "lib")] + [os.path.join(SPEC, d) for d in dirs])
    cmd = ["java", "-Djava.io.tmpdir=" + wd, "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.Overrides", "-DTLA-Library=" + libs,
           "-cp", ":".join([cd, JAR, DEPS]), "tlc2.TLC", "-config", cf, "-metadir", os.path.join(wd, "states"),
           "-workers", str(workers), "-noGenerateSpecTE", *args, os.path.join(SPEC, module)]
    e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=wd, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timed out: " + module + "\n" + (x.stdout.decode() if isinstance(x.stdout, bytes) else x.stdout or "")[-2000:])
    r = Result(p.returncode, p.stdout)
    shutil.rmtree(wd, ignore_errors=True)
    return r

def check(scratch, module, cfg, **kw):
    """Model checking that has to succeed; anything else is an error of the machinery."""
    r = run(scratch, module, cfg, **kw)
    if not r.ok:
        raise TlcError("TLC on %s failed (exit %d):\n%s" % (module, r.code, r.out[-3000:]))
    return r
