"""Builds the code under test from /repo's working tree into a scratch directory."""
import os, re, subprocess, sys, glob, concurrent.futures as cf
REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")

class BuildError(Exception):
    pass

def sources():
    """The library's C sources, as CMakeLists.txt names them (falls back to the directories)."""
    out = []
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"set\s*\(\s*SOURCE_FILES\s+([^)]*)\)", t)
        if m:
            out = [x.strip('"') for x in m.group(1).split()]
            out = [x for x in out if x.endswith(".c")]
    except OSError:
        pass
    if not out or not all(os.path.exists(os.path.join(REPO, x)) for x in out):
        out = []
        for d in ("common", "dilithium2", "sphincs", "tweetnacl", "random", "hybrid-dilithium-sphincs"):
            out += [os.path.relpath(p, REPO) for p in sorted(glob.glob(os.path.join(REPO, d, "*.c"))) if not p.endswith("_test.c")]
    return out

WRAPS = ["getrandom", "getentropy", "syscall", "malloc", "calloc", "realloc", "free"]
BASE = ["-std=gnu11", "-fPIC", "-fstack-protector", "-fstack-protector-all", "-w", "-U_FORTIFY_SOURCE", "-DNDEBUG"]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout

def build(outdir, name="lib", cc="gcc", opt="-O3", flags=(), extra=(), harness=("shim.c", "api.c"), wraps=True, repo_flags=(), link=()):
    """Compiles everything and links <outdir>/<name>.so; returns its path."""
    d = os.path.join(outdir, name + ".o.d"); os.makedirs(d, exist_ok=True)
    jobs = []
    for s in sources():
        jobs.append((os.path.join(REPO, s), os.path.join(d, s.replace("/", "_") + ".o"), list(repo_flags)))
    for s in harness:
        p = s if os.path.isabs(s) else os.path.join(HARNESS, s)
        jobs.append((p, os.path.join(d, "vf_" + os.path.basename(s) + ".o"), []))
    for s, fl in extra:
        jobs.append((s, os.path.join(d, "x_" + os.path.basename(s) + ".o"), list(fl)))
    def one(j):
        run([cc, *BASE, opt, *flags, *j[2], "-I" + REPO, "-c", j[0], "-o", j[1]])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    so = os.path.join(outdir, name + ".so")
    w = ["-Wl," + ",".join("--wrap=" + x for x in WRAPS)] if wraps else []
    run([cc, "-shared", *flags, *[j[1] for j in jobs], *w, "-Wl,-Bsymbolic", *link, "-lpthread", "-o", so])
    return so

def build_exe(outdir, name, cc="gcc", opt="-O1", flags=(), harness=("api.c",), extra=(), link=(), repo_flags=()):
    """Compiles everything and links an executable; returns its path."""
    d = os.path.join(outdir, name + ".o.d"); os.makedirs(d, exist_ok=True)
    jobs = [(os.path.join(REPO, s), os.path.join(d, s.replace("/", "_") + ".o"), list(repo_flags)) for s in sources()]
    jobs += [(s if os.path.isabs(s) else os.path.join(HARNESS, s), os.path.join(d, "vf_" + os.path.basename(s) + ".o"), []) for s in harness]
    jobs += [(s, os.path.join(d, "x_" + os.path.basename(s) + ".o"), list(fl)) for s, fl in extra]
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: run([cc, "-std=gnu11", "-w", "-DNDEBUG", opt, *flags, *j[2], "-I" + REPO, "-c", j[0], "-o", j[1]]), jobs))
    exe = os.path.join(outdir, name + ".exe"); run([cc, *flags, *[j[1] for j in jobs], *link, "-lpthread", "-o", exe]); return exe
