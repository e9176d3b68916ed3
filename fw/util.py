"""Scratch trees, TLC runs, verdicts, evidence: what every check shares (standard library only)."""
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not give an answer (neither held nor violated)."""


_scratch = []


def scratch(prefix="verif-"):
    base = os.environ.get("VERIF_SCRATCH", "/tmp")
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    _scratch.append((os.getpid(), d))
    return d


@atexit.register
def _cleanup():
    if os.environ.get("VERIF_KEEP"):
        return
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


def _term(signum, frame):
    sys.exit(3)


signal.signal(signal.SIGTERM, _term)


def base_env(home):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "VERIF_SEED", "VERIF_TIER")}
    env.update(HOME=home, LANG=env.get("LANG", "C.UTF-8"), TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", FC="gfortran", CC="gcc")
    return env


def run(cmd, cwd=None, env=None, timeout=600, check=True, what=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        raise CheckError("%s: no end after %d s\n%s" % (what or cmd[0], timeout, out.decode("utf-8", "replace")[-3000:]))
    out = out.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise CheckError("%s: exit %s\n%s" % (what or " ".join(cmd), p.returncode, out[-6000:]))
    return p.returncode, out


# ---------------------------------------------------------------------------------------------------------------------
# Builds of /repo's current working tree

def python_tree(work, ext=True):
    """Mirror /repo's Python code to Python 3 in a scratch directory and build its compiled extensions."""
    tree = os.path.join(work, "tree")
    os.makedirs(tree)
    env = base_env(work)
    run([PY, "-W", "ignore", "/opt/vp/py2tree.py", REPO, tree, "harmonisation_eiv", "tools"], env=env, what="py2tree")
    if ext:
        run([PY, "/opt/vp/setup_ext.py"], cwd=os.path.join(tree, "harmonisation_eiv"), env=env, what="setup_ext")
    return tree


def fortran_tree(work, programs=()):
    """Build the Fortran software of /repo's working tree, and link the drivers' programs with its modules."""
    tree, build = os.path.join(work, "tree"), os.path.join(work, "build")
    os.makedirs(tree, exist_ok=True)
    env = base_env(work)
    run([PY, "-W", "ignore", "/opt/vp/py2tree.py", REPO, tree, "harmonisation_meiv_demo"], env=env, what="py2tree")
    run(["cmake", "-S", os.path.join(tree, "harmonisation_meiv_demo"), "-B", build, "-DNETCDF_Fortran_MODULE=/usr/include/netcdf.mod"],
        env=env, what="cmake")
    run(["cmake", "--build", build, "-j", "8"], env=env, what="build of the Fortran software")
    objects = []
    for d, _, names in os.walk(build):
        for n in names:
            if n.endswith(".o"):
                path = os.path.join(d, n)
                if " T main\n" not in run(["nm", path], env=env)[1]:
                    objects.append(path)
    libs = run(["nf-config", "--flibs"], env=env, check=False)[1].split() if shutil.which("nf-config") else ["-lnetcdff", "-lnetcdf"]
    for p in programs:
        src = os.path.join(DRIVERS, "fortran", p + ".F90")
        run(["gfortran", "-O0", "-ffree-line-length-none", "-I", build, "-I", "/usr/include", "-J", work, "-o", os.path.join(build, p), src] + sorted(objects) + libs,
            env=env, what="link of " + p)
    return build


# ---------------------------------------------------------------------------------------------------------------------
# TLC

def spec_dir(work):
    d = os.path.join(work, "spec")
    if not os.path.isdir(d):
        shutil.copytree(SPEC, d)
    return d


_n = [0]


def tlc(work, module, cfg, env=None, workers=1, timeout=800, heap="3g", extra=()):
    """Run TLC on spec/<module>.tla with the configuration text cfg. Returns a dict."""
    d = spec_dir(work)
    _n[0] += 1
    tag = "%s_%d" % (module, _n[0])
    with open(os.path.join(d, tag + ".cfg"), "w") as f:
        f.write(cfg)
    e = base_env(work)
    e.update(env or {})
    tmp = os.path.join(work, "jtmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC", "-config", tag + ".cfg", "-metadir",
           os.path.join(work, "meta_" + tag), "-workers", str(workers), "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    t = time.time()
    rc, out = run(cmd, cwd=d, env=e, timeout=timeout, check=False, what="tlc " + module)
    shutil.rmtree(os.path.join(work, "meta_" + tag), ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"rc": rc, "out": out, "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0,
           "wall": time.time() - t, "emit": []}
    for line in out.splitlines():
        if line.startswith('"@@'):
            res["emit"].append(json.loads(json.loads(line)[2:]))
    return res


def model_check(work, module, cfg, **kw):
    """Exhaustive (or simulated) run on the specification itself; it must find no error."""
    r = tlc(work, module, cfg, **kw)
    if r["rc"] != 0:
        i = r["out"].find("Error:")
        raise CheckError("the specification %s does not check:\n%s" % (module, r["out"][max(0, i - 200):i + 6000]))
    return r


def validate(work, module, records, prop, timeout=800, chunk=400, consts="", workers=8):
    """Check recorded events against the trace specification. Every record is one JSON object with a field "ev".

    A record {"ev": "begin"} starts a new behaviour; records are cut into chunks at these. Returns (failures, states)
    where a failure is (index of record, clause, detail)."""
    starts = [i for i, r in enumerate(records) if r["ev"] == "begin"]
    if not starts or starts[0] != 0:
        raise CheckError("trace does not start with a begin record")
    chunks, cur = [], 0
    for s in starts[1:] + [len(records)]:
        if s - cur >= chunk or s == len(records):
            chunks.append((cur, s))
            cur = s
    from concurrent.futures import ThreadPoolExecutor
    spec_dir(work)

    def one(job):
        k, (a, b) = job
        path = os.path.join(work, "trace_%s_%d_%d.ndjson" % (module, k, os.getpid()))
        with open(path, "w") as f:
            for r in records[a:b]:
                f.write(json.dumps(r) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + consts
        r = tlc(work, module, cfg, env={"TRACE": path, "PROP": prop}, timeout=timeout)
        fails = []
        done = False
        for x in r["emit"]:
            if "done" in x:
                done = x["done"] == b - a and r["rc"] == 0
            else:
                fails.append((a + x["l"] - 1, x["clause"]))
        if not done:
            if "Parsing or semantic analysis failed" in r["out"] or "is not enough memory" in r["out"]:
                raise CheckError(r["out"][-4000:])
            if r["rc"] == 0 or "TLC threw an unexpected exception" in r["out"] or "Error:" in r["out"]:
                # the trace left the universe of the specification: no action explains the record
                i = r["out"].find("Error:")
                msg = r["out"][max(0, i):i + 3000]
                ls = re.findall(r"^/\\ l = (\d+)", r["out"], re.M)
                at = a + (int(ls[-1]) if ls else 1) - 1
                if at >= b:
                    at = b - 1
                fails.append((at, prop + ".unexplained: " + msg))
            else:
                raise CheckError("TLC gave no verdict on a trace\n" + r["out"][-3000:])
        return fails, r["generated"]

    res, states = [], 0
    jobs = list(enumerate(chunks))
    with ThreadPoolExecutor(max_workers=min(workers, len(jobs))) as ex:
        for fails, gen in ex.map(one, jobs):
            res += fails
            states += gen
    return sorted(set(res)), states


# ---------------------------------------------------------------------------------------------------------------------
# Findings, evidence

def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("known", [])
