"""Runs the modules of the Fortran software, as built, by commands (see probe.F90)."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
BUILD = "/opt/harmonisation-build/meiv-build"
HERE = os.path.dirname(os.path.abspath(__file__))


def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    atexit.register(shutil.rmtree, d, True)
    return d


def probe(d, commands, files=()):
    """Compile the probe, write the files, run the commands in d: (exit code, [(key, value)])"""
    objects = []
    for x, _, names in os.walk(BUILD):
        for n in names:
            if n.endswith(".o"):
                p = os.path.join(x, n)
                if b" T main\n" not in subprocess.run(["nm", p], stdout=subprocess.PIPE).stdout:
                    objects.append(p)
    exe = os.path.join(d, "probe")
    libs = subprocess.run(["nf-config", "--flibs"], stdout=subprocess.PIPE, universal_newlines=True).stdout.split()
    subprocess.run(["gfortran", "-O0", "-ffree-line-length-none", "-I", BUILD, "-I", "/usr/include", "-J", d, "-o", exe, os.path.join(HERE, "probe.F90")]
                   + sorted(objects) + libs, check=True)
    for name, content in files:
        with open(os.path.join(d, name), "w") as f:
            f.write(content)
    with open(os.path.join(d, "probe.in"), "w") as f:
        f.write("\n".join(commands) + "\n")
    p = subprocess.run([exe], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    out = []
    for x in p.stdout.splitlines():
        if x.startswith("@@"):
            w = x.split(" ", 2)
            rest = w[2] if len(w) > 2 else ""
            out.append((w[1], [int(y) for y in rest.split()] if w[0] == "@@I" else [float(y) for y in rest.split()] if w[0] == "@@R" else rest))
    return p.returncode, out


def get(out, key):
    return [v for k, v in out if k == key]


def job(sensors, pairs, extra=""):
    """The run and job configuration; pairs are (i, j, step), of files f0.nc, f1.nc, .."""
    t = "$job\n config_job_id='T'\n config_job_sensor_count=%d\n config_job_matchup_count=%d\n config_job_matchup_dataset_path='./'\n" % (len(sensors), len(pairs))
    for k in range(len(sensors)):
        t += " config_job_sensor_names(%d)='S%d'\n" % (k + 1, k + 1)
    for k, (i, j, s) in enumerate(pairs):
        t += " config_job_matchup(%d,:)=%d,%d\n config_job_matchup_datasets(%d)='f%d.nc'\n config_job_matchup_names(%d)='n%d'\n config_job_matchup_samplings(%d)=%d\n" % (
            k + 1, i, j, k + 1, k, k + 1, k, k + 1, s)
    return [("j.nml", t + extra + "/\n"), ("run.nml", "$run\n config_job='j.nml'\n/\n")]


def reading(sensors, n):
    """Commands: sensors with these numbers of columns, read n files, dump."""
    c = ["config", "init", "-1 -1 -1"]
    for k, r in enumerate(sensors):
        c += ["sensor", "'S%d'" % (k + 1), "101 3 %d 0 0 0" % r, "0 0 0", "0 0 0"]
    for k in range(n):
        c += ["read", str(k + 1)]
    return c + ["dump"]
