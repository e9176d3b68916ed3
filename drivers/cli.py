"""Commands of the solver: real command lines, a recording stand-in for the solver (or the real one on small data)."""
import contextlib
import importlib
import inspect
import json
import os
import random
import shutil
import signal
import sys

from common import *
import result

import numpy as np
from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
import harmonisation.version as version

# random.sample as Python 2, the language of the code, has it: any indexable population
_sample = random.sample
random.sample = lambda population, k, **kw: _sample(list(population), k, **kw)

EIV = importlib.import_module("harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.HarmonisationEIV")
NOTHING = "<none>"
SPELL = {"j": ("-j", "--job_file"), "i": ("-i", "--input_directory"), "s": ("-s", "--sensor"), "o": ("-o", "--output_directory"), "pc": ("--pc_input",),
         "spc": ("--save_pc",), "gn": ("--gn_input",), "sgn": ("--save_gn",), "mode": ("--mode",), "log": ("--log",), "nocov": ("--no_covariance",),
         "verbose": ("--verbose",), "quiet": ("--quiet",), "list": ("--list_sensors",), "version": ("--version",), "odd": ("--frobnicate", "stray", "-q")}
VALUED = ("j", "i", "s", "o", "pc", "spc", "gn", "sgn", "mode", "log")
CLASSES = ["AVHRR_11um_3", "AVHRR_37um_2", "AVHRR_11um_4", "AVHRR_sim_3", "HIRS__Ch05_3"]
SENSORS = ["n19", "n16", "n15", "n18"]


def number(x):
    return repr(float(np.float32(x)))


def spelled(rng, argv):
    out = []
    for t in argv:
        word = rng.choice(SPELL[t["o"]])
        if t["o"] not in VALUED:
            out.append(word)
        elif word.startswith("--") and rng.random() < .4:
            out.append(word + "=" + t["v"])
        else:
            out += [word, t["v"]]
    return out


def child(fn, report, stdout):
    """fn in a process of its own; what it returned, or how it ended."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.alarm(300)
            random.seed(SEED)
            np.random.seed(SEED)
            f = os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(f, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(f, 2) if False else os.dup2(os.open(stdout + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 2)
            try:
                v = fn()
                code = 0 if v is None else int(v)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
                code = 1
            with open(report, "w") as g:
                json.dump(CALLS, g)
            sys.stdout.flush()
        finally:
            os._exit(code & 255)
    _, st = os.waitpid(pid, 0)
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128 + os.WTERMSIG(st)


CALLS = []


def text_of(x):
    return NOTHING if x is None else str(x)


def stand_in(R):
    real = inspect.signature(EIV.HarmonisationEIV.run)

    def run(*a, **k):
        b = real.bind(*a, **k)
        b.apply_defaults()
        g = b.arguments
        h = g["HData"]
        sens = [str(s) for s in h.idx["sensors"]]
        CALLS.append({"sensors": sens, "M": int(h.idx["cNm"][-1]), "files": len(h.idx["Nm"]),
                      "a": [[str(s), number(x)] for s, x in zip(h.idx["parameter_sensor"], h.a)],
                      "pc": text_of(g["pc_input"]), "spc": text_of(g["save_pc"]), "gn": text_of(g["gn_input"]), "sgn": text_of(g["save_gn"]),
                      "show": int(g["show"]), "cov": bool(g["return_covariance"]), "result": encs(np.array(R["par"], dtype=float) / SC, SC), "extra": sorted(R["extra"])})
        return result.build(R)
    return run


def standard(R):
    EIV.HarmonisationEIV.run = stand_in(R)


def solver_main(words, R):
    def go():
        if R is not None:
            standard(R)
        sys.argv = ["full_eiv_solver"] + words
        return importlib.import_module("harmonisation.tools.full_eiv_solver").main()
    return go


def plot_main(words):
    """The reading of a line by the tools that show results."""
    def go():
        sys.argv = ["harm_plot"] + words
        m = importlib.import_module("harmonisation.tools.common")
        d, sd, o, show = m.read_parsed_cmdline(m.parse_cmdline(description="x", solver_options=False), solver_options=False)
        f = SensorDataFactory()
        same = [n for n in CLASSES if key(f.get_sensor_data(n)) == key(sd)]
        CALLS.append({"dir": d, "out": o, "sensor": same[0] if same else "?", "show": int(show)})
    return go


def key(sd):
    return [(str(s), [number(x) for x in d["sensor_model_parameter"]], repr(d["sensor_model_constant"])) for s, d in sd.items()]


def dataset(rng, path, nf):
    os.makedirs(path)
    names = rng.sample(SENSORS, rng.randint(2, 3))
    ms = {s: rng.randint(1, 3) for s in names}
    F = []
    for k in range(nf):
        pair = rng.sample(names, 2)
        f = random_file(rng, pair, rng.randint(1, 5), [ms[s] for s in pair], types=(1,), add_names=())
        write_file(os.path.join(path, "%d.nc" % k), f)
        F.append(f)
    order = []
    for f in F:
        order += [s for s in f["s"] if s not in order]
    return {"path": path, "M": sum(f["M"] for f in F), "files": nf, "sensors": order}, F


def job_file(path, d, sensor, out, section=True):
    with open(path, "w") as f:
        f.write("[DEFAULT]\nmatchup_dataset: x\n\n[%s]\njob_id: 01\ndataset_dir: %s\nsensor: %s\noutput_dir: %s\n" % ("harmonisation" if section else "other", d, sensor, out))


def outputs(root, before):
    new = []
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.relpath(os.path.join(d, n), root)
            if p.endswith(".nc") and p not in before:
                new.append(p)
    return sorted(new)


def ended(rng, root, outs, report, stdout, code, before):
    new = outputs(root, before)
    obs = {"code": code, "calls": [], "files": [os.path.basename(p) for p in new if "_res_" not in os.path.basename(p)], "residuals": 0, "where": NOTHING, "attrs": [], "par": [], "extra": []}
    if os.path.exists(report):
        with open(report) as f:
            obs["calls"] = json.load(f)
    with open(stdout, errors="replace") as f:
        lines = f.read().splitlines()
    obs["lines"] = lines[:200]
    obs["told"] = told(lines)
    if obs["files"]:
        p = [p for p in new if os.path.basename(p) == obs["files"][0]][0]
        obs["where"] = os.path.dirname(p)
        obs["residuals"] = len([q for q in new if q != p])
        st, o = guarded(lambda: result.read_out(os.path.join(root, p)))
        if st == "ok":
            obs["attrs"], obs["par"], obs["extra"] = o["attrs"], o["par"], o["extra"]
    for p in new:
        os.remove(os.path.join(root, p))
    return obs


def told(lines):
    out = []
    for head in ("Match-up Dataset Directory: ", "Harmonisation Result Directory: "):
        out += [x.split(head, 1)[1] for x in lines if head in x]
    return out


PLOT_OPTIONS = ("i", "s", "o", "j", "log", "verbose", "quiet", "list", "version")
LINES = [["i", "s", "o"], ["j"], ["i", "s", "o", "pc", "spc", "gn", "sgn"], ["j", "nocov"], ["i", "s", "o", "nocov", "quiet"], ["j", "verbose"], ["j", "log"],
         ["i", "s", "o", "verbose", "spc"], ["i", "s", "o", "sgn", "log"], ["j", "quiet", "log"], ["i", "o", "s", "gn"], ["i", "s", "o", "mode"]]


def main(out, scen, prop):
    rng = random.Random(SEED * 7121 + 5)
    rec = Recorder(out)
    root = os.path.join(os.getcwd(), "w")
    os.mkdir(root)
    os.chdir(root)
    report, stdout = os.path.join(root, "..", "report.json"), os.path.join(root, "..", "stdout")
    factory = SensorDataFactory()
    names = [str(n) for n in factory.get_names()]
    reg = [{"sensor": c, "of": s, "par": [number(x) for x in factory.get_sensor_data(c)[s]["sensor_model_parameter"]]} for c in CLASSES for s in SENSORS]
    data, series = [], {}
    for path, nf in (("in/A", 1), ("in/B", 2), ("in/C %(c)s", 3)):
        d, F = dataset(rng, path, nf)
        data.append(d)
        series[path] = F
    for p in ("out", "out/x", "other out"):
        os.mkdir(p)
    jobs = []
    for k in range(4):
        j = {"path": "job%d.cfg" % k if k else "jobs.d", "has": True, "dir": data[k % 3]["path"], "sensor": rng.choice(CLASSES), "out": rng.choice(["out", "out/x"])}
        if k == 2:
            os.mkdir("jobs")
            j["path"] = "jobs/" + j["path"]
        if k == 3:
            j["dir"] = root + "/" + j["dir"]
        job_file(j["path"], j["dir"], j["sensor"], j["out"])
        jobs.append(j)
    job_file("bad.cfg", "in/A", CLASSES[0], "out", section=False)
    job_file("unknown.cfg", "in/A", "no such sensor", "out")
    jobs.append({"path": "unknown.cfg", "has": True, "dir": "in/A", "sensor": "no such sensor", "out": "out"})
    cfg0 = {"software": version.__short_name__, "version": version.__version__, "tag": version.__tag__, "job": "", "ds": ""}
    before = set(outputs(root, ()))

    def value(o, good=None):
        good = rng.random() < .93 if good is None else good
        return {"j": lambda: rng.choice([j["path"] for j in jobs[:4]]) if good else rng.choice(["bad.cfg", "none.cfg", "unknown.cfg"]),
                "i": lambda: rng.choice(data)["path"] if good else "in/none", "s": lambda: rng.choice(CLASSES) if good else "m99", "o": lambda: rng.choice(["out", "out/x", "other out"]),
                "mode": lambda: rng.choice(["normal", "setup_pc", "setup_trans2ind"]) if good else "fast", "log": lambda: "run.log"}.get(o, lambda: o + rng.choice(["/1.nc", ".2", "x"]))()

    def R_of(path):
        R = result.make(rng, series[path], rng.random() < .7)
        R["attrs"] = []
        return R

    # every option beside a job file, beside a complete line, and every incomplete line
    every = [["j", o] for o in SPELL if o != "j"] + [["i", "s", "o", o] for o in SPELL if o not in "iso"] + [list(x) for x in ("is", "io", "so", "i", "s", "o", "")]
    forced = [("solver", x) for x in every] + [("plot", x) for x in every if set(x) <= set(PLOT_OPTIONS)]
    rng.shuffle(forced)
    n = 190 if TIER == "quick" else 2500
    rng.shuffle(scen_ := list(load(scen, [])))
    rec.begin()
    for k in range(n):
        if k % 25 == 24:
            rec.begin()
        pick = rng.random()
        tool = "solver" if rng.random() < .8 else "plot"
        if forced and k % 3 == 0:
            tool, opts = forced.pop()
            opts = list(opts)
            rng.shuffle(opts)
            argv = [{"o": o, "v": value(o, True) if o in VALUED else ""} for o in opts]
        elif scen_ and pick < .4:
            sc = scen_.pop()
            tool = sc["tool"]
            argv = [{"o": t["o"], "v": t["v"] if t["o"] == "mode" else value(t["o"]) if t["o"] in VALUED else ""} for t in sc["argv"]]
        else:
            opts = list(rng.choice(LINES))
            for _ in range(rng.choice([0, 0, 1, 2])):
                opts.append(rng.choice(list(SPELL)))
            if rng.random() < .1:
                opts.remove(rng.choice(opts))
            rng.shuffle(opts)
            if tool == "plot" and rng.random() < .8:
                opts = [o for o in opts if o in PLOT_OPTIONS]
            argv = [{"o": o, "v": value(o) if o in VALUED else ""} for o in opts]
        R = R_of(rng.choice(data)["path"])
        # the result has the series of the dataset that a correct run opens: the last -i, or the job's
        paths = [t["v"] for t in argv if t["o"] == "i"]
        js = [j for t in argv if t["o"] == "j" for j in jobs if j["path"] == t["v"]]
        p = os.path.relpath(js[-1]["dir"] if js else paths[-1] if paths else "in/A", root)
        if p in series:
            R = R_of(p)
        words = spelled(rng, argv)
        for f in (report, stdout, "run.log"):
            if os.path.exists(f):
                os.remove(f)
        code = child(solver_main(words, R) if tool == "solver" else plot_main(words), report, stdout)
        obs = ended(rng, root, (), report, stdout, code, before)
        obs["logged"] = []
        if os.path.exists("run.log"):
            with open("run.log") as f:
                obs["logged"] = told(f.read().splitlines())
        rec.rec("command", tool=tool, argv=argv, words=words, jobs=jobs, cwd=root, names=names, reg=reg, data=data, cfg=cfg0, obs=obs)

    def op(sc, p, cls, outd, cfg, opts, R):
        def go():
            standard(R)
            h = importlib.import_module("harmonisation.tools.HarmonisationOp").HarmonisationOp()
            h.run(p, factory.get_sensor_data(cls), outd, software_cfg=cfg, **opts)
        return go
    for k in range(40 if TIER == "quick" else 400):
        if k % 10 == 0:
            rec.begin()
        p, cls, outd = rng.choice(data)["path"], rng.choice(CLASSES), rng.choice(["out", "out/x", "other out"])
        word = lambda: rng.choice(["FO", "1.0", "a b", "x-y", "", "INSTR_S_3", "007"])           # noqa
        cfg = {"software": word(), "version": word(), "tag": word()}
        c = {"software": cfg["software"], "version": cfg["version"], "tag": cfg["tag"], "job": "", "ds": ""}
        if rng.random() < .6:
            cfg["job_id"] = c["job"] = word()
        if rng.random() < .6:
            cfg["matchup_dataset"] = c["ds"] = word()
        opts, plan = {}, {"dir": p, "out": outd, "sensor": cls, "show": 1, "cov": True}
        for short, name in (("pc", "pc_input"), ("spc", "save_pc"), ("gn", "gn_input"), ("sgn", "save_gn")):
            plan[short] = NOTHING
            if rng.random() < .4:
                opts[name] = plan[short] = short + rng.choice(["/1.nc", ".2", "x"])
        if rng.random() < .5:
            opts["show"] = plan["show"] = rng.choice([0, 1, 2])
        if rng.random() < .6:
            opts["return_covariance"] = plan["cov"] = rng.random() < .5
        R = R_of(p)
        for f in (report, stdout):
            if os.path.exists(f):
                os.remove(f)
        code = child(op(None, p, cls, outd, cfg, opts, R), report, stdout)
        rec.rec("op", plan=plan, cwd=root, names=names, reg=reg, data=data, cfg=c, obs=ended(rng, root, (), report, stdout, code, before))

    real(rec, rng, root, report, stdout, before)
    rec.close()


def real(rec, rng, root, report, stdout, before):
    """The whole of it, on data of test_sim that parameters explain exactly."""
    for k in range(3 if TIER == "quick" else 12):
        rec.begin()
        path = "real%d" % k
        os.mkdir(path)
        a = {str(s): [rng.randint(-8, 8) / 4., rng.randint(-20, 20) / 1000., rng.randint(-20, 20) / 1000000.] for s in (1, 2)}
        gen = np.random.RandomState(rng.randint(0, 10 ** 6))
        for pair in (["0", "1"], ["1", "2"]):
            M = 40
            f = real_file(gen, pair, M, a)
            write_file(os.path.join(path, "_".join(pair) + ".nc"), f)
        # from scratch, keeping the preconditioner and the state of the solver; then starting from either, or from both
        pcname = "harm_pc.nc" if k % 3 == 2 else rng.choice(["pc.nc", "start.nc", "harm_pc.nc"])
        runs = [["pc", "gn"], [["pc_input"], ["gn_input", "pc_input"], ["pc_input"]][k % 3]]
        for r, kept in enumerate(runs):
            nocov = (k + r) % 2 == 1
            outd = "%s_out%d" % (path, r)
            os.mkdir(outd)
            if not r:
                os.mkdir(path + "_pc")
                os.mkdir(path + "_gn")
            words = ["-i", path, "-s", "test_sim", "-o", outd, "--quiet"] + ["--no_covariance"] * nocov
            for w in kept:
                words += {"pc": ["--save_pc", path + "_pc/" + pcname], "gn": ["--save_gn", path + "_gn"], "pc_input": ["--pc_input", path + "_pc" + ("" if k % 3 == 2 else "/" + pcname)],
                          "gn_input": ["--gn_input", path + "_gn"]}[w]
            for f in (report, stdout):
                if os.path.exists(f):
                    os.remove(f)
            code = child(solver_main(words, None), report, stdout)
            obs = {"code": code, "par": [], "zero": False, "kept": []}
            fs = [x for x in os.listdir(outd) if x.endswith(".nc") and "_res_" not in x]
            if len(fs) == 1:
                def look():
                    from netCDF4 import Dataset
                    d = Dataset(os.path.join(outd, fs[0]))
                    par, cov = np.array(d.variables["parameter"][:]), np.array(d.variables["parameter_covariance_matrix"][:])
                    d.close()
                    return [enc(x * w, 1, .51) for x, w in zip(par, [1e4, 1e6, 1e9] * 9)], bool((cov == 0).all())
                st, v = guarded(look)
                if st == "ok":
                    obs["par"], obs["zero"] = v
            if not r:
                obs["kept"] = [w for w in ("pc", "gn") if os.listdir(path + "_" + w)]
            rec.rec("solved", words=words, truth=[int(round(x * w)) for s in ("1", "2") for x, w in zip(a[s], [1e4, 1e6, 1e9])], tol=50, cov=not nocov,
                    keeps=kept if not r else [], obs=obs)
            shutil.rmtree(os.path.join(root, outd))
        for d in (path, path + "_pc", path + "_gn"):
            shutil.rmtree(os.path.join(root, d))


def real_file(gen, pair, M, a):
    X = []
    radiance = gen.uniform(40, 110, M)
    for s in pair:
        if s == "0":
            X.append(np.array([radiance]).T)
            continue
        cs, ci, li = gen.uniform(985, 995, M), gen.uniform(380, 420, M), gen.uniform(90, 100, M)
        b = a[s]
        ce = gen.uniform(400, 800, M)
        for _ in range(200):                      # counts at which the sensor has the radiance
            g = b[0] + (.98514 + b[1]) * li * (cs - ce) / (cs - ci) + b[2] * (ci - ce) * (cs - ce) - radiance
            dg = -(.98514 + b[1]) * li / (cs - ci) - b[2] * (ci - ce) - b[2] * (cs - ce)
            ce = ce - g / dg
        X.append(np.array([cs, ci, ce, li]).T)
    m = [x.shape[1] for x in X]
    u = {1: [.5], 4: [.5, .5, .5, .1]}
    Ur = [np.array([u[k]] * M) for k in m]
    return {"s": pair, "M": M, "m": m, "X": [x * SC for x in X], "Ur": [x * SC for x in Ur], "Us": [np.zeros((M, k)) for k in m], "K": [0] * M,
            "Kr": [.3 * SC] * M, "Ks": [0] * M, "t": [list(range(M)), list(range(M))], "ut": [[1] * k for k in m], "wuse": [[0] * k for k in m],
            "uuse": [[0] * k for k in m], "W": [], "U": [], "track": [[{"has": False, "v": []}] * 2] * 2, "add": []}


if __name__ == "__main__":
    main(*sys.argv[1:4])
