"""Plots, as they are handed to the plotting library (a recording stand-in)."""
import copy
import datetime
import importlib
import logging
import os
import random
import shutil
import sys
import types
from collections import OrderedDict

from common import *
import result
import process

import numpy as np

OUT, SCEN, PROP = sys.argv[1:4]
EPOCH = datetime.datetime(1970, 1, 1)
FIGS = OrderedDict()        # what was saved, by path


class Anything(object):
    """Whatever else is asked of the library."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


class Axes(Anything):
    transAxes = None

    def __init__(self):
        self.series, self.xl, self.yl, self.title, self.texts, self.lines, self.mesh = [], "", "", "", [], [], 0

    def set_xlabel(self, s, *a, **k):
        self.xl = s

    def set_ylabel(self, s, *a, **k):
        self.yl = s

    def set_title(self, s, *a, **k):
        self.title = s

    def text(self, x, y, s, *a, **k):
        self.texts.append(s)

    def errorbar(self, x, y, yerr=None, xerr=None, label=None, *a, **k):
        e = [] if yerr is None else np.atleast_1d(yerr)
        if yerr is not None and len(e) != len(np.atleast_1d(y)):
            e = np.array([np.nan if len(e) != 1 else e[0]] * len(np.atleast_1d(y)))
        self.series.append([label, list(np.atleast_1d(x)), list(np.atleast_1d(y)), list(e)])

    def plot(self, x, y, *a, **k):
        self.errorbar(x, y, label=k.get("label"))

    scatter = plot

    def hist2d(self, x, y, *a, **k):
        self.errorbar(x, y)
        return None, [0], [0], Anything()

    def axhline(self, y=0, *a, **k):
        self.lines.append(y)

    def pcolormesh(self, *a, **k):
        self.mesh += 1
        return Anything()

    def get_position(self):
        b = Anything()
        b.x0, b.y0, b.width, b.height = 0., 0., 1., 1.
        return b


class Figure(Anything):
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    add_axes = gca = add_subplot

    def savefig(self, path, *a, **k):
        open(path, "w").close()
        x = self.axes[0] if self.axes else Axes()
        if DENSITY:                 # the points a density was estimated from, in order
            x.series = [[None, list(DENSITY[-1][0]), list(DENSITY[-1][1]), []]] if x.mesh or PYPLOT.mesh else []
        FIGS[os.path.abspath(path)] = x
        del DENSITY[:]
        PYPLOT.mesh = 0


class Pyplot(types.ModuleType):
    mesh = 0
    current = None
    open_figures = 0

    def figure(self, *a, **k):
        self.current = Figure()
        self.open_figures += 1
        return self.current

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.add_subplot(111)

    def savefig(self, path, *a, **k):
        self.current.savefig(path)

    def close(self, *a, **k):
        self.open_figures -= 1

    def pcolormesh(self, *a, **k):
        self.mesh += 1
        return Anything()

    def get_cmap(self, *a, **k):
        return lambda x: "#000000"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


DENSITY = []


class Kde(object):
    def __init__(self, data, *a, **k):
        DENSITY.append([np.array(x, dtype=float) for x in data])

    def __call__(self, pts):
        return np.zeros(np.asarray(pts).shape[1])


PYPLOT = Pyplot("matplotlib.pyplot")
MPL = types.ModuleType("matplotlib")
MPL.use, MPL.rcParams, MPL.pyplot, MPL.cm = (lambda *a, **k: None), {}, PYPLOT, Anything()
sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = MPL, PYPLOT
import scipy.stats
scipy.stats.gaussian_kde = Kde
scipy.stats.kde = types.ModuleType("scipy.stats.kde")
scipy.stats.kde.gaussian_kde = Kde
sys.modules["scipy.stats.kde"] = scipy.stats.kde

from harmonisation import open_matchup
from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult import HarmonisationResult
VIS = importlib.import_module("harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationVis.HarmonisationVis")
import cli

rng = random.Random(SEED * 7919 + 24)


# ---- figures, encoded -------------------------------------------------------------
def number(x, scale, tol):
    if isinstance(x, datetime.datetime):
        return enc((x - EPOCH).total_seconds())
    return enc(x, scale, tol)


def near(x, scale):
    x = float(x) * scale
    return NAN if x != x else int(round(x)) if abs(x) < LIMIT else INEXACT


def series_of(s, density, compare):
    label, x, y, e = s
    o = {"label": "" if label is None else str(label), "x": [], "y": [], "e": [], "x19": [], "y19": [], "e361": []}
    if compare:
        o.update(x19=[near(v, 19) for v in x], y19=[near(v, 19) for v in y], e361=[near(float(v) ** 2, 361) for v in e])
        return o
    # of a density, times are seconds
    sx = 1 if density == "time" else 100
    o.update(x=[number(v, sx, 1e-2) for v in x], y=[number(v, 2520, 1e-2) for v in y], e=[enc(float(v) ** 2, 144, 1e-3) for v in e])
    return o


def figures(root, compare=False):
    out = []
    for path, f in FIGS.items():
        p = os.path.relpath(path, root)
        d = "time" if p.endswith("density.pdf") and "k_res" in p else ""
        out.append({"path": p, "xl": str(f.xl), "yl": str(f.yl), "title": str(f.title), "texts": [str(t).strip() for t in f.texts],
                    "series": [series_of(s, d, compare) for s in f.series]})
    return out


# ---- datasets -----------------------------------------------------------------------
SENSORS = ["m02", "n19", "n15", "aatsr", "0", "a"]
EXTRA = ["latitude", "x_extra", "nominal_BT1"]


def dataset(maxm=7):
    names = rng.sample(SENSORS, rng.randint(2, 4))
    ms = {s: rng.choice([1, 2, 3]) for s in names}
    if rng.random() < .4:           # a reference: of one variable
        ms[names[0]] = 1
    files = []
    start = rng.randint(0, 30000) * 10000
    span = rng.choice([500, 86400 * 40, 86400 * 200])
    base = [rng.choice([0, 0, 30]) for _ in range(3)]
    tracks = [[rng.random() < .5 for _ in range(2)] for _ in range(2)]
    for i in range(rng.choice([1, 2, 2, 3, 3, 4])):
        pair = rng.sample(names, 2) if i == 0 or rng.random() < .7 else list(files[-1]["s"])
        M = rng.randint(1, maxm)
        f = random_file(rng, pair, M, [ms[s] for s in pair], types=(1,), add_names=())
        wide = rng.choice([1, 3, 12])
        f["X"] = [[[(rng.randint(-wide, wide) + base[c]) * SC for c in range(ms[pair[p]])] for _ in range(M)] for p in range(2)]
        f["K"] = [rng.randint(-30, 30) * SC for _ in range(M)]
        t = [start + rng.randint(0, span) for _ in range(M)]
        if rng.random() < .5:
            t.sort()
        f["t"] = [[x + rng.randint(-60, 60) for x in t], t]
        f["add"] = [{"name": "nominal_measurand%d" % (p + 1), "v": [rng.randint(-50, 50) * SC for _ in range(M)]} for p in range(2)]
        for name in EXTRA:
            if rng.random() < .5:
                v = [rng.randint(-20, 20) * SC for _ in range(M)]
                if rng.random() < .3:
                    v[rng.randrange(M)] = NAN
                f["add"].append({"name": name, "v": v})
        for w in range(2):
            for p in range(2):
                f["track"][w][p] = {"has": tracks[w][p], "v": [rng.randint(0, 9) for _ in range(M)] if tracks[w][p] else []}
        files.append(f)
    return files


def described(files):
    """Sensor data as the tools get it, and the parameters by sensor."""
    names = []
    for f in files:
        names += [s for s in f["s"] if s not in names]
    ms = {s: m for f in files for s, m in zip(f["s"], f["m"])}
    order = list(names)
    rng.shuffle(order)
    sd, g, h = OrderedDict(), {}, {}
    named, labelled = rng.random() < .5, rng.random() < .5
    vn, vl = ["X1", "X2", "X3"], ["X1", "X2", "X3"]
    if named:
        vn = ["C_s", "C_e", "T"]
    if labelled:
        vl = ["C_S", "C_{E}", "T_o"]
    for k, s in enumerate(order):
        g[s], h[s] = rng.choice([1, 2]), rng.choice([1, -1, 2])
        sd[s] = {"sensor_model": process.model(g[s]), "sensor_model_parameter": [float(rng.randint(-3, 3)) for _ in range(rng.randint(1, 3))],
                 "sensor_model_constant": [float(rng.randint(-3, 3)) for _ in range(rng.randint(0, 2))], "adjustment_model": process.adjuster(h[s])}
        if named:
            sd[s]["sensor_model_variable_names"] = vn[:ms[s]]
        if labelled:
            sd[s]["sensor_model_variable_labels"] = vl[:ms[s]]
    return sd, (g, h), vn, vl


def written(path, files):
    os.makedirs(path)
    for i, f in enumerate(files):
        write_file(os.path.join(path, "%d.nc" % i), f)


def harmonised(m, shuffle):
    """Parameters of a result, by sensor in one order or another."""
    who = [str(s) for s in m.idx["parameter_sensor"]]
    if shuffle:
        order = sorted(set(who))
        rng.shuffle(order)
        who = [s for o in order for s in who if s == o]
    return [float(rng.randint(-3, 3)) for _ in who], who


def full(m, gh, par, who, vn, vl, files):
    D = process.data(m, gh)
    D["H"] = [[enc(a) for s, a in zip(who, par) if s == n] for n in D["sensors"]]
    L = [m.getAdditionalData("nominal_measurand%d" % (p + 1)) for p in range(2)]
    D["L"] = [process.per_mu(m, x) for x in L]
    D["civil"] = [[[x.year, x.month, x.day, x.hour, x.minute, x.second] for x in c] for c in process.cut(m.time2, m.idx["cNm"])]
    D["names"], D["labels"] = vn, vl
    D["adds"] = [{"name": str(n), "v": process.per_mu(m, m.getAdditionalData(n))} for n in m.getAdditionalDataNames()]
    return D


# ---- what is asked of a viewer --------------------------------------------------------
WAYS = {"nn": [("scatter", "nn"), ("month", "nn"), ("density", "nn"), ("get", "nn")],
        "hh": [("scatter", "hh"), ("month", "hh"), ("density", "hh"), ("X", "hh"), ("x", "hh"), ("get", "hh")],
        "nh": [("scatter", "nh"), ("month", "nh"), ("density", "nh"), ("X", "nh"), ("x", "nh"), ("get", "nh")],
        "L1n": [("L", "nn"), ("get", "L1n")], "L2n": [("Ldensity", "nn"), ("get", "L2n")],
        "L1h": [("L", "hh"), ("get", "L1h")], "L2h": [("Ldensity", "hh"), ("get", "L2h")]}
LONG = {"nn": "kres_nom_nom", "hh": "kres_harm_harm", "nh": "kres_nom_harm"}
GET = {"L1n": "get_L1_nom", "L2n": "get_L2_nom", "L1h": "get_L1_harm", "L2h": "get_L2_harm", "nn": "get_kres_nom_nom", "hh": "get_kres_harm_harm", "nh": "get_kres_nom_harm"}


def request(vis, D, what, q, d, values):
    """One request; what it asks for."""
    n = len(D["Nm"])
    ask = {"what": what, "q": q, "dir": "", "mus": list(range(1, n + 1))}
    if what == "get":
        values.append({"q": q, "v": encs(getattr(vis, GET[q])(), 1, 1e-3)})
        return None
    if what == "L":
        vis_method = "plot_L1_%s_v_L2_%s_scatter" % (("harm",) * 2 if q == "hh" else ("nom",) * 2)
    elif what == "Ldensity":
        vis_method = "plot_L1_%s_v_L2_%s_density" % (("harm",) * 2 if q == "hh" else ("nom",) * 2)
    else:
        vis_method = "plot_%s_%s" % (LONG[q], {"scatter": "scatter", "month": "scatter_monthlymean", "density": "density", "X": "X_binned_line",
                                               "x": "additional_variables_binned_line"}[what])
    kw = {}
    if what in ("scatter", "month", "X", "x") and rng.random() < .3:
        kw["ylim"] = [-10, 10]
    if what in ("X", "x") and rng.random() < .5:
        kw["mus"] = ask["mus"] = sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
    getattr(vis, vis_method)(d, **kw)
    return ask


def state(m):
    return [process.data(m), encs(m.a), [str(s) for s in m.idx["parameter_sensor"]], encm(m.additional_values)]


def viewed(R, root, asked):
    files = dataset()
    path = os.path.join(root, "d")
    written(path, files)
    sd, gh, vn, vl = described(files)
    m = open_matchup(path, open_uncertainty=False) if rng.random() < .5 else open_matchup(path)
    m.setSensorData(sd)
    par, who = harmonised(m, rng.random() < .4)
    res = HarmonisationResult()
    res.parameter, res.parameter_sensors = np.array(par), list(who)
    D = full(open_for(path, sd), gh, par, who, vn, vl, files)
    FIGS.clear()
    del DENSITY[:]
    d = os.path.join(root, "plots")
    os.mkdir(d)
    before = state_of(m)
    values, asks = [], []

    def go():
        vis = VIS.HarmonisationVis(m, res)
        wanted = [rng.choice(WAYS[q]) for q in asked]
        if rng.random() < .3:                      # every plot once, in some order
            wanted = [w for q in WAYS for w in WAYS[q]]
            rng.shuffle(wanted)
            wanted = wanted[:rng.choice([6, 12, 40])]
        for w in wanted:
            a = request(vis, D, *w, d=d, values=values)
            if a:
                asks.append(a)
    st, _ = guarded(go)
    o = {"status": st, "figs": figures(d), "values": values, "same": state_of(m) == before and encs(res.parameter) == [enc(x) for x in par]
         and list(res.parameter_sensors) == who}
    # later plots of the same name replace earlier ones: leave one request of each
    last = OrderedDict()
    for a in asks:
        last[(a["what"], a["q"])] = a
    if len(last) == len(asks):
        R.rec("viewed", D=D, asks=asks, obs=o)
    shutil.rmtree(path)
    shutil.rmtree(d)


def open_for(path, sd):
    m = open_matchup(path)
    m.setSensorData(sd)
    return m


def state_of(m):
    i = m.idx
    return [encs(m.values), encs(m.a), [str(s) for s in i["parameter_sensor"]], encm(m.additional_values), encs(m.ks), ints(i["cNm"]), ints(i["Nm"]),
            [x for x in m.time2]]


def tool(R, root, compare):
    files = dataset()
    path, out = os.path.join(root, "d"), os.path.join(root, "out")
    written(path, files)
    os.mkdir(out)
    sd, gh, vn, vl = described(files)
    m = open_for(path, sd)
    par, who = harmonised(m, not compare and rng.random() < .4)
    n = len(par)
    r = result.make(rng, files, True)
    r["par"], r["sen"], r["attrs"], r["extra"] = [int(x) * SC for x in par], who, [], []
    C = np.array([[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)], dtype=float)
    C = C.dot(C.T)
    r["cov"] = [[int(x) * SC for x in row] for row in C]
    result.build(r).save(os.path.join(out, "harm_x.nc"))
    D = full(m, gh, par, who, vn, vl, files)
    report, stdout = os.path.join(root, "report"), os.path.join(root, "stdout")
    if rng.random() < .3:
        os.makedirs(os.path.join(out, "plots", "overview"))
    name = "harm_comp_plot" if compare else "harm_plot"

    def go():
        FIGS.clear()
        SensorDataFactory.get_sensor_data = lambda self, n: sd
        sys.argv = [name, "-i", path, "-s", "test_sim", "-o", out, "--quiet"]
        os.chdir(root)
        try:
            return importlib.import_module("harmonisation.tools." + name).main()
        finally:
            cli.CALLS[:] = figures(os.path.join(out, "plots"), compare)
    if os.path.exists(report):
        os.remove(report)
    code = cli.child(go, report, stdout)
    figs = load(report, [])
    o = {"status": "ok" if code == 0 else "code %d" % code, "figs": figs}
    if compare:
        V = [encm(C[np.ix_([i for i in range(n) if who[i] == s], [i for i in range(n) if who[i] == s])]) for s in D["sensors"]]
        R.rec("compared", D=D, V=V, obs=o)
    else:
        R.rec("tool", D=D, obs=o)
    shutil.rmtree(path)
    shutil.rmtree(out)


def sampled(R, root, Nm):
    """More match-ups than are plotted; the times, or the measurand of the second sensor, tell which they are."""
    files, at = [], 0
    L, K, X = [], [], []
    for i, M in enumerate(Nm):
        f = random_file(rng, ["a", "b"] if i % 2 else ["b", "c"], 2, [1, 1], types=(1,), add_names=())
        f["M"] = M
        X = [[rng.randint(-5, 5) for _ in range(M)] for _ in range(2)]
        f["X"] = [[[x * SC] for x in p] for p in X]
        f["Ur"], f["Us"] = [[[SC]] * M] * 2, [[[0]] * M] * 2
        f["Kr"], f["Ks"] = [SC] * M, [0] * M
        k = [rng.randint(-9, 9) for _ in range(M)]
        f["K"] = [x * SC for x in k]
        f["t"] = [[at + 60 * r for r in range(M)], [at + 60 * r for r in range(M)]]
        at += 60 * M
        l1 = [rng.randint(-50, 50) for _ in range(M)]
        f["add"] = [{"name": "nominal_measurand1", "v": [x * SC for x in l1]}, {"name": "nominal_measurand2", "v": [(r + 1) * SC for r in range(M)]}]
        f["track"] = [[{"has": False, "v": []}] * 2] * 2
        files.append(f)
        L.append(l1)
        K.append(k)
    path, d = os.path.join(root, "d"), os.path.join(root, "plots")
    written(path, files)
    os.mkdir(d)
    m = open_matchup(path)
    rows = process.cut(np.arange(m.idx["cNm"][-1]), m.idx["cNm"])
    nn = [[(r + 1) - L[i][r] - K[i][r] for r in range(M)] for i, M in enumerate(Nm)]
    FIGS.clear()
    which = {}

    def go():
        vis = VIS.HarmonisationVis(m, HarmonisationResult())
        order = ["nn", "L1n"]
        rng.shuffle(order)
        for q in order:
            (vis.plot_kres_nom_nom_scatter if q == "nn" else vis.plot_L1_nom_v_L2_nom_scatter)(d)
    st, _ = guarded(go)
    figs = []
    for p, f in FIGS.items():
        q = "nn" if "k_res" in p else "L1n"
        ss, start = [], 0
        for i, s in enumerate(f.series):
            x = [number(v, 1, 1e-3) for v in s[1]]
            r = [(v - start) // 60 + 1 if (v - start) % 60 == 0 else 0 for v in x] if q == "nn" else x
            ss.append({"r": r, "y": encs(s[2], 1, 1e-3)})
            start += 60 * Nm[i] if i < len(Nm) else 0
        figs.append({"q": q, "series": ss})
    R.rec("sampled", Nm=Nm, y={"nn": nn, "L1n": L}, obs={"status": st if len(figs) == 2 else "figures", "figs": figs})
    shutil.rmtree(path)
    shutil.rmtree(d)


def main():
    R = Recorder(OUT)
    root = os.getcwd()
    scen = load(SCEN, [])
    rng.shuffle(scen)
    deep = TIER != "quick"
    for k, s in enumerate(scen[:130 if not deep else 1000]):
        if k % 10 == 0:
            R.begin()
        viewed(R, root, s["asked"])
    for k in range(14 if not deep else 120):
        if k % 5 == 0:
            R.begin()
        tool(R, root, k % 3 == 2)
    R.begin()
    for Nm in [[4000, 6016]] + ([[9000, 1000, 2000], [16000]] if deep else []):
        sampled(R, root, Nm)
    R.close()


if __name__ == "__main__":
    main()
