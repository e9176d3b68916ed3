"""Processing of opened match-up data: sampling, normalised independent variables, simulation, measurement equations."""
import copy
import datetime
import os
import random
import sys
from collections import OrderedDict
from fractions import Fraction

from common import *

# random.sample as Python 2, the language of the code, has it: any indexable population
_sample = random.sample
random.sample = lambda population, k, **kw: _sample(list(population), k, **kw)

import numpy as np
from harmonisation import open_matchup, MatchUp
from harmonisation.core.matchup.matchupProcessing.sample2ind.Sample2Ind import Sample2Ind
from harmonisation.core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd
from harmonisation.core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp
from harmonisation.core.matchup.matchupToolbox.utils import matchup_maths as MM

EPOCH = datetime.datetime(1970, 1, 1)
WS, VS, NS = 8, 60, 64


def secs(a):
    return [enc((x - EPOCH).total_seconds()) if isinstance(x, datetime.datetime) else INEXACT for x in a]


def window(pos, kernel):
    """Rows of consecutive scan lines."""
    row, col, val = [0], [], []
    for p in pos:
        col += [p + k for k in range(len(kernel))]
        val += kernel
        row.append(len(col))
    return {"row": row, "col": col, "val": val}


def compact(pos, n):
    used = sorted({p + k for p in pos for k in range(n)})
    return used == list(range(len(used)))


def settles(w, v, u):
    """Are all lines, divided by u, multiples of 1/NS of moderate size (so that single precision is exact)?"""
    y = {}
    for r in range(len(w["row"]) - 1):
        c = list(range(w["row"][r], w["row"][r + 1]))
        new = [k for k in c if w["col"][k] not in y]
        if not new:
            continue
        rest = Fraction(v[r]) - sum(Fraction(w["val"][k], WS) * y[w["col"][k]] for k in c if k not in new)
        each = rest / sum(Fraction(w["val"][k], WS) for k in new)
        for k in new:
            y[w["col"][k]] = each
    for j, x in y.items():
        q = x / u[j] * NS
        if q.denominator != 1 or abs(q) >= 1 << 23 or abs(x) * NS >= 1 << 26:
            return False
    return True


# kernels that do not sum to one, where nothing is to be settled
LOOSE = [[4], [12], [8, 8], [2, 1], [1, 4, 1], [3, 3, 3], [6, 4]]
KERNELS = [[8], [4, 4], [2, 2, 2, 2], [2, 4, 2], [4, 2, 2], [2, 2, 4]]


def files_for(rng, scen, maxm=6, norm=True, wide=None, nfiles=None, tracks=None, ref=False, types=(1, 2, 3, 4), mmax=3, minm=1, loose=False):
    """Files whose values are integers (multiples of 64 where they are to be normalised)."""
    names = rng.sample(["m02", "n19", "n15", "aatsr", "0"], rng.randint(2, 4))
    ms = {s: rng.randint(1, mmax) for s in names}
    wide = wide or (2000 if norm and rng.random() < .4 else 30)
    if ref:
        ms[names[0]] = 1
    files = []
    ks = rng.sample(range(-200, 200), 120) if maxm < 30 else [rng.randint(-200, 200) for _ in range(6 * maxm)]
    for i in range(nfiles or rng.randint(1, 3)):
        pair = rng.sample(names, 2)
        sc = scen.pop() if scen and rng.random() < .6 else None
        M = len(sc["pos"]) if sc else rng.randint(minm, maxm)
        f = random_file(rng, pair, M, [ms[pair[0]], ms[pair[1]]], types, plain=names[:1] if ref else ())
        for p in range(2):
            for row in f["X"][p]:
                for c in range(len(row)):
                    row[c] = rng.randint(-wide, wide) * (64 if norm else 1)
            f["Ur"][p] = [[rng.choice([1, 2, 4, 8]) if f["ut"][p][c] in (1, 2) else 0 for c in range(f["m"][p])] for _ in range(M)]
            us = [rng.randint(1, 9) for _ in range(f["m"][p])]
            f["Us"][p] = [[us[c] if f["ut"][p][c] in (2, 4) else 0 for c in range(f["m"][p])] for _ in range(M)]
        f["K"] = [ks.pop() * (64 if norm else 1) for _ in range(M)]
        f["Kr"] = [rng.choice([1, 2, 4, 8]) for _ in range(M)]
        f["Ks"] = [0] * M
        for j in range(len(f["W"])):
            using = [(p, c) for p in range(2) for c in range(f["m"][p]) if f["wuse"][p][c] == j + 1]
            for attempt in range(200):
                if sc and attempt < 40:
                    w = window(sc["pos"], rng.choice([k for k in KERNELS if len(k) == sc["kern"]] or [[8]]) if norm else [8 // sc["kern"]] * sc["kern"])
                elif norm or attempt > 100:
                    kernel = rng.choice(KERNELS + (LOOSE if loose else [])) if attempt < 100 else [8]
                    pos, at = [], 0
                    for r in range(M):
                        pos.append(at)
                        at += rng.choice([0, 1, 1, 1, 2, 4])
                    if rng.random() < .3:
                        rng.shuffle(pos)
                    w = window(pos, kernel)
                else:
                    w = random_w(rng, M)
                if not norm and attempt <= 100 or compact([w["col"][w["row"][r]] for r in range(M)], w["row"][1]):
                    n = max(w["col"]) + 1
                    u = [rng.choice([1, 2, 4]) if norm else rng.randint(1, 9) for _ in range(n)]
                    if loose or not norm or all(settles(w, [f["X"][p][r][c] for r in range(M)], u) for p, c in using):
                        break
            else:
                w = window(list(range(M)), [8])
                u = [1] * M
            f["W"][j] = w
            f["_u"] = f.get("_u", {})
            f["_u"][j] = u
        # one diagonal per weight matrix
        f["U"] = [f["_u"][j] for j in range(len(f["W"]))]
        f["uuse"] = [list(x) for x in f["wuse"]]
        f.pop("_u", None)
        if tracks is not None:
            for w in range(2):
                for p in range(2):
                    f["track"][w][p] = {"has": tracks[w][p], "v": [rng.randint(0, 50) for _ in range(M)] if tracks[w][p] else []}
        files.append(f)
    return files


def scaled(f):
    """To the units of write_file."""
    g = dict(f)
    m = lambda t: [[[x * SC for x in row] for row in p] for p in t]
    g.update(X=m(f["X"]), Ur=m(f["Ur"]), Us=m(f["Us"]), add=[])
    for k in ("K", "Kr", "Ks"):
        g[k] = [x * SC for x in f[k]]
    g["W"] = [dict(w, val=[x * SC // WS for x in w["val"]]) for w in f["W"]]
    g["U"] = [[x * SC for x in u] for u in f["U"]]
    return g


def opened(rng, root, files):
    paths = []
    for i, f in enumerate(files):
        p = os.path.join(root, "p%d.nc" % i)
        write_file(p, scaled(f))
        paths.append(p)
    m = open_matchup(paths)
    for p in paths:
        os.remove(p)
    return m


def last_digits(k):
    return k if abs(k) < 1000 else k % 1000


def model(g):
    def f(X, a, c, xt, at, t):
        X = np.asarray(X, dtype=float)
        m, n = X.shape[1], len(a)
        y = X.dot(np.arange(1., m + 1))
        J = np.zeros((X.shape[0], m + n))
        J[:, :m] = np.arange(1., m + 1)
        for j in range(n):
            y = y + a[j] * X[:, j % m]
            J[:, j % m] += a[j]
            J[:, m + j] = X[:, j % m]
        y = y + sum((j + 1) * last_digits(c[j]) for j in range(len(c)))
        if xt is not None:
            y = y + np.asarray(xt, dtype=float)
        if at is not None:
            y = y + 2 * np.asarray(at, dtype=float)
        if t is not None:
            y = y + 3 * np.array([(x - EPOCH).total_seconds() % 10 for x in t])
        return g * y, g * J
    return f


def adjuster(h):
    return lambda y: (h * y + 1, h * np.ones(len(y)))


def constant(rng, small=5):
    """A constant, small or of so many digits that single precision does not hold it."""
    return float(rng.choice([rng.randint(-small, small), 1000 * rng.randint(-2 ** 20, 2 ** 20) + rng.randint(0, small)]))


def attach(rng, m):
    """Sensors described in any order, with parameters, constants, functions."""
    names = [str(s) for s in m.idx["sensors"]]
    order = list(names)
    rng.shuffle(order)
    sd, g, h = OrderedDict(), {}, {}
    for k, s in enumerate(order):
        g[s], h[s] = k + 1, rng.choice([1, -1, 2, 3])
        sd[s] = {"sensor_model": model(g[s]), "sensor_model_parameter": [float(rng.randint(-5, 5)) for _ in range(rng.randint(1, 4))],
                 "sensor_model_constant": [constant(rng) for _ in range(rng.randint(0, 2))], "adjustment_model": adjuster(h[s])}
    m.setSensorData(sd)
    return g, h


def index(m):
    i = m.idx
    return {"Nm": ints(i["Nm"]), "cNm": ints(i["cNm"]), "N_var": ints(i["N_var"]), "idx": ints(i["idx"]), "n_mu": ints(i["n_mu"]),
            "n_sensor": [enc(x + 1) for x in i["n_sensor"]], "n_cov": ints(i["n_cov"]), "Im": [[enc(x + 1) for x in y] for y in i["Im"]],
            "sensors": [str(s) for s in i["sensors"]], "ms": ints(i["sensor_ms"])}


def cut(a, bounds):
    return [a[bounds[i]:bounds[i + 1]] for i in range(len(bounds) - 1)]


def per_mu(m, a, scale=1):
    if a is None:
        return [[-1] * int(n) for n in m.idx["Nm"]]
    return [encs(x, scale) for x in cut(a, m.idx["cNm"])]


def tracks(m):
    return [[per_mu(m, m.along_track_index1), per_mu(m, m.along_track_index2)],
            [per_mu(m, m.across_track_index1), per_mu(m, m.across_track_index2)]]


def times(m):
    return [[secs(x) for x in cut(m.time1, m.idx["cNm"])], [secs(x) for x in cut(m.time2, m.idx["cNm"])]]


def data(m, gh=None):
    d = index(m)
    d["ms"] = ints(m.idx["sensor_ms"])
    d["blocks"] = []
    for b, v in enumerate(cut(m.values, m.idx["idx"])):
        u = m.unc[b]
        e = {"mu": d["n_mu"][b], "s": d["n_sensor"][b], "c": d["n_cov"][b], "v": encs(v), "t": enc(u.typeID), "uR": [], "uS": [],
             "si": 0, "w": 0, "u": 0}
        if u.typeID in (1, 2):
            e["uR"] = encs(u.uR)
        if u.typeID in (2, 4):
            e["uS"], e["si"] = encs(np.atleast_1d(u.uS)), enc(u.uS_i)
        if u.typeID in (3, 4):
            e["w"], e["u"] = enc(u.w_i + 1), enc(u.u_i + 1)
        d["blocks"].append(e)
    d["W"] = [{"row": ints(w.indptr), "col": ints(w.indices), "val": encs(w.data, WS)} for w in m.w_matrices]
    d["U"] = [encs(u) for u in m.u_matrices]
    d["ks"] = per_mu(m, m.ks)
    d["kr"] = [encs(u.uR) for u in m.unck]
    d["t"] = times(m)
    d["track"] = tracks(m)
    if gh:
        names = d["sensors"]
        d["g"], d["h"] = [gh[0][s] for s in names], [gh[1][s] for s in names]
        d["A"] = [[enc(a) for ps, a in zip(m.idx["parameter_sensor"], m.a) if ps == s] for s in names]
        d["consts"] = [[enc(c) for cs, c in zip(m.idx["sensor_model_constant_sensor"], m.sensor_model_constant) if cs == s] for s in names]
    return d


def carried(m, n, extra=()):
    """What a processor hands on as it is."""
    ok = np.array_equal(m.a, n.a) and n.sensor_model is not None and list(m.sensor_model) == list(n.sensor_model) \
        and list(m.adjustment_model) == list(n.adjustment_model) and np.array_equal(m.sensor_model_constant, n.sensor_model_constant)
    ok = ok and list(m.idx["parameter_sensor"]) == list(n.idx["parameter_sensor"])
    for a in extra:
        x, y = getattr(m, a), getattr(n, a)
        if a in TIMES:
            ok = ok and x is not None and y is not None and list(x) == list(y)
            continue
        ok = ok and ((x is None and y is None) or (x is not None and y is not None and encs(x) == encs(y)))
    return bool(ok)


TIMES = ("time1", "time2")
TRACKS = ("along_track_index1", "along_track_index2", "across_track_index1", "across_track_index2") + TIMES


def observed(fn, look):
    st, v = guarded(fn)
    obs = {"status": st}
    if st == "ok":
        st, o = guarded(lambda: look(v))
        obs = dict(o or {}, status=st)
    return obs


def digits(rng, files):
    """Adjustment values that only double precision holds, all different."""
    if rng.random() < .5 or any(len(set(f["K"])) < f["M"] for f in files):
        ks = rng.sample(range(-(1 << 29), 1 << 29), sum(f["M"] for f in files))
        for f in files:
            f["K"] = [ks.pop() for _ in f["K"]]


def uneven(rng, files):
    """Averages over different numbers of lines, some within others, in any order."""
    for f in files:
        for j in range(len(f["W"])):
            if rng.random() < .4:
                n = rng.randint(1, 2 * f["M"] + 3)
                row, col, val = [0], [], []
                for r in range(f["M"]):
                    width = rng.randint(1, min(n, rng.choice([1, 3, 6])))
                    at = rng.randint(0, n - width)
                    col += range(at, at + width)
                    val += [rng.randint(1, 5) for _ in range(width)]
                    row.append(len(col))
                n = max(col) + 1
                f["W"][j] = {"row": row, "col": col, "val": val}
                f["U"][j] = [rng.randint(1, 9) for _ in range(n)]


def sample_events(rec, rng, root, n, scen):
    for k in range(n):
        big_ = rng.random() < .3
        files = files_for(rng, scen if not big_ else None, maxm=rng.choice([25, 25, 25, 60]) if big_ else 7, norm=False, nfiles=None if k % 2 else 1)
        digits(rng, files)
        uneven(rng, files)
        m = opened(rng, root, files)
        attach(rng, m)
        rec.begin()
        D = data(m)
        rec.rec("data", D=D)
        for _ in range(2):
            total = sum(D["Nm"])
            sf = rng.choice([[1, 1], [1, 1], [1, 2], [3, 4], [1, 4], [7, 8]])
            nmax = rng.choice([100000, 100000, rng.randint(1, total), total])
            random.seed(rng.random())
            np.random.seed(rng.randrange(1 << 30))

            def look(s):
                o = index(s)
                o.update(v=[encs(x) for x in cut(s.values, s.idx["idx"])], t=[enc(u.typeID) for u in s.unc],
                         var=[encs(np.asarray(u.uR, dtype=float) ** 2, VS) for u in s.unc], ks=per_mu(s, s.ks),
                         kr=[encs(u.uR) for u in s.unck], tm=times(s), track=tracks(s), same=data(m) == D, carried=carried(m, s))
                return o
            rec.rec("sample", sf=sf, nmax=nmax, obs=observed(lambda: Sample2Ind().run(m, sf=sf[0] / float(sf[1]), n_sample_max=nmax), look))


def norm_events(rec, rng, root, n, scen):
    for k in range(n):
        loose = rng.random() < .2           # weights of any sum, of which only the way back speaks
        files = files_for(rng, scen, norm=True, loose=loose)
        if rng.random() < .5:
            for f in files:
                f["K"] = [rng.choice([-1, 1]) * rng.randint(1 << 24, 31000000) for _ in f["K"]]
        m = opened(rng, root, files)
        attach(rng, m)
        rec.begin()
        D = data(m)
        rec.rec("data", D=D)
        held = {}
        T = Transform2NormInd()

        def parts(q):
            b = list(q.idx["idx"])
            nsys = b[-1] - b[-2] - q.idx["N_var"][-1]
            ends = b[:-1] + [b[-1] - nsys]
            return ends, int(nsys)

        def look(q):
            held["q"] = q
            ends, nsys = parts(q)
            o = index(q)
            o.update(x=[encs(x, NS) for x in cut(q.values, ends)], s=encs(q.values[ends[-1]:], NS), ks=per_mu(q, q.ks, NS),
                     same=data(m) == D, carried=carried(m, q, TRACKS) and q.unc is not None and len(q.unc) == len(m.unc))
            return o
        obs = observed(lambda: T.run(m), look)
        if not loose:
            rec.rec("norm", sc=NS, obs=obs)
        if "q" not in held:
            continue
        q = held["q"]
        if not loose:
            rec.rec("round", obs=observed(lambda: T.reverse(q), lambda z: {"v": [encs(x) for x in cut(z.values, z.idx["idx"])], "ks": per_mu(z, z.ks)}))
        for _ in range(2):
            ends, nsys = parts(q)
            top = rng.choice([40, 40, 1 << 20])
            x = [rng.randint(-top, top) for _ in range(ends[-1])]
            s = [rng.randint(-top, top) for _ in range(nsys)]
            q.values = np.array(x + s, dtype=q.values.dtype)
            ks = [rng.randint(-top * 200, top * 200) for _ in range(len(q.ks))]
            q.ks = np.array(ks, dtype=float)
            before = data(m)

            def look2(z):
                o = index(z)
                o.update(v=[encs(y, WS) for y in cut(z.values, z.idx["idx"])], ks=per_mu(z, z.ks), carried=carried(m, z, TRACKS),
                         same=data(m) == before and list(q.values) == x + s)
                return o
            rec.rec("back", x=cut(x, ends), s=s, ks=cut(ks, q.idx["cNm"]), obs=observed(lambda: T.reverse(q), look2))


def sim_events(rec, rng, root, n, scen):
    for k in range(n):
        num = rng.choice([1, 2, 3, 5, 9, 20, 21, 120])
        files = files_for(rng, scen, norm=False, maxm=8)
        if num < 100:
            for f in files:
                f["K"] = [rng.randint(-5000, 5000) for _ in f["K"]]
        m = opened(rng, root, files)
        attach(rng, m)
        rec.begin()
        D = data(m)
        rec.rec("data", D=D)
        sc = max(1, num - 1)

        def look(s):
            o = index(s)
            o.update(v=[encs(x, sc, 1e-2) for x in cut(s.values, s.idx["idx"])], ks=[encs(x, sc, 1e-2) for x in cut(s.ks, s.idx["cNm"])],
                     carried=carried(m, s), same=data(m) == D)
            return o
        kw = {} if num == 20 and rng.random() < .5 else {"n_samples_mu": num}
        rec.rec("sim", n=num, obs=observed(lambda: SimulateMatchUp().run(m, **kw), look))


def measure_events(rec, rng, root, n, scen):
    for k in range(n):
        tr = [[rng.random() < .5 for _ in range(2)] for _ in range(2)]
        wide = rng.choice([None, None, 3000, 40000])
        m = opened(rng, root, files_for(rng, scen, norm=False, maxm=5, tracks=tr, wide=wide))
        gh = attach(rng, m)
        rec.begin()
        D = data(m, gh)
        rec.rec("data", D=D)
        nmu = len(D["Nm"])
        every = list(range(1, nmu + 1))
        for _ in range(3):
            one = rng.randint(1, nmu)
            some = rng.sample(every, rng.randint(1, nmu))
            arg = rng.choice([0, 0, one, some, sorted(some)])
            sel = every if arg == 0 else ([arg] if isinstance(arg, int) else list(arg))
            kind = rng.choice(["measure", "measure", "adjust", "K"])
            given = list(arg) if isinstance(arg, list) else arg
            J, cov, dA, V, C = False, False, False, [], None
            if kind == "measure":
                J, cov = rng.random() < .5, rng.random() < .5 and wide is None
            if kind == "adjust":
                dA = rng.random() < .6
                J = dA and rng.random() < .6
            if cov:
                na = len(m.a)
                L = np.array([[rng.randint(-2, 2) for _ in range(na)] for _ in range(na)], dtype=float)
                C = L.dot(L.T)
                who = [str(s) for s in m.idx["parameter_sensor"]]
                V = [encm(C[np.ix_([i for i in range(na) if who[i] == s], [i for i in range(na) if who[i] == s])]) for s in D["sensors"]]

            def call():
                if kind == "measure":
                    kw = {"parameter_covariance_matrix": C} if cov else {}
                    return MM.evaluate_measurand(m, matchup_series=given, return_derivatives=J, **kw)
                if kind == "adjust":
                    return MM.evaluate_adjusted_measurand(m, matchup_series=given, return_derivatives=dA, return_measurand_derivatives=J)
                return MM.evaluate_K(m, matchup_series=given)

            def look(v):
                o = {"same": data(m, gh) == D and given == arg}
                if kind == "K":
                    o["k"] = encs(v, 1, 1e-2)
                    return o
                v = list(v) if isinstance(v, tuple) else [v]
                o["m"] = encm(v.pop(0), 1, 1e-2)
                if dA:
                    o["d"] = encm(v.pop(0), 1, 1e-2)
                if J:
                    o["J"] = [[encm(x, 1, 1e-2) for x in pair] for pair in v.pop(0)]
                if cov:
                    o["u2"] = [[enc(x, 1, .2) for x in row] for row in np.asarray(v.pop(0), dtype=float) ** 2]
                if v:
                    o["status"] = "more"
                return o
            rec.rec(kind, sel=sel, J=J, cov=cov, dA=dA, V=V, obs=observed(call, look))


def main(out, scen, prop):
    rng = random.Random(SEED * 7919 + 11)
    rec = Recorder(out)
    root = os.getcwd()
    sc = load(scen, [])
    rng.shuffle(sc)
    q = TIER == "quick"
    if prop == "P08":
        sample_events(rec, rng, root, 220 if q else 2500, sc)
    if prop == "P09":
        norm_events(rec, rng, root, 220 if q else 2500, sc)
    if prop == "P10":
        sim_events(rec, rng, root, 250 if q else 2500, sc)
    if prop == "P11":
        measure_events(rec, rng, root, 220 if q else 2500, sc)
    rec.close()


if __name__ == "__main__":
    main(*sys.argv[1:4])
