"""The sensor registry and the sensor models: as registered, at small exact numbers, and at ordinary numbers."""
import copy
import random
import sys

from common import *

import numpy as np
from harmonisation import open_matchup
from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory
from harmonisation.core.matchup.matchupToolbox.utils.matchup_maths import evaluate_measurand

H, C, KB = 6.626070040e-34, 299792458., 1.38064852e-23


def observed(fn, look):
    st, v = guarded(fn)
    obs = {"status": st}
    if st == "ok":
        st, o = guarded(lambda: look(v))
        obs = dict(o or {}, status=st)
    return obs


def untouched(f, args, look):
    """What f gives, and whether its arguments are as they were."""
    before = copy.deepcopy(args)
    o = observed(lambda: f(*args), look)
    if o["status"] == "ok":
        o["same"] = all(np.array_equal(np.asarray(p), np.asarray(q)) for p, q in zip(before, args))
    return o


def is_ref(d):
    return not d["sensor_model_parameter"]


def describe(sd):
    return {"sensors": [{"name": str(s), "m": int(d["sensor_model_variables_num"]), "n": len(d["sensor_model_parameter"]),
                         "ref": is_ref(d), "labels": len(d["sensor_model_variable_labels"]), "names": len(d["sensor_model_variable_names"]),
                         "distinct": len(set(d["sensor_model_variable_names"])) == len(d["sensor_model_variable_names"])} for s, d in sd.items()]}


def planck(v, T):
    return 2. * H * v ** 3 / C ** 2 / np.expm1(H * v / (KB * T))


def typical(rng, name):
    """Ordinary variables, parameters and steps."""
    u = rng.uniform
    if name.startswith("MW"):
        cs, ci = u(9000, 12000), u(40000, 50000)
        t = u(278, 288)
        x = [cs, ci] + [t + u(-.2, .2) for _ in range(5)] + [cs + u(.3, .9) * (ci - cs), u(320, 340)]
        # non-linearity and polarisation may be small or dominate
        big, pol = rng.choice([1e9, .3 / planck(1.83311e11, t)]), rng.choice([2e-3, .3])
        return x, [big * u(-1, 1), pol * u(-1, 1), u(-.8, .8)], [1, 1] + [.05] * 5 + [1, 1, big, pol, .05]
    if name.startswith("HIRS"):
        x = [u(-60, 60), u(-1200, -800), u(-700, -200), u(275, 295), u(-5e-14, 5e-14)]
        return x, [u(-1e-14, 1e-14), u(-.01, .01), u(-5e-18, 5e-18)], [.5, .5, .5, .05, 1e-15, 1e-14, 1e-2, 1e-18]
    x = [u(960, 1000), u(300, 600), u(350, 900), u(50, 120)]
    a, h = [u(-5, 5), u(-.02, .02), u(-5e-5, 5e-5)], [1., .01, 1e-5]
    timed = "um_4" in name or "37um_3" in name or name == "AVHRR_sim_4"
    if "37um" in name:
        a, h = a[:2], h[:2]
    if timed:
        x.append(u(270, 300))
        a.append(u(-.2, .2))
        h.append(.1)
    if "rescaled" in name:
        sc = [1, 1e3] + ([] if "37um" in name else [1e6]) + ([1e3] if timed else [])
        a, h = [y * s for y, s in zip(a, sc)], [y * s for y, s in zip(h, sc)]
    return x, a, [.2] * len(x) + h


def indices(rng, n):
    return [np.array([float(rng.randint(1, 89)) for _ in range(n)]), np.array([float(rng.randint(0, 9999)) for _ in range(n)]),
            np.array([rng.uniform(0, 1e9) for _ in range(n)])]


def slope(rec, rng, name, sensor, d):
    x, a, h = typical(rng, name)
    f, c = d["sensor_model"], d["sensor_model_constant"]
    n = len(x) + len(a)

    def go():
        # all points in one call, the derivatives in the first row
        rows, idx = 4 * len(x) + 1, indices(rng, 1)
        idx1 = [np.repeat(i, rows) for i in idx]
        X = np.array([x] * rows)
        for k in range(len(x)):
            for j, s in enumerate((1, -1, .5, -.5)):
                X[1 + 4 * k + j, k] += s * h[k]
        L, J = f(X, np.array(a), c, *idx1)
        up = [[L[1 + 4 * k + j] for j in range(4)] for k in range(len(x))]
        for k in range(len(a)):
            ls = []
            for s in (1, -1, .5, -.5):
                b = np.array(a)
                b[k] += s * h[len(x) + k]
                ls.append(f(np.array([x]), b, c, *idx)[0][0])
            up.append(ls)
        return L[0], J[0], up

    def look(v):
        L, J, up = v
        o = {"J": [], "slope": []}
        for k in range(n):
            d1, d2 = (up[k][0] - up[k][1]) / (2 * h[k]), (up[k][2] - up[k][3]) / h[k]
            s = (4 * d2 - d1) / 3
            unit = max(abs(s), abs(float(J[k])), abs(L) * 1e-8 / h[k]) / 1e6
            o["slope"].append(enc(s / unit, 1, .51))
            o["J"].append(enc(float(J[k]) / unit, 1, .51))
        return o
    rec.rec("slope", name=name, sensor=sensor, obs=observed(go, look))


EXACT = None


def exact(rec, rng, name, sensor, d, sc):
    hirs, timed, resc = name.startswith("HIRS"), "um_4" in name or "37um_3" in name or name == "AVHRR_sim_4", "rescaled" in name
    quad = "37um" not in name
    n = 2 + quad + timed
    if sc is not None:
        x, b = dict(sc["x"]), (list(sc["b"]) * 2)[:n]
    else:
        D = rng.choice([1, 2, 4, 8]) * rng.choice([1, -1])
        ci = rng.randint(-20, 20)
        x = {"cs": ci + D, "ci": ci, "ce": rng.randint(-20, 20), "r": rng.randint(1, 20), "t": rng.randint(-9, 9), "s": rng.randint(-5, 5)}
        b = [rng.randint(-20, 20) for _ in range(n)]
    em, t0 = (98000 if hirs else 98514), (285 if resc else 0)
    scales = [1, 1000] + [1000000] * quad + [1000] * timed if resc else [1] * n
    D = x["cs"] - x["ci"]
    u = 1e-13 if hirs else 1.
    a = [y / 16. for y in b]
    a[1] -= em / 1e5
    a = [y * s for y, s in zip(a, scales)]
    consts, p = d["sensor_model_constant"], 0
    X = [x["cs"], x["ci"], x["ce"], x["r"]]
    if hirs:
        a[0] *= u
        a[2] *= u
        v, al, be = consts
        # a temperature at which the target has the radiance
        T = H * v / (KB * np.log1p(2. * H * v ** 3 / C ** 2 / (x["r"] * u)))
        E = np.exp(H * v / (KB * T))
        p = int(round(1024 / u * be * (x["r"] * u) * E / (E - 1) * H * v / (KB * T * T)))
        X = [x["cs"], x["ci"], x["ce"], (T - al) / be, x["s"] * u]
    elif timed:
        X.append(t0 + x["t"])
    M = 1500 if rng.random() < .03 else rng.randint(1, 5)
    at = rng.randrange(M)
    # beside match-ups of other counts, temperatures and radiances
    Xs = np.array([X if k == at else typical(rng, name)[0] for k in range(M)], dtype=float)

    def look(v):
        L, J = v
        J = [float(y) for y in J[at]]
        m = len(X)
        w = [16. * D * D / u] * m
        if hirs:
            w = [16. * D * D / u] * 3 + [16. * D * D / u * 1024, 16. * D * D]
        ps = [1., 1. / u, 1.] if hirs else [1.] * n
        o = [enc(y * z, 1, .01) for y, z in zip(J[:m], w)] + [enc(y * D * D * q * s, 1, .01) for y, q, s in zip(J[m:], ps, scales)]
        if hirs:
            o[3] = enc(J[3] * w[3], 1, .6)
        return {"L": enc(L[at] * 16 * D / u, 1, .01), "J": o}
    rec.rec("exact", name=name, sensor=sensor, x=x, b=b, em=em, slope=p,
            obs=untouched(d["sensor_model"], [Xs, np.array(a), consts] + indices(rng, M), look))


def table(channel):
    """Rows of a coefficients file, read here."""
    path = os.path.join(os.environ["VERIF_TREE"], "harmonisation_eiv/harmonisation/sensor_data/HIRS/coeffs/coef_ch%d.dat" % channel)
    with open(path, encoding="utf-8") as f:
        rows = [line.split() for line in f.read().splitlines()[1:] if line.strip()]
    return [{"name": r[0], "c": [repr(float(y)) for y in r[1:4]]} for r in rows]


def points(rec, rng, name, sensor, d):
    """The microwave model at its calibration targets, without antenna correction."""
    x, a, _ = typical(rng, name)
    c = list(d["sensor_model_constant"])
    v, al, be, dT = c[-4:]
    t = x[2]
    idx = [np.array([float(rng.randint(1, 89))])] + [np.array([0.])] * 2
    rj = C ** 2 / (2 * v ** 2 * KB)

    def at(ce, *pars):
        y = [x[0], x[1]] + [t] * 5 + [ce, x[8]]
        return float(d["sensor_model"](np.array([y]), np.array(pars), d["sensor_model_constant"], *idx)[0][0])
    rec.rec("points", name=name, sensor=sensor, ict=enc(rj * planck(v, al + be * (t + dT)), 1e6, .51),
            space=enc(rj * planck(v, al + be * (2.72548 + a[2])), 1e6, .51),
            obs=observed(lambda: (at(x[1], *a), at(x[0], a[0], 0., a[2]), at((x[0] + x[1]) / 2, 0., 0., a[2])),
                         lambda w: dict(zip(("ict", "space", "half"), [enc(y, 1e6, .51) for y in w]))))


def radiometer(rec, rng, name, sensor, d):
    """The microwave model in units of what the warm target exceeds the background by."""
    c = list(d["sensor_model_constant"])
    v, al, be, dT = c[-4:]
    D = rng.choice([1, 2, 4, 8]) * rng.choice([1, -1])
    cs = rng.randint(-20, 20)
    x = {"cs": cs, "ci": cs + D, "ce": rng.randint(-20, 20)}
    i, A, P, g = rng.randint(1, 89), rng.randint(-20, 20), rng.randint(-8, 8), rng.choice([1, 2, 4])
    w = [rng.randint(0, 5) for _ in range(4)] + [rng.randint(1, 5)]
    k = [1. / rng.choice([1, 2, 4]) for _ in c[:-9]]
    k[i] = 1. / g
    ts = [rng.uniform(270, 290) for _ in range(5)]
    t = sum(p * q for p, q in zip(w, ts)) / sum(w)
    cold = planck(v, al + be * 2.72548)
    u = planck(v, al + be * (t + dT)) - cold
    rj = C ** 2 / (2 * v ** 2 * KB)
    angles = np.cos(2 * np.pi / 180 * 1.111 * (i - 45.5)) - np.cos(2 * np.pi / 180 * 73.6)
    pars = [A / 16. / u, 2 * P / 16. / angles, 0.]
    row = [x["cs"], x["ci"]] + ts + [x["ce"], rng.randint(0, 9)]
    M = 1500 if rng.random() < .03 else rng.randint(1, 5)
    at = rng.randrange(M)
    X = np.array([row if q == at else typical(rng, name)[0] for q in range(M)], dtype=float)
    idx = [np.array([float(i if q == at else rng.randint(1, 89)) for q in range(M)])] + [np.zeros(M)] * 2
    rec.rec("radiometer", name=name, sensor=sensor, x=x, a1=A, pol=P, g=g, obs=untouched(
        d["sensor_model"], [X, np.array(pars), np.array(k + w + c[-4:])] + idx,
        lambda y: {"L": enc((y[0][at] / rj - cold) / u * 256 * D * D, 1, .05)}))


def call(rec, rng, root, name, sd, one, two):
    M = rng.randint(1, 4)
    path = os.path.join(root, "d")
    os.mkdir(path)
    X = {}
    for s in (one, two):
        d = sd[s]
        X[s] = [typical(rng, name)[0] for _ in range(M)] if not is_ref(d) else [[rng.randint(100, 300)] for _ in range(M)]
    idx = [[k + 1 for k in range(M)] for _ in range(4)]
    from netCDF4 import Dataset
    f = Dataset(os.path.join(path, "a.nc"), "w")
    f.sensor_1_name, f.sensor_2_name = one, two
    f.createDimension("M", M)

    def v(nm, t, dims, data):
        f.createVariable(nm, t, dims)[:] = np.array(data)
    for p, s in ((1, one), (2, two)):
        m = len(X[s][0])
        f.createDimension("m%d" % p, m)
        mm = ("M", "m%d" % p)
        v("X%d" % p, "f8", mm, X[s])
        v("Ur%d" % p, "f8", mm, np.ones((M, m)))
        v("Us%d" % p, "f8", mm, np.zeros((M, m)))
        v("uncertainty_type%d" % p, "i4", mm[1:], [1] * m)
        v("time%d" % p, "f8", ("M",), np.arange(M))
        v("across_track_index%d" % p, "i4", ("M",), idx[0])
        v("along_track_index%d" % p, "i4", ("M",), idx[0])
    for nm in ("K", "Kr", "Ks"):
        v(nm, "f8", ("M",), np.ones(M))
    f.close()
    before = copy.deepcopy(describe(sd))
    frozen = {s: (list(d["sensor_model_parameter"]), list(d["sensor_model_constant"])) for s, d in sd.items()}

    def go():
        m = open_matchup(path)
        m.setSensorData(sd)
        return evaluate_measurand(m), m

    st, v = guarded(go)
    for p, s in enumerate((one, two)):
        d = sd[s]

        def direct():
            return d["sensor_model"](np.array(X[s], dtype=float), np.array(d["sensor_model_parameter"]), d["sensor_model_constant"],
                                     *[np.array(idx[0], dtype=float), np.array(idx[0], dtype=float), np.arange(M, dtype=float)])

        def look(w):
            L, J = w
            e = np.asarray(v[0])
            return {"M": len(e[:, p]), "finite": bool(np.all(np.isfinite(e[:, p]))), "J": [] if J is None else list(J.shape),
                    "same": [float(y) for y in e[:, p]] == [float(np.float32(y[0])) for y in X[s]] if is_ref(d) else True}
        rec.rec("call", name=name, sensor=s, ref=is_ref(d), M=M, obs=observed(direct, look) if st == "ok" else {"status": st})
    rec.rec("kept", name=name, obs={"status": "ok", "same": describe(sd) == before and
                                    frozen == {s: (list(d["sensor_model_parameter"]), list(d["sensor_model_constant"])) for s, d in sd.items()}})
    import shutil
    shutil.rmtree(path)


def main(out, scen, prop):
    rng = random.Random(SEED * 7177 + 11)
    rec = Recorder(out)
    root = os.getcwd()
    q = TIER == "quick"
    rec.begin()
    st, fac = guarded(SensorDataFactory)
    rec.rec("names", obs=observed(lambda: fac.get_names(), lambda v: {"names": [str(s) for s in v]}))
    names = [str(s) for s in fac.get_names()]
    scens = load(scen, [])
    rng.shuffle(scens)
    for name in names:
        rec.begin()
        st, sd = guarded(lambda: SensorDataFactory().get_sensor_data(name))
        rec.rec("set", name=name, obs=observed(lambda: sd, describe) if st == "ok" else {"status": st})
        if st != "ok":
            continue
        sensors = list(sd)
        refs = [s for s in sensors if is_ref(sd[s])]
        own = [s for s in sensors if not is_ref(sd[s])]
        for k in range(len(own)):
            one = rng.choice(refs) if refs and rng.random() < .5 else rng.choice([s for s in sensors if s != own[k]] or own)
            call(rec, rng, root, name, sd, *rng.sample([one, own[k]], 2))
        for s in own:
            for _ in range(1 if q else 6):
                slope(rec, rng, name, s, sd[s])
        if name.startswith("HIRS"):
            rec.rec("constants", name=name, table=table(int(name[8:10])), obs=observed(
                lambda: sd, lambda v: {"sensors": [{"name": str(s), "c": [repr(float(y)) for y in v[s]["sensor_model_constant"]]} for s in own]}))
        if name.startswith("MW"):
            for s in own:
                for _ in range(3 if q else 20):
                    points(rec, rng, name, s, sd[s])
                    radiometer(rec, rng, name, s, sd[s])
                    slope(rec, rng, name, s, sd[s])
        else:
            k = (4 if name.startswith("HIRS") else 12) * (1 if q else 12)
            for _ in range(k):
                exact(rec, rng, name, "", sd[rng.choice(own)], scens.pop() if scens and rng.random() < .5 else None)
    rec.close()


if __name__ == "__main__":
    main(*sys.argv[1:4])
