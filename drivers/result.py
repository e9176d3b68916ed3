"""Harmonisation results: saved, read independently, opened, saved again."""
import copy
import random
import shutil
import sys

from common import *

import numpy as np
from netCDF4 import Dataset
from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult import HarmonisationResult


def observed(fn, look):
    st, v = guarded(fn)
    obs = {"status": st}
    if st == "ok":
        st, o = guarded(lambda: look(v))
        obs = dict(o or {}, status=st)
    return obs


def layout(F):
    sensors, ms = [], []
    for f in F:
        for s, m in zip(f["s"], f["m"]):
            if s not in sensors:
                sensors.append(s)
                ms.append(m)
    Im = [[sensors.index(s) for s in f["s"]] for f in F]
    Nm = [f["M"] for f in F]
    blocks = [(n, mu + 1, c, p) for c in range(1, max(ms) + 1) for mu, pair in enumerate(Im) for p, n in enumerate(pair) if c <= ms[n]]
    idx = {"Nm": Nm, "cNm": [sum(Nm[:i]) for i in range(len(Nm) + 1)], "Im": Im, "sensors": sensors, "sensor_ms": ms,
           "n_sensor": [b[0] for b in blocks], "n_mu": [b[1] for b in blocks], "n_cov": [b[2] for b in blocks]}
    idx["N_var"] = [Nm[b[1] - 1] for b in blocks]
    idx["idx"] = [sum(idx["N_var"][:i]) for i in range(len(blocks) + 1)]
    return idx, blocks


def text(rows):
    out = []
    for row in rows:
        if isinstance(row, (str, bytes)):
            row = [row]
        out.append("".join(x.decode() if isinstance(x, bytes) else str(x) for x in np.ma.filled(row, b"")).strip())
    return out


def plain(v):
    return v.item() if hasattr(v, "item") else v


def make(rng, F, hasX):
    ms = {s: m for f in F for s, m in zip(f["s"], f["m"])}
    sens = sorted(ms)
    n = rng.randint(1, 5)
    R = {"F": F, "hasX": hasX,
         "X": [[[[big(rng, -60, 60) for _ in range(f["m"][p])] for _ in range(f["M"])] for p in range(2)] for f in F],
         "k": [[big(rng, -60, 60) for _ in range(f["M"])] for f in F],
         "par": [big(rng, -60, 60) for _ in range(n)], "sen": [rng.choice(sens) for _ in range(n)],
         "cov": [[big(rng, -60, 60) for _ in range(n)] for _ in range(n)],
         "stats": [rng.choice([rng.randint(0, 4000), rng.randint(0, 2 ** 30)]), rng.randint(-5, 900), rng.choice([0, 16, 1024])] if rng.random() < .8 else [NONE] * 3,
         "attrs": [[k, rng.choice(["3", "FO", "1.0", "2018-01_x y", "job", "x" * 200, ""])] for k in ("software", "software_version", "job_id", "matchup_dataset", "note", "r_factor", "cost_function", "parameter_names")
                   if rng.random() < .6],
         "extra": []}
    if rng.random() < .5:
        k = rng.randint(1, 4)
        R["extra"].append(["systematic_errors", "f4", ["s"], "Fitted systematic errors", [k], [rng.randint(-99, 99) for _ in range(k)]])
        R["extra"].append(["systematic_error_sensors", "S1", ["s"], rng.choice(["", "Sensors for them"]), [k], [rng.choice(sens) for _ in range(k)]])
    if rng.random() < .4:
        k = rng.randint(1, 6)
        R["extra"].append(["weights", "f8", [rng.choice(["w", "weight"])], "", [k], [big(rng, -60, 60) for _ in range(k)]])
    if rng.random() < .3:
        k = [rng.randint(1, 3), rng.randint(1, 4)]
        R["extra"].append(["blocks", rng.choice(["f8", "i4"]), ["a", "c"], "A table", k, [big(rng, -60, 60) for _ in range(k[0] * k[1])]])
    if rng.random() < .2:
        R["extra"].append(["start", "f8", ["n"], "As many as parameters", [n], [big(rng, -60, 60) for _ in range(n)]])
    return R


# the numbers of a result are whole multiples of a unit: covariances are small, residuals may be large
SCALES = [2. ** 20, 2. ** 20, 2. ** 50, 2. ** 80, 2. ** -20]
UNIT = {"f4": 4, "f8": SC, "i4": 1}


def rescale(x):
    global SC
    SC = UNIT["f8"] = x


def build(R):
    idx, blocks = layout(R["F"])
    r = HarmonisationResult()
    r.parameter = np.array(R["par"], dtype=float) / SC
    r.parameter_sensors = list(R["sen"])
    r.parameter_covariance_matrix = np.array(R["cov"], dtype=float) / SC
    r.cost, r.cost_dof, r.cost_p_value = [None if x == NONE else x / 16. for x in R["stats"]]
    r.idx = idx
    r.ks_res = np.array([x for k in R["k"] for x in k], dtype=float) / SC
    r.values_res = None
    if R["hasX"]:
        r.values_res = np.array([row[c - 1] for n, mu, c, p in blocks for row in R["X"][mu - 1][p]], dtype=float) / SC
    r.additional_attributes = {k: v for k, v in R["attrs"]}
    for name, t, dims, note, shape, v in R["extra"]:
        data = list(v) if t == "S1" else (np.array(v, dtype=float) / UNIT[t]).reshape(shape).astype(t)
        r.additional_variables[name] = {"data": data, "dim": "".join(dims) if max(map(len, dims)) == 1 else tuple(dims), "dtype": t}
        if note:
            r.additional_variables[name]["Description"] = note
    return r


KEYS = ("parameter", "parameter_covariance_matrix", "values_res", "ks_res")


def frozen(r):
    return [None if getattr(r, k) is None else np.array(getattr(r, k)).tolist() for k in KEYS] + [list(r.parameter_sensors), copy.deepcopy(r.idx),
            dict(r.additional_attributes), r.cost, r.cost_dof, r.cost_p_value,
            {n: {k: (np.ma.asarray(x).tolist(), type(x).__name__) if k == "data" else x for k, x in v.items()} for n, v in r.additional_variables.items()}]


def out_of(par, sen, cov, stats, attrs, extra):
    return {"par": encs(par, SC), "sen": [str(s).strip() for s in sen], "cov": encm(cov, SC), "stats": [enc(x, 16) for x in stats],
            "attrs": sorted([str(k), str(plain(v))] for k, v in attrs.items()),
            "extra": sorted(extra)}


def extra_of(name, dtype, dims, note, v):
    if dtype == "S1":
        return [str(name), "S1", [str(x) for x in dims], str(note), [len(v)], text(v)]
    v = np.ma.asarray(v)
    return [str(name), dtype, [str(x) for x in dims], str(note), list(v.shape), encs(v.ravel(), UNIT.get(dtype, SC))]


def read_out(path):
    d = Dataset(path)
    own = ("cost", "cost_dof", "cost_p_value")
    o = out_of(d.variables["parameter"][:], text(d.variables["parameter_sensors"][:]), d.variables["parameter_covariance_matrix"][:],
               [getattr(d, k, None) for k in own], {k: d.getncattr(k) for k in d.ncattrs() if k not in own},
               [extra_of(n, v.dtype.str[1:], v.dimensions[:-1] if v.dtype.kind in "SU" else v.dimensions, getattr(v, "Description", ""), v[:])
                for n, v in d.variables.items() if not n.startswith("parameter")])
    d.close()
    return o


def read_res(path):
    d = Dataset(path)
    f = {"s": [str(d.sensor_1_name), str(d.sensor_2_name)], "M": len(d.dimensions["M"]), "k": encs(d.variables["k_res"][:], SC), "X": []}
    if "X1_res" in d.variables:
        f["X"] = [encm(d.variables["X%d_res" % (p + 1)][:], SC) for p in range(2)]
    d.close()
    return f


def names_of(d, stem):
    fs = sorted(x for x in os.listdir(d) if x.endswith(".nc"))
    return [x for x in fs if x == stem], [x for x in fs if x != stem]


def look_dir(d, stem):
    out, res = names_of(d, stem)
    return {"n": len(out), "out": read_out(os.path.join(d, stem)) if out else None, "files": [read_res(os.path.join(d, x)) for x in res]}


def look_opened(r):
    idx = r.idx
    o = {"out": out_of(r.parameter, r.parameter_sensors, r.parameter_covariance_matrix, [r.cost, r.cost_dof, r.cost_p_value],
                       r.additional_attributes, [extra_of(n, str(v["dtype"]), v["dim"], v.get("Description", ""), v["data"]) for n, v in r.additional_variables.items()]),
         "hask": r.ks_res is not None, "hasv": r.values_res is not None, "ks": encs(r.ks_res, SC), "values": encs(r.values_res, SC)}
    if idx is not None:
        o["idx"] = {k: ints(idx[k]) for k in ("Nm", "cNm", "n_sensor", "n_mu", "n_cov", "N_var", "idx", "sensor_ms") if k in idx}
        o["idx"]["Im"] = [ints(p) for p in idx["Im"]]
        o["idx"]["sensors"] = [str(s) for s in idx["sensors"]]
    return o


STEMS = ["harm_FO_3_abc_1_R__.nc", "harm.nc", "harm_meiv.v1.0.nc", "harm_x_2018.nc"]


def main(out, scen, prop):
    rng = random.Random(SEED * 2477 + 3)
    rec = Recorder(out)
    root = os.getcwd()
    scens = load(scen, [])
    rng.shuffle(scens)
    for k in range(150 if TIER == "quick" else 2500):
        names = rng.sample(["m02", "n19", "n15", "aatsr", "0", "metop-a", "MetOp B", "avhrr_noaa19_channel_3b_of_the_longest_name_that_was_ever_given_to_one_of_these_"], 4)
        if scens and rng.random() < .5:
            sc = scens.pop()
            F = [{"s": [names[x - 1] for x in f["s"]], "M": f["M"], "m": f["m"]} for f in sc["F"]]
            hasX = sc["hasX"]
        else:
            ms = {s: rng.randint(1, 3) for s in names}
            F = []
            for _ in range(rng.randint(1, 4)):
                pair = rng.sample(names, 2) if not F or rng.random() < .8 else list(rng.choice(F)["s"])
                F.append({"s": pair, "M": rng.randint(1, 5), "m": [ms[s] for s in pair]})
            hasX = rng.random() < .75
        rec.begin()
        rescale(rng.choice(SCALES))
        R = make(rng, F, hasX)
        d = os.path.join(root, "result")
        os.mkdir(d)
        if rng.random() < .5:
            os.mkdir(os.path.join(d, "plots"))
            open(os.path.join(d, "job.cfg"), "w").close()
        stem = rng.choice(STEMS)
        r = build(R)
        before = frozen(r)
        withres = rng.random() < .8
        rec.rec("saved", R=R, res=withres, obs=observed(lambda: r.save(os.path.join(d, stem)) if withres else r.save(os.path.join(d, stem), save_residuals=False),
                                                     lambda v: dict(look_dir(d, stem), same=frozen(r) == before)))
        st, seen = guarded(lambda: look_dir(d, stem))
        files = seen["files"] if st == "ok" else None           # otherwise what was saved has been recorded as unreadable
        if files is not None and os.path.exists(os.path.join(d, stem)):
            op = rng.random() < .8
            rec.rec("opened", R=R, res=op, files=files, obs=observed(lambda: HarmonisationResult(d) if op else HarmonisationResult(d, open_residuals=False), look_opened))
            if op and withres and rng.random() < .5:
                st, q = guarded(lambda: HarmonisationResult(d))
                if st == "ok":
                    d2 = os.path.join(root, "again")
                    os.mkdir(d2)
                    before2 = frozen(q)
                    rec.rec("saved", R=R, res=True, obs=observed(lambda: q.save(os.path.join(d2, stem)),
                                                                lambda v: dict(look_dir(d2, stem), same=frozen(q) == before2)))
                    shutil.rmtree(d2)
                    how = rng.randrange(3)
                    rec.rec("closed", how=how, obs=closing(q, how))
            n = 1
            if rng.random() < .2:
                os.remove(os.path.join(d, stem))
                n = 0
            elif rng.random() < .2:
                shutil.copy(os.path.join(d, stem), os.path.join(d, "harm_other.nc"))
                n = 2
            rec.rec("found", n=n, obs=observed(lambda: HarmonisationResult(d, open_residuals=False), lambda v: {}))
        shutil.rmtree(d)
    rec.close()


if __name__ == "__main__":
    main(*sys.argv[1:4])
