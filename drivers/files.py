"""Writers of match-up files, weight-matrix functions, input checker: puts files through them and records the outcome."""
import contextlib
import copy
import hashlib
import io
import os
import random
import sys

from common import *
sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))

import numpy as np
from netCDF4 import Dataset
from scipy.sparse import csr_matrix
from harmonisation import open_matchup
from harmonisation.core.matchup.matchupIO.MatchUpWriter import MatchUpWriter
import W_matrix_functions as WF
import generate_w_matrices as GW
import harmonisation_input_checker as HC
from files_dump import dump, scale_of

def said(path, names):
    d = Dataset(path)
    out = {n: str(getattr(d.variables[n], "Description", "")) if n in d.variables else "" for n in names}
    d.close()
    return out


def bits(x):
    return hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest()


def bits_of(path):
    d = Dataset(path)
    d.set_auto_mask(False)
    out = {str(n): bits(v[:]) for n, v in d.variables.items()}
    d.close()
    return out


def kind(x):
    return x if isinstance(x, str) else "a number, %d" % x


def to_csr(w, M=None):
    n = max(w["col"]) + 1
    return csr_matrix((np.array(w["val"], dtype=float) / SC, np.array(w["col"], dtype=np.int32), np.array(w["row"], dtype=np.int32)),
                      shape=(len(w["row"]) - 1, n))


# ---- writing ---------------------------------------------------------------------------------------------------------

def arrays(f):
    a = {}
    for p in range(2):
        q = str(p + 1)
        for n in ("X", "Ur", "Us"):
            a[n + q] = np.array(f[n][p], dtype=float).reshape(f["M"], f["m"][p]) / SC
        a["uncertainty_type" + q] = np.array(f["ut"][p])
        a["time" + q] = np.array(f["t"][p], dtype=float) + np.array([(x * 7 + p) % 4 for x in f["t"][p]]) / 4.
    for n in ("K", "Kr", "Ks"):
        a[n] = np.array(f[n], dtype=float) / SC
    return a


def described(f, extra, a=None):
    a = a or arrays(f)
    vs = {}
    for n, x in a.items():
        dims = {"X": 2, "U": 2}.get(n[0], 1)
        q = n[-1]
        d = ["M", "m" + q] if dims == 2 else (["m" + q] if n.startswith("uncertainty") else ["M"])
        vs[n] = {"dims": d, "dtype": "int32" if n.startswith("uncertainty") else "float64",
                 "v": encs(x, scale_of(n)) if x.ndim == 1 else encm(x, scale_of(n))}
    for n, e in extra.items():
        vs[n] = {"dims": list(e["dim"]), "dtype": {"f8": "float64", "f4": "float32", "i4": "int32"}[e["dtype"]],
                 "v": encs(e["data"], SC) if e["data"].ndim == 1 else encm(e["data"], SC)}
    return vs


def write_events(rec, rng, root, n, scen):
    shapes = []
    for k in range(n):
        M, m = rng.randint(1, 6), [rng.randint(1, 4), rng.randint(1, 4)]
        names = rng.sample(["m02", "aatsr", "7", "n19"], 2)
        f = random_file(rng, names, M, m)
        if scen and k % 2 == 0:
            f = scenario_file(rng, names, scen.pop())
            M, m = f["M"], f["m"]
        f["X"] = [[[big(rng, -60, 60) for _ in row] for row in x] for x in f["X"]]
        extra = {}
        for j in range(rng.choice([0, 1, 2, 3, 3, 12])):
            dims = rng.choice([("M",), ("M", "m1"), ("m2",), ("M", "m2")])
            shape = [{"M": M, "m1": m[0], "m2": m[1]}[x] for x in dims]
            t = rng.choice(["f8", "f4", "i4"])
            data = np.array([big(rng, -99, 99, 23) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
            data = data / SC if t != "i4" else data
            extra["extra%d" % j] = {"data": data.astype({"f8": float, "f4": np.float32, "i4": np.int32}[t]), "dtype": t, "dim": dims,
                                    "Description": rng.choice(["d%d", " d%d, of x ", "d%d:\n"]) % j}
        a = arrays(f)
        if rng.random() < .4:       # every digit of a double, of either sign
            for x in a:
                if x.startswith("time"):
                    a[x] = a[x] + np.array([rng.random() for _ in range(M)])
                elif not x.startswith("unc"):
                    a[x] = a[x] * rng.choice([-1, 1, 1e-9, 1e9]) + np.array([rng.uniform(-1, 1) for _ in range(a[x].size)]).reshape(a[x].shape)
        if f["W"]:
            fine_matrices(rng, f)
        path = os.path.join(root, "w%d.nc" % k)
        if not f["W"] and rng.random() < .2:        # numbers as names, as the documentation has it
            names = rng.sample(range(-12, 20), 2)
        kw = {"additional_variables": extra} if extra or rng.random() < .5 else {}
        args = [path, a["X1"], a["X2"], a["Ur1"], a["Ur2"], a["Us1"], a["Us2"], a["uncertainty_type1"], a["uncertainty_type2"],
                a["K"], a["Kr"], a["Ks"], a["time1"], a["time2"], names[0], names[1]]
        api = rng.choice(["class", "tools"])
        if rng.random() < .2:       # there is a file already
            g = Dataset(path, "w")
            g.sensor_1_name = g.old = "old"
            g.createDimension("M", rng.randint(1, 9))
            g.createDimension("other", 2)
            g.createVariable(rng.choice(["X1", "K", "old"]), "f8", ("M",))[:] = 1
            g.close()
        keep = {x: a[x].copy() for x in a}
        fn = MatchUpWriter().write_input_file if api == "class" else WF.write_input_file
        rec.begin()
        st, _ = guarded(lambda: fn(*args, **kw))
        obs = {"status": st}
        if st == "ok":
            st, o = guarded(lambda: dump(path))
            if st == "ok":
                g = Dataset(path)
                o["attrs"] = {x: kind(getattr(g, x)) for x in g.ncattrs()}
                g.close()
            obs = dict(o or {}, status=st, said=said(path, extra) if st == "ok" else {}, bits=bits_of(path) if st == "ok" else {},
                       same=all(np.array_equal(a[x], keep[x]) for x in a))
        vs = described(f, extra, a)
        wanted = {x: bits(np.asarray(a[x], dtype=vs[x]["dtype"])) for x in a}
        wanted.update({x: bits(e["data"]) for x, e in extra.items()})
        rec.rec("write", api=api, attrs={"sensor_1_name": kind(names[0]), "sensor_2_name": kind(names[1])},
                sizes={"M": M, "m1": m[0], "m2": m[1]}, vars=vs, bits=wanted, said={n: e["Description"] for n, e in extra.items()}, obs=obs)
        if st == "ok" and f["W"]:
            append_events(rec, rng, path, f)
        if os.path.exists(path):
            os.remove(path)


def scenario_file(rng, names, sc):
    """A file with the matrices of a scenario of the specification, used by random columns."""
    W, U = sc["W"], sc["U"]
    M = len(W[0]["row"]) - 1
    f = random_file(rng, names, M, [rng.randint(1, 4), rng.randint(1, 4)], types=(1, 2))
    pairs = [(i + 1, j + 1) for i in range(len(W)) for j in range(len(U)) if max(W[i]["col"]) + 1 == len(U[j])]
    for p in range(2):
        for c in range(f["m"][p]):
            if pairs and rng.random() < .7:
                w, u = rng.choice(pairs)
                f["wuse"][p][c], f["uuse"][p][c] = w, u
                f["ut"][p][c] = rng.choice([3, 4])
    f["W"], f["U"] = W, U
    return f


def fine_matrices(rng, f):
    """Weights and uncertainties that need many digits, and weights of zero that are kept."""
    for x, top in [(w["val"], max(w["val"])) for w in f["W"]] + [(u, max(u)) for u in f["U"]]:
        if rng.random() < .5:
            k = rng.randint(1, max(1, (2 ** 30) // max(top, 1)))
            x[:] = [y * k for y in x]
    for w in f["W"]:
        if rng.random() < .2 and len(w["val"]) > 1:
            w["val"][rng.randrange(len(w["val"]))] = 0
    for u in f["U"]:
        if rng.random() < .1:
            u[rng.randrange(len(u))] = 0


def wide_events(rec, rng, n):
    """Matrices of many columns, and long lists."""
    for k in range(n):
        M = rng.randint(1, 5)
        W, U = [], []
        for _ in range(rng.choice([1, 2, 3, 7])):
            w = random_w(rng, M)
            at = rng.choice([100, 33000, 70000, 3000000])
            w["col"] = [x + at for x in w["col"]]
            W.append(w)
        for _ in range(rng.choice([1, 2, 3, 9])):
            U.append([big(rng, 1, 9) for _ in range(rng.randint(1, 6))])
        rec.begin()
        serial_event(rec, {"W": W, "U": U})


def serial_event(rec, f):
    W, U = [to_csr(w) for w in f["W"]], [np.array(u, dtype=float) / SC for u in f["U"]]
    keep = [(w.data.copy(), w.indices.copy(), w.indptr.copy()) for w in W], [u.copy() for u in U]
    st, v = guarded(lambda: WF.return_w_matrix_variables(W, U))
    obs = {"status": st}
    if st == "ok":
        st, o = guarded(lambda: {"val": encs(v[0], SC), "row": encm(v[1]), "col": encs(v[2]), "nnz": encs(v[3]), "ucount": encs(v[4]),
                                 "uval": encs(v[5], SC)})
        obs = dict(o or {}, status=st)
    obs["same"] = all(np.array_equal(x, y) for w, k in zip(W, keep[0]) for x, y in zip((w.data, w.indices, w.indptr), k)) and \
        all(np.array_equal(x, y) for x, y in zip(U, keep[1]))
    rec.rec("serial", W=f["W"], U=f["U"], obs=obs)
    return st, v


def append_events(rec, rng, path, f):
    st, v = serial_event(rec, f)
    if st != "ok":
        return
    st, _ = guarded(lambda: WF.append_W_to_input_file(path, v[0], v[1], v[2], v[3], v[4], v[5], np.array(f["wuse"][0]),
                                                      np.array(f["wuse"][1]), np.array(f["uuse"][0]), np.array(f["uuse"][1])))
    obs = {"status": st}
    if st == "ok":
        def look():
            o = dump(path)
            m = open_matchup(path)
            o["read"] = []
            blocks = list(zip(m.idx["n_sensor"], m.idx["n_cov"]))
            for p in range(2):
                row = []
                for c in range(f["m"][p]):
                    u = m.unc[blocks.index((m.idx["Im"][0][p], c + 1))]
                    if getattr(u, "typeID", 0) in (3, 4):
                        row.append({"has": True, "W": encm(m.w_matrices[u.w_i], SC), "U": encs(m.u_matrices[u.u_i], SC)})
                    else:
                        row.append({"has": False, "W": [], "U": []})
                o["read"].append(row)
            return o
        st, o = guarded(look)
        obs = dict(o or {}, status=st)
    rec.rec("append", W=f["W"], U=f["U"], wuse=f["wuse"], uuse=f["uuse"], obs=obs)


# ---- rolling averages --------------------------------------------------------------------------------------------------

WS = 840


def roll_events(rec, rng, n, scen):
    for k in range(n):
        rec.begin()
        if scen and k % 2 == 0:
            sc = scen.pop()
            t, kernel = sc["t"], sc["k"]
        else:
            M = rng.randint(1, 9)
            while True:
                pos = [rng.randint(0, 14) for _ in range(M)] if rng.random() < .4 else sorted(rng.randint(0, 25) for _ in range(M))
                t = [10 * p + rng.choice([0, 0, 1, -2, 3]) for p in pos]
                if all((x - t[0]) % 10 != 5 for x in t):
                    break
            kernel = rng.randint(1, 6)
        M = len(t)
        dt = rng.choice([0.5, 1.0, 0.25, 2.0, 6.4, 8. / 3, .15, .02, .004, .5 / 86400])
        t0 = rng.choice([0., 1000., 86400. * 365])
        times = np.array([t0 + x * dt / 10 for x in t])
        single = rng.random() < .5
        explicit = rng.random() < .4
        if explicit:
            w = [rng.choice([0, 1, 2, 3, 4, rng.randint(1, 1 << 29)]) for _ in range(kernel)]
            if not any(w):
                w[0] = 1
            wsc = 2 ** 29
            weights = np.array(w, dtype=float) / wsc
        else:
            w, weights, wsc = [WS // kernel] * kernel, None, WS
        u = [[big(rng, 1, 9) for _ in range(kernel)] for _ in range(M)]
        if not single and rng.random() < .3:
            u = [[0 if rng.random() < .2 else x for x in r] for r in u]
        unc = rng.choice([float, float, np.float64])(u[0][0] / float(SC)) if single else np.array(u, dtype=float) / SC
        kw = {}
        if weights is not None:
            kw["weights"] = weights
        elif single or rng.random() < .5:
            kw["kernel_size"] = kernel
        keep = [times.copy(), copy.deepcopy(unc), None if weights is None else weights.copy()]
        st, v = guarded(lambda: GW.generate_rolling_average_w_matrix(times, dt, unc, **kw))
        obs = {"status": st}
        if st == "ok":
            st, o = guarded(lambda: {"W": encm(v[0], wsc, 1e-9), "U": encs(np.asarray(v[1]).ravel(), SC),
                                     "same": bool(np.array_equal(keep[0], times) and np.array_equal(keep[1], unc) and
                                                  (weights is None or np.array_equal(keep[2], weights)))})
            obs = dict(o or {}, status=st)
        rec.rec("roll", t=t, w=w, u=u, single=single, obs=obs)


# ---- the input checker ---------------------------------------------------------------------------------------------------

def valid_desc(rng):
    """The description of a file that satisfies every rule."""
    M, m = rng.randint(1, 5), [rng.randint(1, 3), rng.randint(1, 3)]
    f = random_file(rng, rng.sample(["m02", "aatsr", "7", "n19"], 2), M, m, types=(1, 2, 3, 4) if rng.random() < .7 else (1, 2))
    f["Kr"] = [rng.randint(1, 9) if x == 0 else x for x in f["Kr"]]
    vs = described(f, {})
    sizes = {"M": M, "m1": m[0], "m2": m[1]}
    if f["W"]:
        sizes.update(w_matrix_count=len(f["W"]), w_matrix_row_count=M + 1, w_matrix_nnz_sum=sum(len(w["val"]) for w in f["W"]),
                     u_matrix_count=len(f["U"]), u_matrix_row_count_sum=sum(len(u) for u in f["U"]))

        def put(n, dims, dtype, v):
            vs[n] = {"dims": dims, "dtype": dtype, "v": v}
        put("w_matrix_nnz", ["w_matrix_count"], "int32", [len(w["val"]) for w in f["W"]])
        put("w_matrix_row", ["w_matrix_count", "w_matrix_row_count"], "int32", [w["row"] for w in f["W"]])
        put("w_matrix_col", ["w_matrix_nnz_sum"], "int32", sum([w["col"] for w in f["W"]], []))
        put("w_matrix_val", ["w_matrix_nnz_sum"], "float64", sum([w["val"] for w in f["W"]], []))
        put("u_matrix_row_count", ["u_matrix_count"], "int32", [len(u) for u in f["U"]])
        put("u_matrix_val", ["u_matrix_row_count_sum"], "float64", sum(f["U"], []))
        for p in range(2):
            put("w_matrix_use%d" % (p + 1), ["m%d" % (p + 1)], "int32", f["wuse"][p])
            put("u_matrix_use%d" % (p + 1), ["m%d" % (p + 1)], "int32", f["uuse"][p])
    return {"vars": vs, "sizes": sizes, "attrs": {"sensor_1_name": f["s"][0], "sensor_2_name": f["s"][1]}}


def put_dim(d, n, dims):
    v = d["vars"][n]
    v["dims"] = dims
    size = [d["sizes"][x] for x in dims]
    v["v"] = [1] * size[0] if len(size) == 1 else [[1] * size[1] for _ in range(size[0])]


def mutate(rng, d):
    """One change, which breaks a rule or not."""
    vs, sz = d["vars"], d["sizes"]
    names = sorted(vs)
    hasw = all(n in vs for n in ("w_matrix_nnz", "w_matrix_use1", "u_matrix_use1", "w_matrix_use2", "u_matrix_use2", "w_matrix_col",
                                 "u_matrix_val", "u_matrix_row_count", "w_matrix_row", "w_matrix_val"))
    kinds = ["drop", "drop", "dtype", "dtype", "dims", "attr", "same", "extra", "K", "K0", "U", "U", "U", "type", "type", "zero", "mix"]
    if hasw:
        kinds += ["dropw", "use", "use", "use", "nnz", "row", "uval", "index", "width", "drop2"]
    k = rng.choice(kinds)
    std = [n for n in names if not n[:2] in ("w_", "u_")]

    def cell(n, v):
        x = vs[n]["v"]
        if not x:
            return
        i = rng.randrange(len(x))
        if isinstance(x[i], list):
            x[i][rng.randrange(len(x[i]))] = v
        else:
            x[i] = v
    if k == "drop":
        del vs[rng.choice(std)]
    elif k == "dropw":
        del vs[rng.choice([n for n in names if n[:2] in ("w_", "u_")])]
    elif k == "drop2":
        for n in rng.sample(names, 2):
            del vs[n]
    elif k == "dtype":
        n = rng.choice(names)
        vs[n]["dtype"] = rng.choice(["float32", "float64", "int32", "int64", "int16"])
    elif k == "dims":
        n = rng.choice(std)
        two = len(vs[n]["dims"]) == 2
        put_dim(d, n, rng.choice([["M", "m1"], ["M", "m2"], ["m1", "M"]] if two else [["M"], ["m1"], ["m2"]]))
    elif k == "attr" and d["attrs"]:
        del d["attrs"][rng.choice(sorted(d["attrs"]))]
    elif k == "same":
        if len(d["attrs"]) == 2:
            d["attrs"]["sensor_2_name"] = d["attrs"]["sensor_1_name"]
    elif k == "extra":
        vs["extra_x"] = {"dims": ["M"], "dtype": rng.choice(["float64", "int16"]), "v": [1] * sz["M"]}
    elif k == "K":
        n = rng.choice(["K", "Kr", "Ks"])
        if n in vs:
            cell(n, rng.choice([-1, 0, 3]))
    elif k == "K0":
        if "Kr" in vs and "Ks" in vs and vs["Kr"]["dims"] == vs["Ks"]["dims"] == ["M"]:
            i = rng.randrange(sz["M"])
            vs["Kr"]["v"][i] = 0
            vs["Ks"]["v"][i] = 0
    elif k == "U":
        n = rng.choice(["Ur1", "Ur2", "Us1", "Us2"])
        if n in vs:
            cell(n, rng.choice([-1, -1, 0, 3]))
    elif k == "type":
        n = rng.choice(["uncertainty_type1", "uncertainty_type2"])
        if n in vs:
            cell(n, rng.choice([0, 1, 2, 3, 4, 5]))
    elif k == "zero":
        n = rng.choice(["Ur1", "Ur2", "Us1", "Us2"])
        if n in vs:
            vs[n]["v"] = [[0 for _ in r] for r in vs[n]["v"]]
    elif k == "mix":
        n = rng.choice(["X1", "X2", "time1", "K"])
        if n in vs:
            cell(n, -7)
    elif k == "use":
        n = rng.choice(["w_matrix_use1", "w_matrix_use2", "u_matrix_use1", "u_matrix_use2"])
        cell(n, rng.choice([0, 1, 2, 3]))
    elif k == "nnz":
        cell("w_matrix_nnz", rng.randint(1, 4))
    elif k == "row":
        cell("u_matrix_row_count", rng.randint(1, 4))
    elif k == "uval":
        cell("u_matrix_val", rng.choice([0, -2, 5]))
    elif k == "index":
        cell(rng.choice(["w_matrix_row", "w_matrix_col"]), rng.choice([-1, 0, 2]))
    elif k == "width":
        cell("w_matrix_col", rng.randint(0, 6))
    return k


def spoils(d):
    """Every rule broken, alone where it can be: (name, what changes the description)."""
    vs, sz = d["vars"], d["sizes"]
    W = "w_matrix_nnz" in vs
    out = []

    def add(name, fn):
        out.append((name, fn))

    def at(n, v):
        def go(rng, d):
            x = d["vars"][n]["v"]
            i = rng.randrange(len(x))
            if isinstance(x[i], list):
                x[i][rng.randrange(len(x[i]))] = v
            else:
                x[i] = v
        return go

    def typed(n, t):
        def go(rng, d):
            d["vars"][n]["dtype"] = t
        return go

    def shaped(n, dims):
        return lambda rng, d: put_dim(d, n, dims)

    def without(n):
        def go(rng, d):
            del d["vars"][n]
        return go
    for n in vs:
        add("drop", without(n))
        for t in ("float32", "float64", "int32", "int64", "int16"):
            if t != vs[n]["dtype"] and (t[0] == vs[n]["dtype"][0] or t == "int32" or vs[n]["dtype"] == "int32"):
                add("dtype", typed(n, t))
        if n[:2] not in ("w_", "u_"):
            two = len(vs[n]["dims"]) == 2
            for dims in ([["M", "m1"], ["M", "m2"], ["m1", "M"], ["M"]] if two else [["M"], ["m1"], ["m2"], ["M", "m1"]]):
                if dims != vs[n]["dims"]:
                    add("dims", shaped(n, dims))
    for a in d["attrs"]:
        def go(rng, d, a=a):
            del d["attrs"][a]
        add("attr", go)

    def same(rng, d):
        d["attrs"]["sensor_2_name"] = d["attrs"]["sensor_1_name"]
    add("same", same)

    def alike(rng, d):          # another name still
        x = d["attrs"]["sensor_1_name"]
        d["attrs"]["sensor_2_name"] = rng.choice([x.upper() if x.upper() != x else x + "a", x + "1", x + " ", x[:1] + "_" + x[1:]])
    for _ in range(4):
        add("alike", alike)
    for p in "12":
        for c in range(sz["m" + p]):
            for n in ("Ur", "Us"):
                for v in (0, 3):
                    def go(rng, d, n=n + p, c=c, v=v):
                        d["vars"][n]["v"][rng.randrange(d["sizes"]["M"])][c] = v
                    add("one of a column", go)
    for n in ("Kr", "Ks", "Ur1", "Ur2", "Us1", "Us2"):
        add("negative", at(n, -1))
        add("zero", at(n, 0))
        add("nan", at(n, NAN))

    def lone(n):        # a negative one, the other one positive
        def go(rng, d):
            i = rng.randrange(d["sizes"]["M"])
            d["vars"]["Kr"]["v"][i] = d["vars"]["Ks"]["v"][i] = 4
            d["vars"][n]["v"][i] = -1
        return go
    add("lone", lone("Kr"))
    add("lone", lone("Ks"))

    def zero(rng, d):
        i = rng.randrange(d["sizes"]["M"])
        d["vars"]["Kr"]["v"][i] = d["vars"]["Ks"]["v"][i] = 0
    add("zero", zero)
    for n in ("uncertainty_type1", "uncertainty_type2"):
        for t in range(0, 6):
            add("type", at(n, t))
    for n in ("Us1", "Us2", "Ur1", "Ur2"):
        def go(rng, d, n=n):
            d["vars"][n]["v"] = [[0 for _ in r] for r in d["vars"][n]["v"]]
        add("zeros", go)
        def go1(rng, d, n=n):
            d["vars"][n]["v"] = [[max(x, 1) for x in r] for r in d["vars"][n]["v"]]
        add("ones", go1)
    if W:
        for n in ("w_matrix_use1", "w_matrix_use2", "u_matrix_use1", "u_matrix_use2"):
            for v in (0, 1, -1, sz["w_matrix_count"] + 1):
                add("use", at(n, v))
        both = [(p, c) for p in "12" for c in range(sz["m" + p]) if vs["w_matrix_use" + p]["v"][c]]
        for i in both:
            for j in both:
                if i != j and all(vs[x + "_matrix_use" + i[0]]["v"][i[1]] == vs[x + "_matrix_use" + j[0]]["v"][j[1]] for x in "wu"):
                    def go(rng, d, i=i, j=j):       # used without the other, as often
                        d["vars"]["w_matrix_use" + i[0]]["v"][i[1]] = 0
                        d["vars"]["u_matrix_use" + j[0]]["v"][j[1]] = 0
                    add("apart", go)
        for n in ("w_matrix_nnz", "u_matrix_row_count", "w_matrix_row", "w_matrix_col"):
            for v in (-1, 1):
                add("index", at(n, v))
        for v in (0, -2, NAN):
            add("uval", at("u_matrix_val", v))

        def more(dim, fn):
            def go(rng, d):
                d["sizes"][dim] += 1
                fn(d["vars"])
            return go
        add("size", more("w_matrix_row_count", lambda v: [r.append(r[-1]) for r in v["w_matrix_row"]["v"]]))
        add("size", more("w_matrix_count", lambda v: (v["w_matrix_nnz"]["v"].append(0), v["w_matrix_row"]["v"].append([0] * sz["w_matrix_row_count"]))))
        add("size", more("w_matrix_nnz_sum", lambda v: (v["w_matrix_col"]["v"].append(0), v["w_matrix_val"]["v"].append(1))))
        add("size", more("u_matrix_count", lambda v: v["u_matrix_row_count"]["v"].append(0)))
        add("size", more("u_matrix_row_count_sum", lambda v: v["u_matrix_val"]["v"].append(1)))
    return out


def write_desc(path, d):
    g = Dataset(path, "w")
    for a, v in d["attrs"].items():
        setattr(g, a, v)
    for n, s in d["sizes"].items():
        g.createDimension(n, s)
    for n in d["order"]:
        v = d["vars"][n]
        t = {"float64": "f8", "float32": "f4", "int32": "i4", "int64": "i8", "int16": "i2"}[v["dtype"]]
        g.createVariable(n, t, tuple(v["dims"]))[:] = np.where(np.array(v["v"]) == NAN, np.nan, v["v"]) if t[0] == "f" else np.array(v["v"])
    g.close()


GROUPS = {"included": "check_variable_included", "dtype": "check_variable_dtype", "dimension": "check_variable_dimension",
          "attributes": "check_attributes", "wsizes": "check_w_matrix_variable_dimensions", "values": "check_variable_values",
          "wvalues": "check_w_variable_values", "assignment": "check_uncertainty_assignment"}


def verdict_events(rec, rng, root, n, rounds):
    path = os.path.join(root, "c.nc")

    def described_files():
        for k in range(rounds):
            want = k % 2 == 0
            while True:
                base = valid_desc(rng)
                vs = base["vars"]
                if ("w_matrix_nnz" in vs) == want and base["sizes"]["M"] > 1 and (want or len(set(base["sizes"].values())) == 3):
                    if not want:
                        break
                    types = [vs["uncertainty_type%d" % p]["v"] for p in (1, 2)]
                    pairs = [(w, u) for p in "12" for w, u in zip(vs["w_matrix_use" + p]["v"], vs["u_matrix_use" + p]["v"]) if w]
                    if all(4 in t for t in types) and len(pairs) > len(set(pairs)):
                        break
            for name, fn in spoils(base):
                d = copy.deepcopy(base)
                fn(rng, d)
                yield d, [name]
        base = valid_desc(rng)          # of very many variables, all without a known type
        while "w_matrix_nnz" in base["vars"] or base["sizes"]["M"] > 2:
            base = valid_desc(rng)
        for m in (127, 128, 255, 256):
            d = copy.deepcopy(base)
            M = d["sizes"]["M"]
            d["sizes"].update(m1=m, m2=m)
            for p in "12":
                d["vars"]["uncertainty_type" + p]["v"] = [5 if p == "1" or m == 256 else 1] * m
                for x in ("X", "Ur", "Us"):
                    d["vars"][x + p]["v"] = [[1 if x == "Ur" else 0] * m for _ in range(M)]
            yield d, ["many"]
        for k in range(n):
            d = valid_desc(rng)
            yield d, [mutate(rng, d) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3]))] if k % 4 else []
    for d, kinds in described_files():
        for v in d["vars"].values():
            if v["dtype"] == "int16":       # what it can hold
                v["v"] = np.clip(np.array(v["v"]), -30000, 30000).tolist()
        d["order"] = sorted(d["vars"])
        rng.shuffle(d["order"])
        rec.begin()
        write_desc(path, d)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            st, v = guarded(lambda: HC.main(path))
        groups = {}
        g = Dataset(path)
        for name, fn in GROUPS.items():
            if not hasattr(HC, fn):
                groups[name] = -2
                continue
            s2, e = guarded(lambda: getattr(HC, fn)(g))
            groups[name] = len(e) if s2 == "ok" else -1
        g.close()
        os.remove(path)
        text = buf.getvalue()
        accept = st == "ok" and (v is None or (isinstance(v, (bool, int, np.integer)) and int(v) & 255 == 0))         # as an exit status
        if accept and "Test Passed" not in text:
            st, accept = "inconsistent", False
        if st == "ok" and v and "Test Passed" in text:
            st = "inconsistent"
        rec.rec("verdict", kinds=kinds, f={"vars": d["vars"], "sizes": d["sizes"], "attrs": d["attrs"]},
                obs={"status": st, "accept": accept, "groups": groups})


def main(out, scen, prop):
    rng = random.Random(SEED * 104729 + 5)
    rec = Recorder(out)
    root = os.getcwd()
    sc = load(scen, [])
    rng.shuffle(sc)
    q = TIER == "quick"
    if prop in ("P05", "P06"):
        write_events(rec, rng, root, 160 if q else 1200, [x for x in sc if "W" in x])
        if prop == "P06":
            wide_events(rec, rng, 60 if q else 600)
    if prop == "P16":
        roll_events(rec, rng, 1200 if q else 12000, [x for x in sc if "t" in x])
    if prop == "P07":
        verdict_events(rec, rng, root, 400 if q else 5000, 4 if q else 20)
    rec.close()


if __name__ == "__main__":
    main(*sys.argv[1:4])
