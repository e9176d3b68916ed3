"""What the conformance drivers share: the recorder, the encoding of values, match-up files."""
import json
import math
import os
import random
import shutil
import signal
import sys
import warnings

warnings.simplefilter("ignore")

NONE = -2000000001
NAN = 2000000001
INEXACT = 2000000003
LIMIT = 2000000000

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


RAISED = 70


def raised(kind, value, tb):
    """An exception that ends the driver: with a status of its own if it comes out of the code under test."""
    import traceback
    traceback.print_exception(kind, value, tb)
    sys.stderr.flush()
    tree = os.environ.get("VERIF_TREE", "//")
    if any(os.path.abspath(f.filename).startswith(tree) for f in traceback.extract_tb(tb)) and not issubclass(kind, (ImportError, KeyboardInterrupt, MemoryError)):
        os._exit(RAISED)


class Recorder(object):
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        sys.excepthook = raised

    def rec(self, ev, **kw):
        kw["ev"] = ev
        self.f.write(json.dumps(kw) + "\n")
        self.f.flush()          # what is recorded counts, also if the code ends the process
        self.n += 1

    def begin(self, **kw):
        self.rec("begin", **kw)

    def close(self):
        self.f.close()


def enc(v, scale=1, tol=1e-6):
    """A value as an exact integer on the grid 1/scale, or one of the special values."""
    import numpy as np
    if v is None or v is np.ma.masked:
        return NONE
    try:
        x = float(v)
    except (TypeError, ValueError):
        return INEXACT
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INEXACT
    x *= scale
    r = int(round(x))
    if abs(x - r) > tol or abs(r) >= LIMIT:
        return INEXACT
    return r


def encs(a, scale=1, tol=1e-6):
    """A one-dimensional sequence."""
    import numpy as np
    if a is None:
        return [NONE]
    try:
        a = np.ma.filled(np.ma.asarray(a).astype(float), np.nan) if np.ma.isMaskedArray(a) else a
        return [enc(x, scale, tol) for x in a]
    except TypeError:
        return [INEXACT]


def encm(a, scale=1, tol=1e-6):
    """A matrix (dense array, sparse matrix or nested list), by rows."""
    if hasattr(a, "toarray"):
        a = a.toarray()
    return [encs(row, scale, tol) for row in a]


def ints(a):
    out = []
    for x in a:
        y = enc(x)
        out.append(y)
    return out


class Hang(BaseException):
    """A call that does not end."""


HANGS = [0]


def _hang(signum, frame):
    raise Hang()


def closing(x, how):
    """What closing an object leaves of it: how = 0 close, 1 leaving its with block, 2 an error in its with block."""
    had = sorted(k for k, v in vars(x).items() if not k.startswith("_") and k != "closed" and v is not None)
    same = []

    def do():
        if how == 0:
            x.close()
        else:
            with x as y:
                same.append(y is x)
                if how == 2:
                    raise ValueError("in the block")
    st, _ = guarded(do)
    return {"status": st, "had": len(had), "left": [k for k in had if getattr(x, k, None) is not None],
            "closed": bool(getattr(x, "closed", False)), "same": how == 0 or same == [True]}


def guarded(fn, limit=100):
    """(status, value): "ok", or the name of the exception ("Hang" if there is no end; after two of these nothing is called any more)."""
    if HANGS[0] >= 2:
        return "Hang", None
    old = signal.signal(signal.SIGALRM, _hang)
    left = signal.alarm(limit)
    try:
        return "ok", fn()
    except Hang:
        HANGS[0] += 1
        return "Hang", None
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        return type(e).__name__, None
    finally:
        signal.alarm(left)
        signal.signal(signal.SIGALRM, old)


def load(path, default=None):
    if not path or not os.path.exists(path):
        return default
    with open(path) as f:
        return json.load(f)


# ---------------------------------------------------------------------------------------------------------------------
# Match-up files

SC = 1 << 20        # stored value = integer / SC


def big(rng, lo, hi, bits=29):
    """A small integer, or one that needs more digits (sensor values and parameters are kept in single precision)."""
    if rng.random() < .12:
        return rng.randint(1, 1 << bits) * (-1 if lo < 0 and rng.random() < .5 else 1)
    return rng.randint(lo, hi)


def random_w(rng, M, ncols=None):
    """A CSR matrix with M rows (a rolling kernel of small integers), as 0-based row pointers and columns."""
    width = rng.randint(1, 3)
    step = rng.choice([1, 1, 2])
    row, col, val = [0], [], []
    at = 0
    for r in range(M):
        if r:
            at += rng.choice([0, step]) if rng.random() < .3 else step
        for k in range(width):
            col.append(at + k)
            val.append(rng.randint(1, 5))
        row.append(len(col))
    return {"row": row, "col": col, "val": val}


def random_file(rng, s, M, m, types=(1, 2, 3, 4), add_names=("nominal_BT1", "latitude", "x_extra"), plain=()):
    """One file of a match-up dataset, as the specification describes it (integers; the file holds integer / SC)."""
    ut = [[rng.choice((1,) if s[p] in plain else types) for _ in range(m[p])] for p in range(2)]
    W, U, wuse, uuse = [], [], [], []
    for p in range(2):
        wu, uu = [], []
        for c in range(m[p]):
            if ut[p][c] in (3, 4):
                if W and rng.random() < .5:
                    w = rng.randint(1, len(W))
                else:
                    W.append(random_w(rng, M))
                    w = len(W)
                n = max(W[w - 1]["col"]) + 1
                same = [i for i in range(len(U)) if len(U[i]) == n]
                if same and rng.random() < .4:
                    u = rng.choice(same) + 1
                else:
                    U.append([big(rng, 1, 9) for _ in range(n)])
                    u = len(U)
                wu.append(w)
                uu.append(u)
            else:
                wu.append(0)
                uu.append(0)
        wuse.append(wu)
        uuse.append(uu)
    X = [[[big(rng, -60, 60, 23) for _ in range(m[p])] for _ in range(M)] for p in range(2)]
    Ur = [[[big(rng, 1, 30) if ut[p][c] in (1, 2) else 0 for c in range(m[p])] for _ in range(M)] for p in range(2)]
    Us = []
    for p in range(2):
        const = [big(rng, 1, 30) for _ in range(m[p])]
        Us.append([[const[c] if ut[p][c] in (2, 4) else 0 for c in range(m[p])] for _ in range(M)])
    t0 = rng.randint(0, 40000) * 10000
    t = [sorted(t0 + rng.randint(0, 500) for _ in range(M)), []]
    t[1] = [x + rng.randint(0, 60) for x in t[0]]
    track = [[{"has": False, "v": []}, {"has": False, "v": []}] for _ in range(2)]
    for w in range(2):
        for p in range(2):
            if rng.random() < .5:
                track[w][p] = {"has": True, "v": [rng.randint(0, 4000) for _ in range(M)]}
    add = []
    for name in add_names:
        if rng.random() < .5:
            add.append({"name": name, "v": [NAN if rng.random() < .15 else big(rng, -100, 100) for _ in range(M)]})
    return {"nc": True, "given": 1, "dir": 1, "rank": 1, "s": list(s), "M": M, "m": list(m), "X": X, "Ur": Ur, "Us": Us,
            "K": [big(rng, -40, 40) for _ in range(M)], "Kr": [rng.randint(0, 9) for _ in range(M)],
            "Ks": [rng.randint(0, 9) for _ in range(M)], "t": t, "ut": ut, "wuse": wuse, "uuse": uuse, "W": W, "U": U,
            "track": track, "add": add}


def write_file(path, f, w_dtype="i4"):
    """The netCDF file that holds f (see random_file)."""
    from netCDF4 import Dataset
    import numpy as np
    d = Dataset(path, "w", format="NETCDF4")
    M, m = f["M"], f["m"]
    d.createDimension("M", M)
    d.createDimension("m1", m[0])
    d.createDimension("m2", m[1])
    d.sensor_1_name, d.sensor_2_name = f["s"]

    def var(name, dtype, dims, data):
        v = d.createVariable(name, dtype, dims)
        v[:] = np.array(data)

    for p in range(2):
        q = str(p + 1)
        for name in ("X", "Ur", "Us"):
            var(name + q, "f8", ("M", "m" + q), np.array(f[name][p], dtype=float).reshape(M, m[p]) / SC)
        var("uncertainty_type" + q, "i4", ("m" + q,), f["ut"][p])
        var("time" + q, "f8", ("M",), [t + x / 16. for t, x in zip(f["t"][p], f.get("part", [[0] * M] * 2)[p])])
        if f["track"][0][p]["has"]:
            var("along_track_index" + q, "i4", ("M",), f["track"][0][p]["v"])
        if f["track"][1][p]["has"]:
            var("across_track_index" + q, "i4", ("M",), f["track"][1][p]["v"])
    for name in ("K", "Kr", "Ks"):
        var(name, "f8", ("M",), np.array(f[name], dtype=float) / SC)
    for a in f["add"]:
        # missing: -1e30, or masked; x on the grid of 23 bits where single precision
        x = np.array([-1e30 if x == NAN else x / float(SC) for x in a["v"]])
        v = d.createVariable(a["name"], a.get("dtype", "f8"), ("M",), fill_value=-1e30 if a.get("masked") == 1 else None)
        v[:] = np.ma.masked_equal(x, -1e30) if a.get("masked") == 2 else x
    if f["W"]:
        write_w_variables(d, var, f)
    d.close()


def write_w_variables(d, var, f):
    import numpy as np
    W, U, m = f["W"], f["U"], f["m"]
    wuse, uuse = f["wuse"], f["uuse"]
    if f.get("lead"):           # a long matrix of each kind, that no variable uses, comes first
        n, rows = f["lead"], len(W[0]["row"]) - 1
        W = [{"row": [0] + [n] * rows, "col": [i % 50 for i in range(n)], "val": [1] * n}] + W
        U = [[3] * n] + U
        wuse, uuse = [[[x + 1 if x else 0 for x in r] for r in use] for use in (wuse, uuse)]
    d.createDimension("w_matrix_count", len(W))
    d.createDimension("w_matrix_row_count", len(W[0]["row"]))
    d.createDimension("w_matrix_nnz_sum", sum(len(w["val"]) for w in W))
    d.createDimension("u_matrix_count", len(U))
    d.createDimension("u_matrix_row_count_sum", sum(len(u) for u in U))
    var("w_matrix_nnz", "i4", ("w_matrix_count",), [len(w["val"]) for w in W])
    var("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count"), [w["row"] for w in W])
    var("w_matrix_col", "i4", ("w_matrix_nnz_sum",), sum([w["col"] for w in W], []))
    var("w_matrix_val", "f8", ("w_matrix_nnz_sum",), np.array(sum([w["val"] for w in W], []), dtype=float) / SC)
    var("u_matrix_row_count", "i4", ("u_matrix_count",), [len(u) for u in U])
    var("u_matrix_val", "f8", ("u_matrix_row_count_sum",), np.array(sum(U, []), dtype=float) / SC)
    for p in range(2):
        q = str(p + 1)
        var("w_matrix_use" + q, "i4", ("m" + q,), wuse[p])
        var("u_matrix_use" + q, "i4", ("m" + q,), uuse[p])
