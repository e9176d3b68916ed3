"""Converters of match-up files: original AVHRR files, microwave files, simulated data in text files, and the temperatures of AVHRR channels."""
import ast
import contextlib
import io
import math
import os
import random
import shutil
import subprocess
import sys

from common import *
TOOLS = os.path.join(os.environ["VERIF_TREE"], "tools")
sys.path.insert(0, TOOLS)

import numpy as np
from netCDF4 import Dataset
from files_dump import dump

OUT, SCEN, PROP = sys.argv[1:4]
R = Recorder(OUT)
rng = random.Random(SEED)
DEEP = TIER != "quick"
C1, C2 = 1.191062E-5, 1.4387863
UNIT = 65536
scen = load(SCEN, [])
BAND = [s["band"] for s in scen if "band" in s][0]
NAMES = {-12: "aatsr", -11: "atsr2", -10: "atsr1", -1: "m02", 19: "n19", 18: "n18", 17: "n17", 16: "n16", 15: "n15", 14: "n14", 12: "n12",
         11: "n11", 10: "n10", 9: "n09", 8: "n08", 7: "n07"}
MORE = {"lat1", "lat2", "lon1", "lon2", "vza1", "vza2", "sza1", "sza2", "To1", "To2"}
ROOT = os.path.join(os.path.dirname(OUT), "convert")
shutil.rmtree(ROOT, ignore_errors=True)
os.makedirs(ROOT)
COUNT = [0]


def fresh():
    COUNT[0] += 1
    d = os.path.join(ROOT, "c%d" % COUNT[0])
    os.makedirs(d)
    return d


def planck(name, ch, j):
    """The temperature whose exponential is 1 + 2^j, and its radiance."""
    nu, a, b = [x * y for x, y in zip(BAND[name][ch - 1], (1e-3, 1e-6, 1e-6))]
    return (C2 * nu / math.log(1 + 2. ** j) - a) / b, C1 * nu ** 3 / 2. ** j


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn()


def script(name, args):
    """The tool as a command: raises if it fails."""
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(TOOLS, name)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=80)
    if p.returncode != 0:
        raise RuntimeError(p.stdout[-500:])


def bytes_of(d):
    out = {}
    for base, _, ns in os.walk(d):
        for n in ns:
            with open(os.path.join(base, n), "rb") as f:
                out[os.path.relpath(os.path.join(base, n), d)] = f.read()
    return out


def occupied(out, names):
    """Files of some of these names are there already."""
    if rng.random() < .25:
        for n in names:
            p = os.path.join(out, n)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with Dataset(p, "w") as f:
                f.left = "over"
                f.createDimension("M", 3)
                f.createVariable("K", "f4", ("M",))[:] = 1


def listing(d):
    return sorted(os.path.relpath(os.path.join(b, n), d) for b, _, ns in os.walk(d) for n in ns)


def times(t, dt):
    t0 = rng.choice([0., 1000., 86400. * 365])
    return np.array([t0 + x * dt / 10 for x in t])


def places(M, wide=6):
    if rng.random() < .25:      # far apart
        return [10 * p + rng.choice([0, 1, -2, 2]) for p in [q + rng.randint(0, 3) for q in rng.choices([0, 5000, 40000], k=M)]]
    pos = [rng.randint(0, wide) for _ in range(M)] if rng.random() < .4 else sorted(rng.randint(0, 2 * wide) for _ in range(M))
    return [10 * p + rng.choice([0, 0, 1, -2, 2]) for p in pos]


FINE = [False]      # whether numbers need double precision


def grid(M, m, lo=-1000000, hi=1000000, unit=512):
    return [[unit * rng.randint(lo, hi) + (rng.randrange(unit) if FINE[0] else 0) for _ in range(m)] for _ in range(M)]


def arr(x):
    return np.array([[np.nan if v == NAN else v for v in r] for r in x], dtype=float) / SC


# ---- AVHRR -------------------------------------------------------------------------------------------------------------

class Both(int):
    """A channel, equal to its name."""
    def __eq__(self, o):
        return int(self) == o or str(int(self)) == o

    def __ne__(self, o):
        return not self == o
    __hash__ = int.__hash__


def plain(x):
    """The number of a sensor, read as an array of no dimension."""
    a = np.ma.asarray(x) if not isinstance(x, (str, bytes)) else None
    return int(x) if a is not None and a.ndim == 0 and a.dtype.kind in "iu" else x


# known findings (known_findings.json), each worked around where it lies, so that the rest is still judged; code without the defect is not changed by this
def mend_numbers(A, band):
    """the numbers of the sensors are read as arrays, that cannot be looked up"""
    f = A["read_matchup_data"]
    A["read_matchup_data"] = lambda *a, **k: tuple(plain(x) for x in f(*a, **k))


def mend_folders(A, band):
    """the channel, a number, is compared with a text"""
    f = A["prepare_directories"]
    A["prepare_directories"] = lambda d, p, b: f(d, p, Both(b))


def mend_channel(A, band):
    """temperatures are converted as those of channel 2"""
    f = A["convertBT"]

    class Mended(object):
        def __init__(self, *a, **k):
            self.c = f(*a, **k)

        def temp2rad(self, t, ch):
            return self.c.temp2rad(t, {37: 1, 11: 2, 12: 3}[band] if ch == 2 else ch)
    A["convertBT"] = Mended


def mend_measurands(A, band):
    """temperatures are written as nominal measurands"""
    f = A["return_additional_variables"]

    def mended(v, *a, **k):
        v = dict(v)
        for old, new in (("ref_BT", "nominal_measurand1"), ("BT", "nominal_measurand2")):
            if new in v and old in v:
                v[old] = v[new]
        return f(v, *a, **k)
    A["return_additional_variables"] = mended


def mend_limit(A, band):
    """the temperatures to be limited are looked up by a name they no longer have"""
    f = A["read_matchup_data"]

    class Named(dict):
        def __missing__(self, k):
            if k == "BT11":
                return self["BT"]
            raise KeyError(k)
    A["read_matchup_data"] = lambda *a, **k: tuple(Named(x) if isinstance(x, dict) else x for x in f(*a, **k))


MENDS = {"numbers": mend_numbers, "folders": mend_folders, "channel": mend_channel, "measurands": mend_measurands, "limit": mend_limit}


def convert_avhrr(path, out, lim, band, how, without):
    """The tool's main, or what it does as a command."""
    p = os.path.join(TOOLS, "AVHRR_to_updated_spec.py")
    with open(p) as f:
        tree = ast.parse(f.read(), p)
    ends = [n for n in tree.body if isinstance(n, ast.If) and "__name__" in ast.dump(n.test)]
    tree.body = [n for n in tree.body if n not in ends]
    A = {"__name__": "AVHRR_to_updated_spec", "__file__": p}
    keep = sys.argv
    sys.argv = [p, path, out] + ([repr(lim / float(UNIT))] if lim != NONE else [])
    try:
        exec(compile(tree, p, "exec"), A)
        run_avhrr(A, path, out, lim, band, how, without, ends)
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError("exit %s" % e.code)
    finally:
        sys.argv = keep


def run_avhrr(A, path, out, lim, band, how, without, ends):
    for n, m in sorted(MENDS.items()):
        if n != without:
            try:
                m(A, band)
            except KeyError:
                pass
    if how == "main":
        return A["main"](path, out, *([lim / float(UNIT)] if lim != NONE else []))
    A["__name__"] = "__main__"
    exec(compile(ast.Module(ends, []), A["__file__"], "exec"), A)


def avhrr(tag, s=None, without=None):
    ref = s["ref"] if s else rng.random() < .45
    t = s["t"] if s else None
    k = s["k"] if s else rng.choice([1, 1, 2, 4])
    M = len(t[0]) if t else rng.randint(1, 7)
    t = t or [places(M), places(M)]
    a, b = rng.sample([x for x in NAMES if x > -2 and (not without or BAND[NAMES[x]][2][0] > 0)], 2)
    if ref:
        a = rng.choice([-12, -11, -10])
    sensors = [a, b]
    band = rng.choice([11, 11, 37, 37, 12]) if not without else {"folders": 37, "channel": 12}.get(without, 11)
    if rng.random() < .05 and not without:
        sensors[rng.randint(0, 1)] = rng.choice([6, 13, 0])
    ch = {37: 1, 11: 2, 12: 3}[band]
    bad = [tuple(x) for x in s["bad"]] if s else [(rng.randint(1, 4), i + 1) for i in range(1, M) if rng.random() < .25]
    if len({i for _, i in bad}) == M:
        return
    ft = rng.choice(["f4", "f8"])
    FINE[0] = False         # the tool writes single precision
    H = [[v - v % 512 if c in (4, 9) else v for c, v in enumerate(row)] for row in grid(M, 10)]       # orbit temperatures are single precision
    Ur = grid(M, 10, 1, 1000)
    Us = [[512 * rng.randint(1, 1000) if c in (3, 4, 8, 9) or (ref and c == 0) else 0 for c in range(10)] for _ in range(M)]
    if ref:
        for i in range(M):
            for c in range(1, 5):
                H[i][c] = NAN
                Ur[i][c] = rng.choice([NAN, 0])
                Us[i][c] = rng.choice([NAN, 0])
    u = [[[65536 * rng.randint(1, 9) for _ in range(k)] for _ in range(M)] for _ in range(4)]
    if ref:
        u[0] = u[1] = [[0] * k for _ in range(M)]
    for q, i in bad:
        row = list(u[q - 1][i - 1])
        row[rng.randint(0, k - 1)] = NAN
        u[q - 1] = [row if j == i - 1 else x for j, x in enumerate(u[q - 1])]
    span = {37: (14, 26), 11: (6, 9), 12: (5, 8)}[band]
    js = [[rng.randint(*span) for _ in range(M)] for _ in range(2)]
    bt = []
    for p in range(2):
        nm = NAMES.get(sensors[p])
        known = nm and BAND[nm][ch - 1][0] > 0
        bt.append([round((planck(nm, ch, j)[0] if known else 250.) * UNIT / 2) * 2 for j in js[p]])
    if s:
        limit = s["lim"]
        if limit:             # the first level passes or not, as in the scenario
            lo, hi = span[0] + 1, span[0]           # a higher j is a lower temperature
            js[1] = [hi if x == 2 else lo for x in s["bt"]]
            nm = NAMES.get(sensors[1])
            known = nm and BAND[nm][ch - 1][0] > 0
            bt[1] = [round((planck(nm, ch, j)[0] if known else 250. + 1 / (j + 1)) * UNIT / 2) * 2 for j in js[1]]
        lim = max(bt[1]) if limit else NONE
        if limit and 2 not in s["bt"]:
            lim = max(bt[1]) + 2
    else:
        lim = NONE if rng.random() < .55 else rng.choice(bt[1]) + rng.choice([0, 0, -2, 2])
        if without:
            lim = min(bt[1]) if without == "limit" else NONE
    ok = [i for i in range(M) if all(v != NAN for q in range(4) for v in u[q][i]) and (lim == NONE or bt[1][i] >= lim)]
    if not ok:
        return
    extra = {}
    for n in ("latitude", "longitude", "satza", "solza", "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "other", "scan_id"):
        if rng.random() < .5:
            dt = rng.choice(["f4", "f8", "i4"])
            extra[n] = {"dtype": {"f4": "float32", "f8": "float64", "i4": "int32"}[dt],
                        "v": [SC * rng.randint(-90, 90) + (0 if dt == "i4" else 512 * rng.randint(0, 99)) for _ in range(M)]}
    name = rng.choice(["m1_n2.nc", "n19_n18_2000.nc", "x.y.nc"])
    K, Kr, Ks = [[x[0] for x in grid(M, 1, *lims)] for lims in ((-9999, 9999), (1, 999), (0, 999))]
    dt = .5
    tm = [times(x, dt) for x in t]
    d = fresh()
    path = os.path.join(d, name)
    f = Dataset(path, "w")
    for n, z in (("M", M), ("m", 10), ("k", k), ("three", 3), ("one", 1)):
        f.createDimension(n, z)

    def put(n, dims, t_, v):
        x = f.createVariable(n, t_, dims)
        x[:] = v
    put("H", ("M", "m"), ft, arr(H))
    put("Ur", ("M", "m"), ft, arr(Ur))
    put("Us", ("M", "m"), ft, arr(Us))
    for n, v in (("K", K), ("Kr", Kr), ("Ks", Ks)):
        put(n, ("M",), ft, np.array(v, dtype=float) / SC)
    put("lm", ("one", "three"), "i4", np.array([[sensors[0], sensors[1], M]]))
    put("ref_time_matchup", ("M",), "f8", tm[0])
    put("time_matchup", ("M",), "f8", tm[1])
    for n, x in zip(("ref_cal_Sp_Ur", "ref_cal_BB_Ur", "cal_Sp_Ur", "cal_BB_Ur"), u):
        put(n, ("M", "k"), ft, arr(x))
    put("ref_BT%d" % band, ("M",), ft, np.array(bt[0]) / float(UNIT))
    put("BT%d" % band, ("M",), ft, np.array(bt[1]) / float(UNIT))
    for n, e in extra.items():
        put(n, ("M",), {"float32": "f4", "float64": "f8", "int32": "i4"}[e["dtype"]], np.array(e["v"]) / SC)
    f.close()
    before = bytes_of(d)
    out = os.path.join(fresh(), "out") if rng.random() < .7 else fresh()
    R.begin(tag=tag)
    how = "script" if rng.random() < .06 else "main"
    st, _ = guarded(lambda: quiet(lambda: convert_avhrr(path, out, lim, band, how, without)))
    o = {"status": st, "out": {}, "same": bytes_of(d) == before}

    def look():
        for n in listing(out):
            full = os.path.join(out, n)
            e = dump(full, 10 / dt, MORE)
            g = Dataset(full)
            for p in range(2):
                v = "nominal_measurand%d" % (p + 1)
                nm = NAMES.get(sensors[p])
                if v in e["vars"] and nm and BAND[nm][ch - 1][0] > 0 and "original_indices" in e["vars"]:
                    try:
                        e["vars"][v]["v"] = [enc(x / planck(nm, ch, js[p][int(i)])[1] * UNIT, 1, .4)
                                             for x, i in zip(g.variables[v][:], g.variables["original_indices"][:])]
                    except (IndexError, ValueError):
                        e["vars"][v]["v"] = [INEXACT]
            g.close()
            o["out"][n] = e
    s2, _ = guarded(look)
    if s2 != "ok":
        o["status"] = "unreadable"
    R.rec("avhrr", tag=tag, how=how, obs=o,
          **{"in": {"name": name, "sensors": sensors, "H": H, "Ur": Ur, "Us": Us, "K": K, "Kr": Kr, "Ks": Ks, "time": [encs(x, 10 / dt) for x in tm], "t": t,
                    "u": u, "bt": bt, "lim": lim, "band": band, "extra": extra}})
    shutil.rmtree(d)
    shutil.rmtree(out, ignore_errors=True)


# ---- microwave sensors -----------------------------------------------------------------------------------------------------

def instr(name):
    return "ref" if name == "18" else "AMSUB" if name in ("15", "16", "17") else "MHS" if name in ("19", "ma", "mb") else "none"


def mw_file(path, names, M, dt, t, ft):
    """A microwave file, and its description."""
    m = [{"ref": 1, "AMSUB": 11, "MHS": 9, "none": 9}[instr(n)] for n in names]
    f = Dataset(path, "w")
    f.sensor_1_name, f.sensor_2_name = names
    for n, z in (("M", M), ("m1", m[0]), ("m2", m[1])):
        f.createDimension(n, z)

    def put(n, dims, t_, v, desc=""):
        x = f.createVariable(n, t_, dims)
        x.description = desc
        x[:] = v
    for p in range(2):
        q = str(p + 1)
        put("X" + q, ("M", "m" + q), ft, arr(grid(M, m[p])))
        put("Ur" + q, ("M", "m" + q), ft, arr(grid(M, m[p], 1, 1000000 if FINE[0] else 1000)))
        us = [[0 if m[p] == 1 or c < 2 or c == m[p] - 2 else grid(1, 1, 1, 1000000 if FINE[0] else 99)[0][0] for c in range(m[p])] for _ in range(M)]
        put("Us" + q, ("M", "m" + q), ft, arr(us))
        put("uncertainty_type" + q, ("m" + q,), "i4", np.array([rng.choice([1, 2])] * m[p]))
        put("time" + q, ("M",), "f8", times(t[p], dt))
    for n, lims in (("K", (-9999, 9999)), ("Kr", (1, 999)), ("Ks", (0, 999))):
        put(n, ("M",), ft, np.array([x[0] for x in grid(M, 1, *lims)], dtype=float) / SC)
    for n in ("across_track_index1", "nominal_BT1"):
        if rng.random() < .4:
            put(n, ("M",), "i4" if n[0] == "a" else ft, np.array([rng.randint(1, 90) for _ in range(M)]))
    if rng.random() < .3:
        f.createDimension("side", 2)
        put("extra_image", ("M", "side"), rng.choice(["f4", "f8", "i2"]), np.array([[rng.randint(1, 90) for _ in range(2)] for _ in range(M)]))
        put("extra_table", ("side",), "f8", np.array([rng.randint(1, 90) for _ in range(2)]))
        f.title = "a title"
    f.close()


def mw(tag, s=None):
    import MW_add_W_matrices as MW
    d, out = fresh(), fresh()
    if rng.random() < .5:
        os.rmdir(out)
    dt = 8. / 3
    files = {}
    n = 1 if s else rng.choice([1, 1, 2, 2, 3])
    for k in range(n):
        names = s["s"] if s else rng.sample(["18", "15", "16", "17", "19", "ma", "mb"], 2)
        if not s and names[1] == "18" and rng.random() < .8:
            names = names[::-1]
        if not s and rng.random() < .05:
            names[rng.randint(0, 1)] = rng.choice(["14", "n19", "m02"])
        M = len(s["t"][0]) if s else rng.choice([rng.randint(1, 6), rng.randint(1, 20)])
        t = s["t"] if s else [places(M), places(M)]
        name = ("f%d.nc" if s else rng.choice(["f%d.nc", "a b%d.nc", "%d.x.NC", "mw%d"])) % k
        ft = rng.choice(["f4", "f8"])
        FINE[0] = ft == "f8"
        mw_file(os.path.join(d, name), names, M, dt, t, ft)
        files[name] = {"f": dump(os.path.join(d, name), 10 / dt), "t": t}
    before = bytes_of(d)
    if all(instr(f["f"]["attrs"]["sensor_1_name"]) != "none" and instr(f["f"]["attrs"]["sensor_2_name"]) in ("AMSUB", "MHS") for f in files.values()):
        occupied(out, [x for x in files if rng.random() < .5])
    R.begin(tag=tag)
    how = "script" if rng.random() < .06 else "main"
    if how == "script":
        st, _ = guarded(lambda: script("MW_add_W_matrices.py", [d, out]))
    else:
        st, _ = guarded(lambda: quiet(lambda: MW.main(d, out)))
    o = {"status": st, "out": {}, "same": bytes_of(d) == before}

    def look():
        for x in listing(out):
            o["out"][x] = dump(os.path.join(out, x), 10 / dt)
    s2, _ = guarded(look)
    if s2 != "ok":
        o["status"] = "unreadable"
    R.rec("mw", tag=tag, how=how, files=files, obs=o)
    shutil.rmtree(d)
    shutil.rmtree(out, ignore_errors=True)


# ---- simulated data ------------------------------------------------------------------------------------------------------------

PMH = []


def pmh():
    if not PMH:
        keep = sys.argv
        sys.argv = ["pmh2fiduceo.py", "--quiet"]
        try:
            PMH.append(quiet(lambda: __import__("pmh2fiduceo")))
        finally:
            sys.argv = keep
    return PMH[0]


def num(x):
    return rng.choice(["%r", "%r", "%.17e", "%+.20g"]) % (x / float(SC))


def sim(tag, s=None):
    if s:
        pairs, n, vs = s["pairs"], s["n"], [dict(v, r=v["r"] * SC // 16, s=v["s"] * SC // 16) for v in s["vars"]]
        vs = [dict(v, k={1: 1, 2: 2, 3: 4}.get(v["k"], v["k"])) for v in vs]
    else:
        pairs = rng.sample([["0", "1"], ["1", "2"], ["2", "3"], ["0", "3"], ["1", "3"], ["10", "0%d" % rng.randint(1, 9)], ["3", "10"], ["0", "10"], ["12", "11"]], rng.randint(1, 4))
        n = [rng.choice([rng.randint(1, 6), rng.randint(1, 30)]) for _ in pairs]
        av = [rng.randint(1, 500000), rng.choice([1, 2, 4, 8, 32])]
        vs = []
        for _ in range(rng.randint(1, 4)):
            form = rng.choice(["R", "RS", "MA", "MA"])
            if form == "MA" and rng.random() < .15:
                av = [av[0] + rng.choice([0, 1, 1, 512]), rng.choice([av[1], 1, 2, 4])]
            vs.append({"form": form, "r": av[0] if form == "MA" else rng.randint(1, 500000000), "s": rng.randint(1, 500000000) if form == "RS" else 0,
                       "k": av[1] if form == "MA" else 0})
    nX = len(vs)
    if sum(n) < 2:
        n = [x + 1 for x in n]
    FINE[0] = rng.random() < .7
    H = grid(sum(n), 2 * nX + 1)
    uref, Kr = 512 * rng.randint(1, 999), 512 * rng.randint(1, 999)
    a = grid(rng.randint(1, 3), rng.randint(1, 4))
    d = fresh()
    with open(os.path.join(d, "data_vals.txt"), "w") as f:
        for row in H:
            f.write(" ".join(num(x) for x in row) + "\n")
    with open(os.path.join(d, "data_pams.txt"), "w") as f:
        f.write("Im\n" + "".join("%s %s\n" % tuple(p) for p in pairs) + "Nm\n" + "".join("%d\n" % x for x in n) + "atrue\n" +
                "".join(" ".join(num(x) for x in row) + "\n" for row in a))
    with open(os.path.join(d, "data_uncs.txt"), "w") as f:
        f.write("Reference:\n%s\n" % num(uref))
        for j, v in enumerate(vs):
            f.write("Variable %d %s:\n" % (j + 1, v["form"]))
            f.write({"R": num(v["r"]), "RS": num(v["r"]) + " " + num(v["s"]), "MA": "%s %d" % (num(v["r"]), v["k"])}[v["form"]] + "\n")
        f.write("K:\n%s\n" % num(Kr))
    complete = rng.random() > .05
    if not complete:
        os.remove(os.path.join(d, rng.choice(["data_vals.txt", "data_pams.txt", "data_uncs.txt"])))
    before = bytes_of(d)
    out = fresh()
    if rng.random() < .5:
        os.rmdir(out)
    R.begin(tag=tag)
    how = "script" if rng.random() < .12 or not complete else "main"
    if how == "script":
        opts = rng.choice([[], ["--quiet"], ["--verbose"]])
        st, _ = guarded(lambda: script("pmh2fiduceo.py", ["-i", d, "-o", out] + opts))
    else:
        def go():
            pmh().prepare_directories(d, out)
            pmh().run_conversion(d, out)
        st, _ = guarded(lambda: quiet(go))
    o = {"status": st, "out": {}, "a": [], "same": bytes_of(d) == before}

    def look():
        for x in listing(out):
            if x == "atrue.txt":
                o["a"] = encm(np.loadtxt(os.path.join(out, x), ndmin=2), SC)
            else:
                o["out"][x] = dump(os.path.join(out, x), 1)
    s2, _ = guarded(look)
    if s2 != "ok":
        o["status"] = "unreadable"
    R.rec("sim", tag=tag, how=how, obs=o, **{"in": {"pairs": pairs, "n": n, "H": H, "uref": uref, "Kr": Kr, "vars": vs, "a": a, "complete": complete}})
    shutil.rmtree(d)
    shutil.rmtree(out, ignore_errors=True)


# ---- channels --------------------------------------------------------------------------------------------------------------------

def band(tag, name, conv, st, ch, way, shape):
    n = int(np.prod(shape)) if shape else 1
    js = [rng.choice([rng.randint(2, 30), rng.randint(2, 60)]) if not shape or rng.random() < .8 else 0 for _ in range(n)]
    known = name in BAND and BAND[name][ch - 1][0] > 0
    pts = [planck(name if known else "n19", ch, j) if j else (rng.choice([0., -1., -300., np.nan, np.inf]),) * 2 for j in js]
    x = np.array([p[0 if way == "temp2rad" else 1] for p in pts]).reshape(shape) if shape else pts[0][0 if way == "temp2rad" else 1]
    if shape:
        lay = rng.choice(["", "", "T", "view"])
        if lay == "T":
            x = np.asfortranarray(x)
        elif lay == "view":
            x = np.repeat(x, 2, axis=0)[::2]
    keep = np.array(x, copy=True)
    v = None
    if st == "ok":
        st, v = guarded(lambda: getattr(conv, way)(x, ch))
    o = {"status": st, "same": bool(np.array_equal(keep, x, equal_nan=True))}
    if st == "ok":
        y = np.asarray(v, dtype=float)
        o["shape"] = list(y.shape)
        o["v"] = [NAN if not np.isfinite(z) else enc(z / p[1 if way == "temp2rad" else 0] * UNIT, 1, .01) if j else INEXACT
                  for z, p, j in zip(y.ravel(), pts, js)]
    R.rec("band", tag=tag, name=name, channel=ch, way=way, shape=list(shape), given=js, obs=o)


def alike(name, conv, st, ch, way):
    """Whole numbers, and single precision, in arrays and one by one."""
    n = rng.randint(1, 5)
    t = rng.choice(["i2", "i4", "i8", "f4"])
    x = np.array([rng.randint(150, 330) if way == "temp2rad" else rng.randint(1, 150) for _ in range(n)], dtype=t)
    keep = x.copy()
    v = None
    if st == "ok":
        st, v = guarded(lambda: (getattr(conv, way)(x, ch), [getattr(conv, way)(float(z), ch) for z in x]))
    o = {"status": st, "same": bool(np.array_equal(keep, x))}
    if st == "ok":
        y = np.asarray(v[0], dtype=float)
        # of a number in single precision, so is what it is converted to
        o["shape"], o["v"] = list(y.shape), [enc(p / q * UNIT, 1, .5 if t == "f4" else .01) for p, q in zip(y.ravel(), v[1])]
    R.rec("band", tag="types", name=name, channel=ch, way=way, shape=[n], given=[1] * n, obs=o)


def bands():
    from convert_bt_to_radiance import convertBT
    names = sorted(BAND) + ["n13", "N19", "", "avhrr"]
    rng.shuffle(names)
    made = [guarded(lambda: convertBT(name)) for name in names]         # there are converters of several sensors at once
    for name, (st, conv) in zip(names, made):
        R.begin(tag="channels")
        for trial in range(10 if DEEP else 2):
            for ch in (1, 2, 3):
                for way in ("temp2rad", "rad2temp"):
                    alike(name, conv, st, ch, way)
                    for shape in ((), (rng.randint(1, 6),), (rng.randint(1, 3), rng.randint(1, 3)), (2, rng.randint(1, 2), rng.randint(1, 3))):
                        if name in BAND or rng.random() < .2:
                            band("channels", name, conv, st, ch, way, shape)


def some(key, quick, deep):
    mine = [s[key] for s in scen if key in s]
    rng.shuffle(mine)
    return mine[:deep if DEEP else quick]


if PROP == "P25":
    for k, n in enumerate(sorted(MENDS)):     # each known finding alone, on data of its own
        keep, rng = rng, random.Random(5 + k)
        avhrr("known-" + n, {"ref": False, "t": [[0, 10, 20], [0, 10, 30]], "k": 2, "bad": [], "lim": n == "limit", "bt": [2, 1, 2]}, n)
        rng = keep
    for s in some("avhrr", 90, 800):
        avhrr("model", s)
    for _ in range(500 if DEEP else 70):
        avhrr("random")
if PROP == "P26":
    for s in some("mw", 90, 600):
        mw("model", s)
    for _ in range(400 if DEEP else 60):
        mw("random")
if PROP == "P27":
    for s in some("sim", 150, 600):
        sim("model", s)
    for _ in range(500 if DEEP else 80):
        sim("random")
if PROP == "P28":
    bands()
R.close()
shutil.rmtree(ROOT)
