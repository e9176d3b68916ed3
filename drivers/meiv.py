"""Drives the Fortran software (through drivers/fortran/probe.F90 and its own executable) and records what it holds and writes."""
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *                                                                                        # noqa
import numpy as np

BUILD = os.environ["VERIF_BUILD"]
Q = 1 << 10             # values are integers / Q, squares integers / Q^2
HUGE = 2000000005
UUID = "0123456789abcdef0123456789abcdef%04d"
OUT, SCEN, PROP = sys.argv[1:4]
rng = random.Random(SEED * 7919 + 17)
R = Recorder(OUT)
_n = [0]


class Box(object):
    """A directory in which the programs run."""
    def __init__(self):
        _n[0] += 1
        self.d = os.path.join(os.getcwd(), "box%d" % _n[0])
        os.makedirs(self.d)
        self.cmd = []

    def say(self, *words):
        self.cmd.append(" ".join(str(w) for w in words))

    def run(self, program="probe"):
        with open(os.path.join(self.d, "probe.in"), "w") as f:
            f.write("\n".join(self.cmd) + "\n")
        p = subprocess.Popen([os.path.join(BUILD, program)], cwd=self.d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            out, _ = p.communicate(timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            rc = -99
        self.rc = rc
        self.out = out.decode("latin-1")
        self.lines = []
        for x in self.out.splitlines():
            if x.startswith("@@"):
                w = x.split(" ", 2)
                key, rest = w[1], (w[2] if len(w) > 2 else "")
                if w[0] == "@@I":
                    val = [int(y) for y in rest.split()]
                elif w[0] == "@@R":
                    val = [float(y) for y in rest.split()]
                else:
                    val = rest
                self.lines.append((key, val))
        if os.environ.get("VERIF_DEBUG") and rc:
            sys.stderr.write(self.d + "\n" + self.out[-800:] + "\n")
        return self

    def status(self):
        """done, refused (stopped with an error of its own) or crash"""
        if self.rc == 0 and any(k == "end" for k, _ in self.lines):
            return "done"
        return "refused" if self.stopped() else "crash"

    def stopped(self):
        return self.rc > 0 and "runtime error" not in self.out

    def get(self, key, default=None):
        v = [x for k, x in self.lines if k == key]
        return v[-1] if v else default

    def all(self, key):
        return [x for k, x in self.lines if k == key]

    def remove(self):
        if not os.environ.get("VERIF_DEBUG"):
            shutil.rmtree(self.d, ignore_errors=True)


def text(x):
    return '"' + x.replace('"', '""') + '"'


def num(x):
    return repr(float(x))


def nums(xs):
    return " ".join(num(x) for x in xs)


def namelist(path, name, items):
    with open(path, "w") as f:
        f.write("$%s\n" % name)
        for k, v in items:
            if isinstance(v, bool):
                v = "T" if v else "F"
            elif isinstance(v, str):
                v = text(v)
            elif isinstance(v, (list, tuple)):
                v = ", ".join(str(x) for x in v)
            f.write("   %s = %s\n" % (k, v))
        f.write("/\n")


# ---------------------------------------------------------------------------------------------------------------------
# Match-up data sets

def some(rng, lo, hi, bits):
    return big(rng, lo, hi, bits)


def structured(rng, M, base):
    """A weight matrix: windows that move, some rows empty or with gaps, columns ascending or descending."""
    row, col, val, at = [0], [], [], 0
    style = rng.choice(["windows", "windows", "free"])
    for r in range(M):
        if style == "windows":
            cols = list(range(at, at + rng.randint(1, 3)))
            at += rng.choice([0, 1, 1, 2])
        else:
            cols = sorted(rng.sample(range(2 * M + 1), rng.randint(0 if r else 1, 3)))
        if rng.random() < .25:
            cols.reverse()
        col += cols
        val += [rng.randint(1, 40) for _ in cols]
        row.append(len(col))
    return {"row": row, "col": col, "val": val, "base": base}


def dataset(rng, M, m, ut, base=None, plain=False):
    """A match-up data set of the Fortran software; ut are the uncertainty types of both sensors' columns."""
    base = rng.choice([0, 1]) if base is None else base
    has = lambda: plain or rng.random() < .8
    D = {"M": M, "m": list(m), "ut": ut, "lacks": [], "W": [], "U": [], "wuse": [], "uuse": [], "uuid": UUID % rng.randint(0, 9999), "how": ""}
    D["X"] = [[[some(rng, -2000, 2000, 23) for _ in range(m[p])] for _ in range(M)] for p in range(2)]
    D["Ur"] = [[[rng.randint(0, 900) for _ in range(m[p])] for _ in range(M)] for p in range(2)]
    D["Us"] = [[[rng.randint(0, 900) for _ in range(m[p])] for _ in range(M)] for p in range(2)]
    D["hasur"] = [has(), has()]
    D["hasus"] = [has(), has()]
    D["hasut"] = [bool(ut[p] != [1] * m[p] or has()) for p in range(2)]
    D["K"] = [some(rng, -2000, 2000, 23) for _ in range(M)]
    D["Kr"] = [rng.randint(1, 900) for _ in range(M)]
    D["Ks"] = [rng.randint(0, 900) for _ in range(M)]
    D["hask"], D["haskr"], D["hasks"] = has(), has(), has()
    t0 = rng.randint(-1000000000, 1900000000)
    D["t"] = [[t0 + rng.randint(0, 100000) for _ in range(M)] for _ in range(2)]
    D["track"] = [{"has": rng.random() < .5, "v": [rng.randint(0, 4000) for _ in range(M)]} for _ in range(2)]
    for p in range(2):
        wu, uu = [], []
        for c in range(m[p]):
            if ut[p][c] in (3, 4):
                if D["W"] and rng.random() < .4:
                    w = rng.randint(1, len(D["W"]))
                else:
                    D["W"].append(structured(rng, M, base))
                    w = len(D["W"])
                n = max(D["W"][w - 1]["col"]) + 1
                same = [i for i in range(len(D["U"])) if len(D["U"][i]) == n]
                if same and rng.random() < .3:
                    u = rng.choice(same) + 1
                else:
                    D["U"].append([rng.randint(1, 900) for _ in range(n)])
                    u = len(D["U"])
                wu.append(w)
                uu.append(u)
            else:
                wu.append(0)
                uu.append(0)
        D["wuse"].append(wu)
        D["uuse"].append(uu)
    D["types"] = [rng.choice(["f8", "f4"]), rng.choice(["i4", "i2"])]
    return D


def fl(rng, rows, how="", q=Q):
    """Numbers to store, with the special ones."""
    def one(x):
        if x == NAN:
            return float("nan")
        if x == HUGE:
            return rng.choice([float("inf"), -float("inf")] if how == "inf" else [1e20, -1e20, 3e38])
        return x / float(q)
    return np.array([[one(x) for x in r] for r in rows]) if rows and isinstance(rows[0], list) else np.array([one(x) for x in rows])


def write_dataset(path, D, rng):
    from netCDF4 import Dataset
    d = Dataset(path, "w", format="NETCDF4")
    M, m = D["M"], D["m"]
    real, integer = D["types"]
    d.createDimension("M", M)
    d.createDimension("m1", m[0])
    d.createDimension("m2", m[1])
    if D["uuid"]:
        d.matchup_dataset_uuid = D["uuid"]

    def var(name, dtype, dims, data):
        if name not in D["lacks"]:
            d.createVariable(name, dtype, dims, fill_value=False)[:] = np.array(data)

    for p in range(2):
        q = str(p + 1)
        var("X" + q, real, ("M", "m" + q), fl(rng, D["X"][p], D["how"]))
        if D["hasur"][p]:
            var("Ur" + q, real, ("M", "m" + q), fl(rng, D["Ur"][p], D["how"]))
        if D["hasus"][p]:
            var("Us" + q, real, ("M", "m" + q), fl(rng, D["Us"][p], D["how"]))
        if D["hasut"][p]:
            var("uncertainty_type" + q, integer, ("m" + q,), D["ut"][p])
        var("time" + q, "f8", ("M",), [float("nan") if x == NAN else float("inf") if x == HUGE else x for x in D["t"][p]])
        if D["track"][p]["has"]:
            var("across_track_index" + q, integer, ("M",), D["track"][p]["v"])
    for name, h in (("K", "hask"), ("Kr", "haskr"), ("Ks", "hasks")):
        if D[h]:
            var(name, real, ("M",), fl(rng, D[name], D["how"]))
    if D["W"]:
        W, U = D["W"], D["U"]
        d.createDimension("w_matrix_count", len(W))
        d.createDimension("w_matrix_row_count", M + 1)
        d.createDimension("w_matrix_nnz_sum", sum(len(w["val"]) for w in W))
        d.createDimension("u_matrix_count", len(U))
        d.createDimension("u_matrix_row_count_sum", sum(len(u) for u in U))
        var("w_matrix_nnz", "i4", ("w_matrix_count",), [len(w["val"]) for w in W])
        var("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count"), [[x + w["base"] for x in w["row"]] for w in W])
        var("w_matrix_col", "i4", ("w_matrix_nnz_sum",), sum([[x + w["base"] for x in w["col"]] for w in W], []))
        var("w_matrix_val", real, ("w_matrix_nnz_sum",), fl(rng, sum([w["val"] for w in W], []), D["how"]))
        var("u_matrix_row_count", "i4", ("u_matrix_count",), [len(u) for u in U])
        var("u_matrix_val", real, ("u_matrix_row_count_sum",), fl(rng, sum(U, []), D["how"]))
        for p in range(2):
            q = str(p + 1)
            var("w_matrix_use" + q, "i4", ("m" + q,), D["wuse"][p])
            var("u_matrix_use" + q, "i4", ("m" + q,), D["uuse"][p])
    d.close()


SPOILS = ([(k, p, v) for k in ("X", "Ur", "Us") for p in (0, 1) for v in ("nan", "inf", "huge")]
          + [(k, 0, v) for k in ("K", "Kr", "Ks", "U", "W") for v in ("nan", "inf", "huge")]
          + [("t", p, v) for p in (0, 1) for v in ("nan", "inf")] + [("zero", 0, ""), ("uzero", 0, ""), ("wneg", 0, ""), ("wneg", 1, ""), ("mixed", 0, "")]
          + [("lacks", 0, v) for v in ("X1", "X2", "time1", "time2", "u_matrix_val", "w_matrix_row", "w_matrix_use2", "u_matrix_use1", "w_matrix_nnz")])


def spoil(rng, D, what=None):
    """One thing that must be refused."""
    free = [x for x in SPOILS if D["W"] or not (x[0] in ("U", "W", "uzero", "wneg", "mixed") or "matrix" in x[2])]
    k, p, v = what if what in free else rng.choice(free)
    D["how"] = v
    bad = NAN if v == "nan" else HUGE
    r = rng.randint(0, D["M"] - 1)
    if k in ("X", "Ur", "Us"):
        D[k][p][r][rng.randint(0, D["m"][p] - 1)] = bad
        if k != "X":
            D["has" + k.lower()][p] = True
    elif k in ("K", "Kr", "Ks"):
        D[k][r] = bad
        D["has" + k.lower()] = True
    elif k == "t":
        D["t"][p][r] = bad
    elif k == "lacks":
        D["lacks"] = [v]
    elif k in ("U", "uzero"):
        x = rng.choice(D["U"])
        x[rng.randint(0, len(x) - 1)] = bad if k == "U" else 0
    elif k in ("W", "wneg"):
        x = rng.choice(D["W"])["val"]
        x[rng.randint(0, len(x) - 1)] = bad if k == "W" else [0, -3][p]
    elif k == "mixed" and len(D["W"]) > 1:
        w = rng.choice(D["W"])
        w["base"] = 1 - w["base"]
    else:
        k = "zero"
        D["Kr"][r], D["haskr"] = 0, True
    return k


# ---------------------------------------------------------------------------------------------------------------------
# What the program holds

def dump_of(b):
    def mats(kind, fields):
        out = []
        for k in range(1, (b.get("n" + kind) or [0])[0] + 1):
            out.append({f: b.get("%s%d.%s" % (kind, k, f)) for f in fields})
        return out
    o = {"b": [], "d": [], "v": [], "w": [], "mm": []}
    for x in mats("b", ("m", "a", "u")):
        o["b"].append({"m": x["m"][0], "a": encs(x["a"], Q * Q), "u": encs(x["u"], Q)})
    for kind in "dv":
        for x in mats(kind, ("m", "a")):
            o[kind].append({"m": x["m"][0], "a": encs(x["a"], Q * Q)})
    for x in mats("w", ("mn", "ia", "ja", "a")):
        o["w"].append({"m": x["mn"][0], "n": x["mn"][1], "B": {"ia": x["ia"], "ja": x["ja"], "a": encs(x["a"], Q)}})
    for k in range(1, (b.get("nm") or [0])[0] + 1):
        g = lambda f: b.get("m%d.%s" % (k, f))
        m = g("m")
        o["mm"].append({"name": g("name"), "uuid": g("uuid"), "i": g("ij")[0], "j": g("ij")[1], "m": m[0], "start": m[1], "final": m[2],
                        "r": g("r"), "q": [[encs(x, Q) for x in b.all("m%d.q%s" % (k, x))] for x in "ij"],
                        "h": [encs(g("hi"), Q), encs(g("hj"), Q)], "vh": [encs(g("vhi"), Q * Q), encs(g("vhj"), Q * Q)],
                        "t": [encs(g("ti")), encs(g("tj"))], "p": [g("pi"), g("pj")], "u": [g("ui"), g("uj")], "c": [g("ic"), g("jc")],
                        "v": [g("iv"), g("jv")], "w": [g("iw"), g("jw")]})
    return o


def split_dumps(b):
    """The lines of each dump (a dump ends with the next reading or the end)."""
    parts, cur = [], []
    for k, v in b.lines:
        if k in ("reading", "end"):
            parts.append(cur)
            cur = []
        cur.append((k, v))
    parts.append(cur)
    return parts


# ---------------------------------------------------------------------------------------------------------------------
# Reading

def reading(rng, job, sensors, files, cap=-1, tag="", demo=False):
    """sensors: numbers of columns r; files: [i, j, s, D, name]. Reads file by file in one process."""
    b = Box()
    n = len(sensors)
    items = [("config_job_enable_covariance_common", job["common"]), ("config_job_enable_covariance_matrix", job["cov"]),
             ("config_job_id", "T"), ("config_job_sensor_count", n)]
    for k in range(n):
        items.append(("config_job_sensor_names(%d)" % (k + 1), "S%d" % (k + 1)))
        if job["sel"][k]["on"]:
            items.append(("config_job_sensor_columns_select(%d)" % (k + 1), True))
            items.append(("config_job_sensor_columns(%d,:)" % (k + 1), job["sel"][k]["cols"]))
    items.append(("config_job_matchup_count", len(files)))
    for k, (i, j, s, D, name) in enumerate(files):
        items += [("config_job_matchup(%d,:)" % (k + 1), [i, j]), ("config_job_matchup_datasets(%d)" % (k + 1), "f%d.nc" % k),
                  ("config_job_matchup_names(%d)" % (k + 1), name), ("config_job_matchup_samplings(%d)" % (k + 1), s)]
        write_dataset(os.path.join(b.d, "f%d.nc" % k), D, rng)
    items.append(("config_job_matchup_dataset_path", rng.choice(["./", "", b.d + "/"])))
    namelist(os.path.join(b.d, "j.nml"), "job", items)
    namelist(os.path.join(b.d, "run.nml"), "run", [("config_job", "j.nml"), ("config_enable_log_level", rng.choice([1, 4]))])
    R.begin(tag=tag, kind="read", job=job, r=sensors, cap=(1000000 if cap < 0 else cap))
    if demo:
        b.run("harmonisation-demo")
        made = [x for x in os.listdir(b.d) if x.startswith("harm_")]
        R.rec("demo", files=[{"i": f[0], "j": f[1], "s": f[2], "D": f[3]} for f in files],
              obs={"status": "done" if b.rc == 0 else "refused" if b.stopped() else "crash", "n": len(made)})
        b.remove()
        return
    b.say("config")
    b.say("init")
    b.say(-1, cap, -1)
    for k in range(n):
        b.say("sensor")
        b.say(text("S%d" % (k + 1)))
        b.say(101, 3, sensors[k], 0, 0, 0)
        b.say("0 0 0")
        b.say("0 0 0")
    for k in range(len(files)):
        b.say("read")
        b.say(k + 1)
        b.say("dump")
        if not job["cov"]:
            b.say("drop")
    b.run()
    parts = split_dumps(b)
    for k, (i, j, s, D, name) in enumerate(files):
        mine = parts[k + 1] if k + 1 < len(parts) else []
        started = any(x == ("reading", [k + 1]) for x in mine)
        if not started:
            R.rec("skipped", obs={"status": b.status()})
            break
        ok = any(x[0] == "read" for x in mine)
        rec = {"i": i, "j": j, "s": s, "D": D, "name": name, "obs": {"status": "read" if ok else b.status()}}
        R.rec("reading", **rec)
        if not ok:
            break
        old = b.lines
        b.lines = mine
        R.rec("dump", obs=dump_of(b))
        b.lines = old
    else:
        R.rec("end", obs={"status": b.status()})
    b.remove()


def read_scenarios(scen):
    mine = [s for s in scen if s["kind"] == "read"]
    rng.shuffle(mine)
    for s in mine[:40 if TIER == "quick" else 200]:
        files = []
        for f in s["files"]:
            D = dataset(rng, f["M"], [len(f["ut"][0]), len(f["ut"][1])], [list(x) for x in f["ut"]])
            files.append((f["i"], f["j"], f["s"], D, "n%d" % len(files)))
        reading(rng, {"common": s["common"], "cov": s["cov"], "sel": [{"on": False, "cols": []}] * 3}, [1, 2, 2], files, tag="model")
    for trial in range(70 if TIER == "quick" else 350):
        n = rng.randint(2, 4)
        common = rng.random() < .5
        m = [rng.randint(1, 4) for _ in range(n)]
        sel, sensors = [], []
        for k in range(n):
            lim = m[k] if common else 2 * m[k]
            r = rng.randint(1, lim)
            on = rng.random() < .4
            sel.append({"on": on, "cols": rng.sample(range(1, lim + 1), r) if on else []})
            sensors.append(r)
        kind = rng.choice(["ok"] * 6 + ["spoil"] * 4 + ["pair", "size", "cap"])
        pairs = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
        rng.shuffle(pairs)
        pairs = pairs[:rng.randint(1, 3)]
        files = []
        for i, j in pairs:
            M = rng.choice([1, 2, 3, 4, 5, 6, 7])
            D = dataset(rng, M, [m[i - 1], m[j - 1]], [[rng.choice([1, 1, 2, 3, 4]) for _ in range(m[x - 1])] for x in (i, j)])
            files.append((i, j, rng.choice([1, 1, 2, 3, 4]), D, "%d_%d" % (i, j)))
        tag = kind
        if kind == "spoil":
            tag = "spoil-" + spoil(rng, files[-1][3])
        elif kind == "pair":
            f = files[0]
            files.append(rng.choice([f, (f[1], f[0], f[2], dataset(rng, 2, [m[f[1] - 1], m[f[0] - 1]], [[1] * m[f[1] - 1], [1] * m[f[0] - 1]]), "x"),
                                     (f[0], f[0], 1, dataset(rng, 2, [m[f[0] - 1]] * 2, [[1] * m[f[0] - 1]] * 2), "y")]))
        elif kind == "size":
            i, j = pairs[0]
            k = rng.choice([i, j]) - 1
            sensors[k] = (m[k] if common else 2 * m[k]) + 1
            sel[k] = {"on": False, "cols": []}
        reading(rng, {"common": common, "cov": rng.random() < .7, "sel": sel}, sensors, files, tag=tag,
                cap=rng.randint(0, len(files)) if kind == "cap" else -1)
    if PROP == "P18":
        for rep in range(2 if TIER == "quick" else 8):
            for what in SPOILS:
                m = [rng.randint(1, 3), rng.randint(1, 3)]
                D = dataset(rng, rng.randint(1, 5), m, [[3 if c == 0 and p == rep % 2 else rng.choice([1, 2, 3, 4]) for c in range(m[p])] for p in range(2)])
                if what[0] == "mixed":
                    m = [2, 1]
                    while len(D["W"]) < 2:
                        D = dataset(rng, 3, m, [[3, 4], [3]])
                tag = "spoil-" + spoil(rng, D, what)
                common = rng.random() < .5 if what[0] != "Us" else rep % 2 == 0
                reading(rng, {"common": common, "cov": True, "sel": [{"on": False, "cols": []}] * 2}, m, [(1, 2, rng.choice([1, 2]), D, "x")], tag=tag)
    for trial in range(8 if TIER == "quick" else 40):
        common = rng.random() < .5
        files = []
        for i, j in ((1, 2), (2, 3), (3, 4)):
            m = [1 if i == 1 else 4, 4]
            D = dataset(rng, rng.randint(1, 6), m, [[rng.choice([1, 2, 3]) for _ in range(m[p])] for p in range(2)])
            files.append((i, j, rng.choice([1, 2]), D, "f"))
        tag = "demo"
        if trial % 2:
            tag += "-" + spoil(rng, rng.choice(files)[3])
        reading(rng, {"common": common, "cov": rng.random() < .5, "sel": [{"on": False, "cols": []}] * 4}, [1, 4, 4, 4], files, tag=tag, demo=True)


def pair_scenarios():
    for trial in range(12 if TIER == "quick" else 60):
        b = Box()
        cap = rng.randint(1, 4)
        b.say("init")
        b.say(3, cap, 2)
        adds = []
        for k in range(rng.randint(1, 7)):
            a = {"i": rng.randint(-1, 4), "j": rng.randint(0, 4), "m": rng.randint(1, 9), "r": [rng.randint(1, 3), rng.randint(1, 3)]}
            if rng.random() < .6 and a["i"] >= a["j"]:
                a["i"], a["j"] = 1, 1 + rng.randint(1, 3)
            adds.append(a)
            b.say("addm")
            b.say(text("p%d" % k))
            b.say(a["i"], a["j"], a["m"], a["r"][0], a["r"][1])
        b.say("dump")
        b.run()
        R.begin(tag="pairs", kind="pairs")
        R.rec("pairs", cap=cap, adds=adds, obs={"status": b.status(), "idx": [x[0] for x in b.all("added")], "mm": dump_of(b)["mm"] if b.status() == "done" else []})
        b.remove()


def sensor_scenarios():
    for trial in range(25 if TIER == "quick" else 120):
        b = Box()
        cap = rng.randint(1, 5)
        cfg = [[rng.randint(-3000, 3000) for _ in range(12)] for _ in range(cap)]
        items = [("config_job_sensor_configurations(%d,1:12)" % (k + 1), [num(x / float(Q)) for x in cfg[k]]) for k in range(cap)]
        namelist(os.path.join(b.d, "j.nml"), "job", items)
        namelist(os.path.join(b.d, "run.nml"), "run", [("config_job", "j.nml")])
        b.say("config")
        b.say("init")
        b.say(cap, 2, 2)
        adds = []
        for k in range(rng.randint(1, cap + 1)):
            n = rng.choice([0, 1, 2, 3, 4])
            a = {"name": "Sensor %d" % rng.randint(0, 99), "id": rng.randint(0, 200), "n": n, "r": rng.randint(1, 6), "o": rng.choice([0, 0, 1, 4, 7, 12]),
                 "hasx": rng.random() < .6, "hasu": rng.random() < .6, "x": [rng.randint(-4000, 4000) for _ in range(n)],
                 "u": [rng.choice([0, -512, 256, 512, 1024, 2048, 4096]) for _ in range(n)]}
            adds.append(a)
            b.say("sensor")
            b.say(text(a["name"]))
            b.say(a["id"], n, a["r"], a["o"], int(a["hasx"]), int(a["hasu"]))
            b.say(nums(x / float(Q) for x in a["x"]) or "/")
            b.say(nums(x / float(Q) for x in a["u"]) or "/")
        b.say("sensors")
        b.run()
        o = {"status": b.status(), "idx": [x[0] for x in b.all("sensor")], "list": []}
        if o["status"] == "done":
            for k in range(1, b.get("ns")[0] + 1):
                g = lambda f: b.get("s%d.%s" % (k, f))
                o["list"].append({"name": g("name"), "idnro": g("idnr"), "at": g("at"), "y": encs(g("y"), Q), "x": encs(g("x"), Q),
                                  "c": [encs(x, Q * Q) for x in b.all("s%d.c" % k)], "ci": [encs(x, Q) for x in b.all("s%d.ci" % k)]})
        R.begin(tag="sensors", kind="sensors")
        R.rec("sensors", cap=cap, cfg=cfg, adds=adds, obs=o)
        b.remove()


# ---------------------------------------------------------------------------------------------------------------------
# Matrices by themselves

def band_scenarios(scen):
    mine = [s for s in scen if s["kind"] == "band"]
    rng.shuffle(mine)
    mine = mine[:60 if TIER == "quick" else 400]
    jobs = []
    for s in mine:
        s["W"]["base"] = rng.choice([0, 1])
        jobs.append(([s["W"]], s["s"], "model"))
    for trial in range(40 if TIER == "quick" else 200):
        M = rng.randint(1, 9)
        base = rng.choice([0, 1])
        Ws = [structured(rng, M, base) for _ in range(rng.randint(1, 3))]
        tag = "random"
        if len(Ws) > 1 and rng.random() < .15:
            Ws[rng.randint(0, len(Ws) - 1)]["base"] = 1 - base
            tag = "mixed"
        jobs.append((Ws, rng.choice([1, 1, 2, 3, 5]), tag))
    for Ws, s, tag in jobs:
        b = Box()
        M = len(Ws[0]["row"]) - 1
        b.say("init")
        b.say(1, 1, len(Ws))
        b.say("addw")
        b.say(len(Ws), M, s)
        b.say(*[len(w["val"]) for w in Ws])
        b.say(*sum([[x + w["base"] for x in w["row"]] for w in Ws], []))
        b.say(*sum([[x + w["base"] for x in w["col"]] for w in Ws], []))
        b.say(nums(x / float(Q) for w in Ws for x in w["val"]))
        b.say("dump")
        b.run()
        R.begin(tag=tag, kind="band")
        R.rec("stored", Ws=Ws, s=s, obs={"status": b.status(), "idx": b.get("added", []), "w": dump_of(b)["w"] if b.status() == "done" else []})
        b.remove()


def list_scenarios():
    for trial in range(30 if TIER == "quick" else 150):
        b = Box()
        cap = rng.randint(1, 5)
        b.say("init")
        b.say(1, 1, cap)
        ops = []
        for k in range(rng.randint(3, 14)):
            op = rng.choice(["d", "b", "v", "w", "z", "drop"] if rng.random() < .3 else ["d", "b", "v", "w", "z"])
            m = rng.randint(1, 4)
            val = [rng.randint(0, 900) for _ in range(m)]
            v2 = [rng.randint(0, 900) for _ in range(m)]
            if op in ("d", "z"):
                b.say("add" + op)
                b.say(*([m] if op == "d" else [m, 1]))
                b.say(nums(x / float(Q) for x in val))
                ops.append({"op": op, "n": 1, "val": [val], "u": []})
            elif op == "b":
                b.say("addb")
                b.say(m)
                b.say(nums(x / float(Q) for x in val))
                b.say(nums(x / float(Q) for x in v2))
                ops.append({"op": op, "n": 1, "val": [val], "u": v2})
            elif op == "v":
                vals = [[rng.randint(0, 900) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]
                b.say("addv")
                b.say(len(vals))
                b.say(*[len(x) for x in vals])
                b.say(nums(x / float(Q) for v in vals for x in v))
                ops.append({"op": op, "n": len(vals), "val": vals, "u": []})
            elif op == "w":
                b.say("addw")
                b.say(1, 1, 1)
                b.say(1)
                b.say(0, 1)
                b.say(0)
                b.say(nums([rng.randint(1, 9)]))
                ops.append({"op": op, "n": 1, "val": [], "u": []})
            else:
                b.say("drop")
                ops.append({"op": op, "n": 0, "val": [], "u": []})
        b.say("counts")
        b.say("dump")
        b.run()
        o = {"status": b.status(), "idx": b.all("added")}
        if o["status"] == "done":
            o["counts"] = b.get("counts")
            o["has"] = [b.get("has." + x) for x in "bdvwz"]
            o["held"] = dump_of(b)
        R.begin(tag="lists", kind="lists")
        R.rec("lists", cap=cap, ops=ops, obs=o)
        b.remove()


# ---------------------------------------------------------------------------------------------------------------------
# Dates, names and written data sets

def time_scenarios(scen):
    days = sorted(s["day"] for s in scen if s["kind"] == "day")
    more = [rng.randint(-130000, 150000) for _ in range(600 if TIER == "quick" else 4000)]
    batch = [(d, rng.choice([0, 86399, rng.randint(0, 86399), rng.randint(0, 1440) % 1440 * 60])) for d in days + more]
    for a in range(0, len(batch), 400):
        part = batch[a:a + 400]
        b = Box()
        b.say("time")
        b.say(len(part))
        frac = [rng.choice([0., 0., .25, .5, .99]) for _ in part]
        b.say(nums(d * 86400. + s + f for (d, s), f in zip(part, frac)))
        b.run()
        obs = []
        for x in b.all("time"):
            ok = len(x) == 16 and x[8] == "T" and x[15] == "Z" and (x[:8] + x[9:15]).isdigit()
            obs.append([int(x[0:4]), int(x[4:6]), int(x[6:8]), int(x[9:11]), int(x[11:13]), int(x[13:15])] if ok else [])
        R.begin(tag="time", kind="time")
        R.rec("time", days=[d for d, _ in part], secs=[s for _, s in part], obs={"status": b.status(), "t": obs})
        b.remove()


def word(rng, n=8):
    return "".join(rng.choice("abcdefghijKLMNOP0123456789_-") for _ in range(rng.randint(1, n)))


def config(b, rng, **kw):
    """A job and run configuration; returns the fields that names and attributes are made of."""
    c = {"job_id": word(rng, 15), "dataset": word(rng, 20), "par": rng.choice(["", "", "my_par", "sub-par.x"]), "res": rng.choice(["", "", "my_res"]),
         "sw": rng.choice(["FO", "X1"]), "unit": rng.choice(["", "mW m-2"]), "job": rng.choice(["j.nml", "job.nml", "jobs/a.nml"])}
    c.update(kw)
    os.makedirs(os.path.join(b.d, "jobs"))
    namelist(os.path.join(b.d, c["job"]), "job", [("config_job_id", c["job_id"]), ("config_job_matchup_dataset_id", c["dataset"]), ("config_job_enable_unit", c["unit"])])
    run = [("config_job", c["job"]), ("config_value_att_software", c["sw"]), ("config_enable_log_level", 1)]
    if c["par"]:
        run.append(("config_name_parameter_dataset", c["par"]))
    if c["res"]:
        run.append(("config_name_residuals_dataset", c["res"]))
    if rng.random() < .3:          # preferences are read first, the run configuration has the last word
        namelist(os.path.join(b.d, "preferences.nml"), "run", [("config_value_att_software", "NO"), ("config_job", "nowhere.nml")])
    namelist(os.path.join(b.d, "run.nml"), "run", run)
    return c


def stats(rng):
    return [rng.randint(0, 100000)] + [rng.randint(-2000, 2000000) for _ in range(7)]


def say_stats(b, s):
    b.say(s[0])
    b.say(nums(x / float(Q) for x in s[1:]))


def strings(v):
    import netCDF4
    return [str(x).strip() for x in netCDF4.chartostring(v[:])]


def attrs(ds):
    out = []
    for k in ds.ncattrs():
        v = ds.getncattr(k)
        out.append({"name": k, "text": str(v).strip() if isinstance(v, str) else "", "num": NONE if isinstance(v, str) else enc(v, Q)})
    return sorted(out, key=lambda x: x["name"])


def units(ds):
    return sorted([[k, getattr(ds.variables[k], "units", "")] for k in ds.variables])


def made(b):
    return sorted(x for x in os.listdir(b.d) if x.endswith(".nc"))


def params_scenarios():
    from netCDF4 import Dataset
    for trial in range(20 if TIER == "quick" else 80):
        b = Box()
        c = config(b, rng)
        n, nm, ns = rng.randint(1, 7), rng.randint(1, 4), rng.randint(1, 4)
        nc = rng.choice([0, rng.randint(1, 9)])
        v = lambda k: [rng.randint(-100000, 100000) for _ in range(k)]
        sym = lambda: [[0] * n for _ in range(n)]
        xc, xr = sym(), sym()
        for mat in (xc, xr):
            for i in range(n):
                for j in range(i + 1):
                    mat[i][j] = mat[j][i] = rng.randint(-100000, 100000)
        g = {"n": n, "nm": nm, "ns": ns, "nc": nc, "begin": "%08d" % rng.randint(0, 99999999), "end": "%08d" % rng.randint(0, 99999999),
             "uuid": UUID % rng.randint(0, 9999), "x": v(n), "xu": v(n), "xc": xc, "xr": xr, "off": v(n), "scale": v(n),
             "names": [word(rng, 30) for _ in range(n)], "ids": [rng.randint(0, 200) for _ in range(ns)], "cnt": [rng.randint(0, 4) for _ in range(ns)],
             "o": [rng.randint(0, 9) for _ in range(ns)] if nc else [], "y": v(nc), "snames": [word(rng, 40) for _ in range(ns)],
             "pairs": [word(rng, 40) for _ in range(nm)], "uuids": [UUID % rng.randint(0, 9999) for _ in range(nm)],
             "stats": [stats(rng) for _ in range(nm)], "total": stats(rng)}
        b.say("config")
        b.say("names")
        for x in (".nc", g["begin"], g["end"], "S1", "S 2"):
            b.say(text(x))
        b.say("params")
        b.say(text(g["uuid"]))
        b.say(n, nm, ns, nc)
        b.say(text(g["begin"]))
        b.say(text(g["end"]))
        for k in ("x", "xu"):
            b.say(nums(x / float(Q) for x in g[k]))
        for k in ("xc", "xr"):
            b.say(nums(x / float(Q) for row in g[k] for x in row))
        for k in ("off", "scale"):
            b.say(nums(x / float(Q) for x in g[k]))
        for x in g["names"]:
            b.say(text(x))
        b.say(*g["ids"])
        b.say(*g["cnt"])
        if nc:
            b.say(*g["o"])
            b.say(nums(x / float(Q) for x in g["y"]))
        for x in g["snames"]:
            b.say(text(x))
        for k in range(nm):
            b.say(text(g["pairs"][k]))
            b.say(text(g["uuids"][k]))
            say_stats(b, g["stats"][k])
        say_stats(b, g["total"])
        b.run()
        o = {"status": b.status(), "files": made(b)}
        if o["status"] == "done":
            o.update(version=b.get("version"), tag=b.get("tag"), parname=b.get("parname"), resname=b.get("resname"))
        if o["status"] == "done" and len(o["files"]) == 1:
            try:
                with Dataset(os.path.join(b.d, o["files"][0])) as ds:
                    V = ds.variables
                    one = lambda k: encs(V[k][:], Q)
                    o["got"] = {"x": one("parameter"), "xu": one("parameter_uncertainty"), "xc": encm(V["parameter_covariance_matrix"][:], Q),
                                "xr": encm(V["parameter_correlation_matrix"][:], Q), "off": one("parameter_add_offset"), "scale": one("parameter_scale_factor"),
                                "names": strings(V["parameter_name"]), "ids": ints(V["sensor_equation_id"][:]), "cnt": ints(V["sensor_equation_parameter_count"][:]),
                                "o": ints(V["sensor_equation_config_count"][:]) if "sensor_equation_config_count" in V else [],
                                "y": one("sensor_equation_config") if "sensor_equation_config" in V else [],
                                "snames": strings(V["sensor_name"]), "pairs": strings(V["matchup_sensor_names"]), "uuids": strings(V["matchup_dataset_uuid"]),
                                "m": ints(V["number_of_matchups"][:]), "cost": one("cost"), "reduced": one("cost_reduced"), "mean": one("K_res_mean"), "sdev": one("K_res_sdev"),
                                "attrs": attrs(ds), "units": units(ds)}
            except Exception as e:
                o["status"] = "unreadable: %s" % e
        elif o["status"] == "done":
            o["status"] = "no file"
        R.begin(tag="params", kind="params")
        R.rec("params", c=c, given=g, obs=o)
        b.remove()


FIELDS = ["k_res", "k_res_unc", "k_res_weights", "meas_i", "meas_j", "meas_i_unc_q", "meas_j_unc_q", "meas_i_unc_x", "meas_j_unc_x"]
VARS = ["K_res", "K_res_uncertainty", "K_res_weights", "measurand1", "measurand2", "measurand1_uncertainty_tel", "measurand2_uncertainty_tel",
        "measurand1_uncertainty_cal", "measurand2_uncertainty_cal"]


def resid_scenarios():
    from netCDF4 import Dataset
    for trial in range(20 if TIER == "quick" else 80):
        b = Box()
        c = config(b, rng)
        m = rng.randint(1, 6)
        g = {"m": m, "begin": "%08d" % rng.randint(0, 99999999), "end": "%08d" % rng.randint(0, 99999999), "uuid": UUID % rng.randint(0, 9999),
             "muuid": UUID % rng.randint(0, 9999), "si": word(rng), "sj": word(rng), "t": [rng.randint(-1000000000, 1900000000) for _ in range(m)],
             "v": [[rng.randint(-100000, 100000) for _ in range(m)] for _ in FIELDS]}
        b.say("config")
        b.say("names")
        for x in (".nc", g["begin"], g["end"], g["si"], g["sj"]):
            b.say(text(x))
        b.say("resid")
        b.say(text(g["uuid"]))
        b.say(m)
        for k in ("begin", "end", "si", "sj", "muuid"):
            b.say(text(g[k]))
        b.say(nums(g["t"]))
        for x in g["v"]:
            b.say(nums(y / float(Q) for y in x))
        b.run()
        o = {"status": b.status(), "files": made(b)}
        if o["status"] == "done":
            o.update(version=b.get("version"), tag=b.get("tag"), parname=b.get("parname"), resname=b.get("resname"))
        if o["status"] == "done" and len(o["files"]) == 1:
            try:
                with Dataset(os.path.join(b.d, o["files"][0])) as ds:
                    o["got"] = {"t": encs(ds.variables["t"][:]), "v": [encs(ds.variables[k][:], Q) for k in VARS], "attrs": attrs(ds), "units": units(ds)}
            except Exception as e:
                o["status"] = "unreadable: %s" % e
        elif o["status"] == "done":
            o["status"] = "no file"
        R.begin(tag="resid", kind="resid")
        R.rec("resid", c=c, given=g, obs=o)
        b.remove()


scenarios = load(SCEN, [])
if PROP in ("P18", "P19"):
    read_scenarios(scenarios)
if PROP == "P18":
    pair_scenarios()
    sensor_scenarios()
if PROP == "P19":
    band_scenarios(scenarios)
    list_scenarios()
if PROP == "P20":
    time_scenarios(scenarios)
    params_scenarios()
    resid_scenarios()
R.close()
