"""Reader and accessors of match-up data: writes datasets, opens them, records what the opened objects hold."""
import datetime
import os
import random
import re
import shutil
import sys
from collections import OrderedDict

from common import *

import numpy as np
from harmonisation import open_matchup

import common

# the numbers of a dataset are whole multiples of 1/SC: brightness temperatures, counts, radiances
SCALES = [2 ** 20, 2 ** 20, 2 ** 20, 2 ** 10, 1, 2. ** -8]


def rescale(x):
    global SC
    SC = common.SC = x


EPOCH = datetime.datetime(1970, 1, 1)


def secs(a):
    if a is None:
        return [NONE]
    # the second a time is in
    return [enc((x - EPOCH).total_seconds() // 1) if isinstance(x, datetime.datetime) else INEXACT for x in a]


def dense(w):
    return encm(w, SC) if w is not None and not isinstance(w, int) else []


def unc_entry(u):
    e = {"t": enc(getattr(u, "typeID", None)), "uR": [], "uS": [], "w": -1, "u": -1, "si": 0}
    if e["t"] in (1, 2):
        e["uR"] = encs(u.uR, SC)
    if e["t"] == 2:
        e["uS"] = encs(u.uS, SC)
    if e["t"] in (3, 4):
        e["w"], e["u"] = enc(u.w_i), enc(u.u_i)
    if e["t"] == 4:
        e["uS"] = encs(np.atleast_1d(u.uS), SC)
    if e["t"] in (2, 4):
        e["si"] = enc(u.uS_i)
    return e


def observe(m, want_unc, want_add):
    idx = m.idx
    o = {"Nm": ints(idx["Nm"]), "cNm": ints(idx["cNm"]), "sensors": [str(s) for s in idx["sensors"]],
         "sensor_ms": ints(idx["sensor_ms"]), "Im": [ints(x) for x in idx["Im"]], "n_sensor": ints(idx["n_sensor"]),
         "n_mu": ints(idx["n_mu"]), "n_cov": ints(idx["n_cov"]), "N_var": ints(idx["N_var"]), "idx": ints(idx["idx"]),
         "values": encs(m.values, SC), "ks": encs(m.ks, SC), "time": [secs(m.time1), secs(m.time2)]}
    tr = [[m.along_track_index1, m.along_track_index2], [m.across_track_index1, m.across_track_index2]]
    o["track"] = [[{"has": x is not None, "v": encs(x) if x is not None else []} for x in row] for row in tr]
    o["hasunc"] = m.unc is not None or m.unck is not None
    o["hasadd"] = m.additional_values is not None
    o["unc"], o["unck2"], o["W"], o["U"], o["addnames"], o["add"] = [], [], [], [], [], []
    if want_unc and m.unc is not None:
        o["unc"] = [unc_entry(u) for u in m.unc]
        o["unck2"] = [encs(np.ma.filled(np.asarray(u.uR, dtype=float)) ** 2, SC * SC) for u in m.unck]
        o["unckt"] = [enc(u.typeID) for u in m.unck]
        o["W"] = [dense(w) for w in m.w_matrices]
        o["U"] = [encs(u, SC) for u in m.u_matrices]
    if want_add and m.additional_values is not None:
        o["addnames"] = [str(x) for x in idx["additional_values_name"]]
        o["add"] = [encs(m.additional_values[:, j], SC) for j in range(len(o["addnames"]))]
    return o


MODEL_SRC = '''
from collections import OrderedDict
def make(kind, i):
    def f(*args):
        return (kind, i)
    f.label = "%s%d" % (kind, i)
    return f
SENSOR_DATA = OrderedDict()
'''


class Session(object):
    def __init__(self, rec, root):
        self.rec, self.root, self.n = rec, root, 0

    def dataset(self, rng, files, mode, want_unc=True, want_add=True, sensor=None):
        """Write the files where mode says, open them and record it; then query."""
        rec = self.rec
        self.n += 1
        d = os.path.join(self.root, "ds%d" % self.n)
        os.makedirs(d)
        rec.begin()
        files = [dict(f) for f in files]
        paths = {}
        order = list(range(len(files)))
        rng.shuffle(order)
        if mode == "dir":
            names = rng.sample(["a%d_b.nc" % i for i in range(12)] + ["Z%d.nc" % i for i in range(12)], len(files))
            for i in order:
                files[i].update(dir=1, rank=sorted(names).index(names[i]) + 1)
                write_file(os.path.join(d, names[i]), files[i])
            junk = []
            if rng.random() < .6:
                for name in rng.sample(["README.txt", "a.nc.bak", "log", "x.NC_old", "notes.md"], 2):
                    open(os.path.join(d, name), "w").write("not a match-up file\n")
                    junk.append({"nc": False, "given": 0, "dir": 1, "rank": 0})
            files += junk
            arg = d
        elif mode == "file":
            files = files[:1]
            files[0].update(given=1)
            arg = os.path.join(d, "one.nc")
            write_file(arg, files[0])
        elif mode == "list":
            arg = [None] * len(files)
            names = rng.sample(["q%d.nc" % i for i in range(20)], len(files))
            perm = list(range(len(files)))
            rng.shuffle(perm)
            for i in order:
                files[i].update(given=perm[i] + 1)
                arg[perm[i]] = os.path.join(d, names[i])
                write_file(arg[perm[i]], files[i])
        else:
            arg = []
            ndirs = max(1, min(len(files), rng.randint(2, 3)))
            where = [i % ndirs for i in range(len(files))]
            rng.shuffle(where)
            dirs = rng.sample(["one", "two", "three", "alpha"], ndirs)
            arg = [os.path.join(d, x) for x in dirs]
            names = {}
            for k in range(ndirs):
                os.makedirs(arg[k])
                mine = [i for i in range(len(files)) if where[i] == k]
                nn = rng.sample(["r%d.nc" % i for i in range(20)], len(mine))
                for i, x in zip(mine, nn):
                    names[i] = x
                for i in mine:
                    files[i].update(dir=k + 1, rank=sorted(nn).index(names[i]) + 1)
            for i in order:
                write_file(os.path.join(arg[where[i]], names[i]), files[i])
            if rng.random() < .5:
                open(os.path.join(arg[0], "README.txt"), "w").write("x\n")
                files.append({"nc": False, "given": 0, "dir": 1, "rank": 0})

        kw = {}
        if not want_unc:
            kw["open_uncertainty"] = False
        if not want_add:
            kw["open_additional_values"] = False
        status, m = guarded(lambda: open_matchup(arg, **kw))
        obs = {"status": status}
        if status == "ok":
            status, o = guarded(lambda: observe(m, want_unc, want_add))
            obs = dict(o or {}, status=status)
        rec.rec("open", mode=mode, want_unc=want_unc, want_add=want_add, files=files, obs=obs)
        if status == "ok":
            self.queries(rng, m, files, want_add)
            real = [f for f in files if "X" in f]
            if SC == 1 << 20 and all(abs(x) < 19 * SC for f in real for p in f["X"] for r in p for x in r) and all(abs(x) < 19 * SC for f in real for x in f["K"]):
                self.printed(m, want_unc)
            self.sensors(rng, m, files, arg)
            how = rng.randrange(3)
            rec.rec("closed", how=how, obs=closing(m, how))
        shutil.rmtree(d)

    def queries(self, rng, m, files, want_add):
        rec = self.rec
        names = list(m.idx["sensors"])
        nmu = len(m.idx["Nm"])
        for mu in range(1, nmu + 1):
            for s in names:
                for c in range(1, 5):
                    if rng.random() < .35:
                        st, v = guarded(lambda: m.getVariableData(c, s, mu))
                        rec.rec("var", sensor=s, mu=mu, c=c, obs={"status": st, "v": encs(v, SC) if st == "ok" else []})
        cells = [(s, mu, c) for mu in range(1, nmu + 1) for k in m.idx["Im"][mu - 1] for s in [names[k]]
                 for c in range(1, m.idx["sensor_ms"][k] + 1)]
        for s, mu, c in rng.sample(cells, min(3, len(cells))):
            st, v = guarded(lambda: [m.getVariableDataMin(c, s, mu), m.getVariableDataMax(c, s, mu)])
            rec.rec("extreme", sensor=s, mu=mu, c=c, obs={"status": st, "v": encs(v, SC) if st == "ok" else []})
        if want_add:
            for name in m.getAdditionalDataNames():
                for mu in [0] + list(range(1, nmu + 1)):
                    if mu == 0 or rng.random() < .5:
                        st, v = guarded(lambda: m.getAdditionalData(name, None if mu == 0 else mu))
                        rec.rec("extra", name=str(name), mu=mu, obs={"status": st, "v": encs(v, SC) if st == "ok" else []})
                        if st == "ok" and not np.isnan(v).any():
                            st, v = guarded(lambda: [m.getAdditionalDataMin(name, None if mu == 0 else mu), m.getAdditionalDataMax(name, None if mu == 0 else mu)])
                            rec.rec("extremes", name=str(name), mu=mu, obs={"status": st, "v": encs(v, SC) if st == "ok" else []})
        for mu in range(1, nmu + 1):
            for s in names + ["no-such-sensor"]:
                for which, fn, en in ((1, m.getSensorAlongTrackIndex, encs), (2, m.getSensorAcrossTrackIndex, encs),
                                      (3, m.getSensorTime, secs)):
                    if rng.random() < .5:
                        st, v = guarded(lambda: fn(mu, s))
                        rec.rec("track", which=which, mu=mu, sensor=s, obs={"status": st, "v": en(v) if st == "ok" else []})

    def printed(self, m, want_unc):
        """What is printed of the dataset: numbers in hundredths."""
        def look():
            text = str(m)
            head, parts = re.split(r"\nMatch-up Series \d+\n-+\n", text)[0], re.split(r"\nMatch-up Series \d+\n-+\n", text)[1:]

            def after(t, what):
                return re.search(re.escape(what) + r"\s*(.*)", t).group(1).strip()

            def rows(t):        # a skipped row as no numbers
                out = []
                for line in t.strip().split("\n"):
                    if line.strip() == "...":
                        out.append([])
                    elif line.startswith("["):
                        out.append([int(round(float(x) * 100)) for x in line.strip("[] ").split(",") if x.strip()])
                    else:
                        break
                return out
            series = []
            for t in parts:
                blocks = re.split(r"\n- .*Sensor State Data *\n|\n- Series K\n", t)
                series.append({"sensors": after(blocks[0], "Series Sensors:"), "M": int(after(blocks[0], "Series Match-ups:")),
                               "rows": [rows(b) for b in blocks[1:3]], "K": rows(blocks[3]), "names": re.findall(r"\n- (.*) Sensor State Data *\n", t),
                               "types": [[int(x) for x in y.split(",") if x.strip()] for y in re.findall(r"Uncertainty Types: \[(.*)\]", t)],
                               "ktype": [int(x) for x in re.findall(r"K Uncertainty Type: (\d+)", t)]})
            return {"sensors": after(head, "Sensors -"), "total": int(after(head, "Total Match-Ups -")), "nseries": int(after(head, "Match-Up Series -")),
                    "nvalues": int(after(head, "Total Sensor State Data Values -")), "series": series}
        st, o = guarded(look)
        self.rec.rec("printed", unc=want_unc, obs=dict(o or {}, status=st))

    def sensors(self, rng, m, files, arg):
        """Attach a description of the sensors: in the dataset's order or not, with sensors that it does not have."""
        names = [str(s) for s in m.idx["sensors"]]
        every = names + rng.sample(["extra1", "extra2"], rng.randint(0, 2))
        rng.shuffle(every)
        desc, src = [], MODEL_SRC
        for i, s in enumerate(every):
            d = {"name": s, "params": [big(rng, -40, 40, 23) for _ in range(rng.randint(0, 3))],
                 "consts": [big(rng, -40, 40) for _ in range(rng.randint(0, 2))], "model": "model%d" % i, "adjust": "default"}
            extra = ""
            if rng.random() < .5:
                d["adjust"] = "adjust%d" % i
                extra = ', "adjustment_model": make("adjust", %d)' % i
            src += 'SENSOR_DATA[%r] = {"sensor_model": make("model", %d), "sensor_model_parameter": %r, ' \
                   '"sensor_model_constant": %r%s}\n' % (s, i, [x / float(SC) for x in d["params"]], [x / float(SC) for x in d["consts"]], extra)
            desc.append(d)
        via_file, again = rng.random() < .5, False
        self.n += 1
        mod = "sensors_%d" % self.n
        path = os.path.join(self.root, mod + ".py")
        open(path, "w").write(src)
        if via_file:
            st, m2 = guarded(lambda: open_matchup(arg, path, open_uncertainty=False))
        else:
            env = {}
            exec(compile(src, path, "exec"), env)
            st, _ = guarded(lambda: m.setSensorData(env["SENSOR_DATA"]))
            m2 = m
            again = rng.random() < .3
        obs = {"status": st}

        def label(f):
            if hasattr(f, "label"):
                return f.label
            x = np.array([1.5, 2.5])
            y, dy = f(x)
            return "default" if list(y) == list(x) and list(dy) == [1.0, 1.0] else "other"

        def look():
            return {"a": encs(m2.a, SC), "psens": [str(x) for x in m2.idx["parameter_sensor"]],
                    "consts": encs(m2.sensor_model_constant, SC),
                    "csens": [str(x) for x in m2.idx["sensor_model_constant_sensor"]],
                    "models": [label(f) for f in m2.sensor_model], "adjust": [label(f) for f in m2.adjustment_model]}

        if st == "ok":
            st, o = guarded(look)
            obs = dict(o or {}, status=st)
        self.rec.rec("sensors", sd=desc, obs=obs)
        if again:               # another description, of the same object
            self.sensors(rng, m, files, arg)


def build(rng, shape, large):
    """Files of the given shape [{s, M, m}]: values are drawn."""
    files = [random_file(rng, f["s"], f["M"], f["m"]) for f in shape]
    for f in files:
        f["part"] = [[rng.choice([0, 0, 4, 8, 15]) for _ in range(f["M"])] for _ in range(2)]
        for w in range(2):
            for p in range(2):
                if f["track"][w][p]["has"] and rng.random() < .3:
                    f["track"][w][p]["v"] = [rng.randint(0, 2000000) for _ in range(f["M"])]
                elif f["track"][w][p]["has"] and rng.random() < .1:
                    f["track"][w][p]["v"] = [0] * f["M"]
        if f["W"] and rng.random() < .15:
            f["lead"] = rng.choice([150, 300, 33000, 70000])
        for a in f["add"]:
            a["masked"], a["dtype"] = rng.choice([0, 0, 1, 2]), rng.choice(["f8", "f4"])
            if a["dtype"] == "f4":
                a["v"] = [x if x == NAN else big(rng, -100, 100, 23) for x in a["v"]]
        for w in f["W"]:        # rows in any order, and within a row
            rows = [list(zip(w["col"], w["val"]))[a:b] for a, b in zip(w["row"], w["row"][1:])]
            if rng.random() < .5:
                rng.shuffle(rows)
            if rng.random() < .3:
                rows = [rng.sample(r, len(r)) for r in rows]
            w["row"] = [0]
            for r in rows:
                w["row"].append(w["row"][-1] + len(r))
            w["col"], w["val"] = [[x[k] for r in rows for x in r] for k in (0, 1)]
    if rng.random() < .3:       # values that can be told apart as they are printed
        for f in files:
            f["X"] = [[[rng.randint(-70, 70) * SC // 4 for _ in r] for r in p] for p in f["X"]]
            f["K"] = [rng.randint(-70, 70) * SC // 4 for _ in f["K"]]
    return files


def random_shape(rng):
    n = rng.randint(3, 6)
    names = rng.sample(["m02", "n19", "n15", "aatsr", "atsr2", "0", "1", "ref", "avhrr_n15", "avhrr_n19", "avhrr", "10", "N19"], rng.randint(2, 5))
    if rng.random() < .15:      # many variables, many sensors or many series
        if rng.random() < .5:
            cols = {s: rng.choice([1, 11, 12, 14]) for s in names[:3]}
            n = 2
        else:
            names = ["s%d" % i for i in range(1, 14)]
            cols, n = {s: 1 for s in names}, rng.randint(11, 14)
        pairs = [rng.sample(sorted(cols), 2) for _ in range(n)]
        return [{"s": s, "M": rng.randint(1, 3), "m": [cols[s[0]], cols[s[1]]]} for s in pairs]
    cols = {s: rng.choice([1, 1, 2, 3, 4]) for s in names}
    out = []
    for _ in range(n):
        s = rng.sample(names, 2)
        out.append({"s": s, "M": rng.choice([rng.randint(1, 9), rng.randint(1, 14)]), "m": [cols[s[0]], cols[s[1]]]})
    return out


def main(out, scen):
    rng = random.Random(SEED * 7919 + 11)
    rec = Recorder(out)
    root = os.path.join(os.getcwd(), "mu")
    os.makedirs(root)
    se = Session(rec, root)
    shapes = [x["files"] for x in load(scen, [])]
    n_model, n_random = (110, 40) if TIER == "quick" else (900, 300)
    rng.shuffle(shapes)
    modes = ["dir", "dirs", "list", "dir", "file", "dirs"]
    k = 0
    for shape in shapes[:n_model] + [random_shape(rng) for _ in range(n_random)]:
        mode = modes[k % len(modes)]
        k += 1
        rescale(rng.choice(SCALES))
        se.dataset(rng, build(rng, shape, False), mode, want_unc=rng.random() < .9, want_add=rng.random() < .9)
    rec.close()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
