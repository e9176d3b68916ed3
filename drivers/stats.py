"""Averages over calendar periods and bins."""
import datetime as dt
import random
import sys

from common import *

import numpy as np
from harmonisation.core.utils.stats import time_average, bin as bin_average

OUT, SCEN, PROP = sys.argv[1:4]
rng = random.Random(SEED * 7919 + 21)
R = Recorder(OUT)


def average(kind, times, data, tag, default=False):
    D = np.array(data, dtype=rng.choice([float, np.float32, int]))
    T = np.array([dt.datetime(*t) for t in times]).astype(dt.datetime)
    D0, T0 = D.copy(), T.copy()
    st, v = guarded(lambda: time_average(D, T) if default else time_average(D, T, time_period=kind), 25)
    o = {"status": st}
    if st == "ok":
        o["same"] = bool((D == D0).all() and (T == T0).all())
        o["averages"] = [enc(x, 2520, 1e-1 if D.dtype == np.float32 else 1e-3) for x in v[0]]
        o["times"] = [[x.year, x.month, x.day, x.hour, x.minute, x.second] for x in v[1]]
    R.rec("average", tag=tag, kind=kind, times=times, data=data, obs=o)


def binned(X, Y, lo, hi, n, tag, how):
    u = rng.choice([1., .25, 8.])                 # the unit of X and its range: all these are exact
    x, y = np.array(X, dtype=float) * u, np.array(Y, dtype=rng.choice([float, int]))
    x0, y0 = x.copy(), y.copy()
    if how == "default":
        lo, hi = min(X), max(X)
        st, v = guarded(lambda: bin_average(y, x) if n == 20 else bin_average(y, x, bins=n))
    else:
        st, v = guarded(lambda: bin_average(y, x, bins=n, X_range=[lo * u, hi * u]), 25)
    o = {"status": st}
    if st == "ok":
        o["same"] = bool((x == x0).all() and (y == y0).all())
        o["averages"] = [enc(z, 2520, 1e-3) for z in v[0]]
        o["devs"] = [enc(z ** 2, 3600, 1e-3) for z in v[1]]
        o["centres"] = [enc(z, 2 * n / u, 1e-6) for z in v[2]]
    R.rec("bin", tag=tag, X=X, Y=Y, lo=lo, hi=hi, n=n, obs=o)


def moment(base, span):
    t = base + dt.timedelta(seconds=rng.randint(0, span))
    if rng.random() < .35:                    # at a boundary
        t = rng.choice([t.replace(minute=0, second=0), t.replace(hour=0, minute=0, second=0), t.replace(day=1, hour=0, minute=0, second=0),
                        t.replace(month=1, day=1, hour=0, minute=0, second=0), t.replace(hour=23, minute=59, second=59)])
    return [t.year, t.month, t.day, t.hour, t.minute, t.second] + ([rng.choice([1, 500000, 999999])] if rng.random() < .3 else [])


scen = load(SCEN, [])
deep = TIER != "quick"
mine = [s for s in scen if s["kind"] == "periods"]
rng.shuffle(mine)
R.begin(tag="model", kind="periods")
for s in mine[:300 if not deep else 5000]:
    average(s["period"], s["times"], [rng.randint(-50, 50) for _ in s["times"]], "model")
SPAN = {"hour": 86400 * 2, "day": 86400 * 20, "month": 86400 * 500, "year": 86400 * 3000}
for trial in range(100 if not deep else 800):
    R.begin(tag="random", kind="periods")
    kind = rng.choice(sorted(SPAN))
    base = dt.datetime(rng.choice([1996, 1999, 2000, 2001, 2016, 1899]), rng.choice([1, 2, 12]), rng.randint(1, 28))
    times = [moment(base, SPAN[kind]) for _ in range(rng.randint(1, 14))]
    average(kind, times, [rng.randint(-50, 50) for _ in times], "random", default=kind == "month" and rng.random() < .5)
mine = [s for s in scen if s["kind"] == "bins"]
rng.shuffle(mine)
R.begin(tag="model", kind="bins")
for s in mine[:300 if not deep else 5000]:
    binned(s["X"], [rng.randint(-20, 20) for _ in s["X"]], s["lo"], s["hi"], s["n"], "model", "given")
for trial in range(100 if not deep else 800):
    R.begin(tag="random", kind="bins")
    k = rng.randint(2, 14)
    X = [rng.randint(-30, 30) for _ in range(k)]
    if min(X) == max(X):
        X[0] += 1
    how = rng.choice(["default", "given"])
    lo = rng.randint(-35, 10)
    binned(X, [rng.randint(-20, 20) for _ in X], lo, lo + rng.randint(1, 40), rng.choice([1, 2, 3, 4, 5, 7, 8, 20]), "random", how)
R.close()
