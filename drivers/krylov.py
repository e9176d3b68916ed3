"""The iterative solvers of linear systems."""
import contextlib
import io
import random
import sys

from common import *

import numpy as np
from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.pykrylov_lsmr import LSMRFramework
from harmonisation.core.matchup.matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv.pykrylov_minres import Minres

OUT, SCEN, PROP = sys.argv[1:4]
DEFAULT = NONE - 1
rng = random.Random(SEED * 7919 + 23)
nrng = np.random.RandomState(SEED + 23)
R = Recorder(OUT)
deep = TIER != "quick"


class Operator(object):
    def __init__(self, A):
        self.A = np.array(A, dtype=float)
        self.shape, self.dtype = self.A.shape, self.A.dtype

    def __mul__(self, v):
        return self.A.dot(v)

    @property
    def H(self):
        return Operator(self.A.T)

    T = H


def squared(x, D, exact, unit=1, noise=0):
    """x * x * D * D in 1/unit, if that is a value the specification can compare (not what remains when the solver is done)."""
    if exact == 0 and abs(x) <= noise:
        return 0
    exact *= unit
    return enc(float(x) ** 2 * D * D * unit, 1, 1e-6 * max(1, exact)) if abs(exact) < 4e8 else NONE


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def stored(S, x, itn, again):
    """Whether the stored iterates go from 0 to x, one of them being what as many steps give."""
    its = [np.array(z) for z in S.iterates]
    ok = len(its) > 0 and not its[0].any() and np.array_equal(its[-1], x)
    if ok and itn > 1 and len(its) == itn + 1:
        k = rng.randint(1, itn - 1)
        st, v = guarded(lambda: quiet(lambda: again(k)))
        ok = st == "ok" and np.array_equal(its[k], v)
    return bool(ok)


def lsmr(A, b, W, damp, Ninv, nn, limit, D, tag, first=False, rows=None):
    """N is nn / Ninv. rows: x = A' rows (the shortest solution)."""
    n = len(A[0])
    op = Operator(A)
    B = np.array(b, dtype=float)
    B0 = B.copy()
    w, N = np.array(W, dtype=float), nn / np.array(Ninv, dtype=float)
    kw = {}
    if any(x != 1 for x in W) or rng.random() < .2:
        kw["M"] = lambda v: w * v
    if any(x != nn for x in Ninv) or rng.random() < .2:
        kw["N"] = lambda v: N * v
    if damp or rng.random() < .3:
        kw["damp"] = float(damp)
    kw["itnlim"] = 4 * n + 4 if limit == NONE else limit
    itnlim = kw["itnlim"]
    if limit == DEFAULT:
        del kw["itnlim"]
        itnlim = min(len(b), n)
    if limit == NONE and rng.random() < .6:
        kw["atol"] = kw["btol"] = rng.choice([1e-9, 1e-10, 1e-12])
    if rng.random() < .2:
        kw["show"] = True
    if rng.random() < .2:
        kw["store_resids"] = kw["store_iterates"] = True
    if limit == NONE and len(b) > 1 and rng.random() < .1:
        B = B.reshape(-1, 1)
    S = LSMRFramework(op)
    if rng.random() < .3:       # a solver can be used again
        guarded(lambda: quiet(lambda: S.solve(np.array([rng.randint(-3, 3) for _ in b], dtype=float), itnlim=n,
                                          **rng.choice([{}, {"store_iterates": True, "store_resids": True}]))))
    st, v = guarded(lambda: quiet(lambda: S.solve(B, **kw)))
    o = {"status": st}
    if st == "ok":
        x, istop, itn, normr, normar, normA, condA, normx = v
        Ai, Xi = np.array(A, dtype=object), np.array([enc(z, D, 1e-3) for z in x], dtype=object)
        known = all(abs(int(z)) < 100000 for z in Xi)
        rd = [D * bb - sum(Ai[i] * Xi) for i, bb in enumerate(b)] if known else []
        e_r = sum(ww * z * z for ww, z in zip(W, rd)) + damp * damp * sum(z * z * q for z, q in zip(Xi, Ninv)) / nn if known else 1e30
        gd = [sum(A[i][j] * W[i] * rd[i] for i in range(len(b))) - damp * damp * Xi[j] * Ninv[j] / nn for j in range(n)] if known else []
        big = max([1, damp] + [abs(z) * ww ** .5 for r, ww in zip(A, W) for z in r]) * n * max(N) ** .5
        small = 1e-5 * (max(abs(z) * ww ** .5 for z, ww in zip(b, W)) + 1)
        e_a = sum(z * z * nn / q for z, q in zip(gd, Ninv)) if known else 1e30
        o.update(x=[int(z) for z in Xi], kept=bool(S.x is x or np.array_equal(S.x, x)), same=bool((B.ravel() == B0).all()), istop=int(istop), itn=int(itn),
                 iterations=len(S.iterates) if kw.get("store_iterates") else NONE, residuals=len(S.resids) if kw.get("store_resids") else NONE,
                 stored=not kw.get("store_iterates") or stored(S, x, int(itn), lambda k: LSMRFramework(op).solve(B0, **dict(kw, itnlim=k))[0]),
                 normr=squared(normr, D, e_r, nn, small), normar=squared(normar, D, e_a, 4 * nn, big * small), normx=squared(normx, D, sum(z * z for z in Xi) if known else 1e30))
    R.rec("lsmr", tag=tag, A=A, b=b, W=W, damp=damp, Ninv=Ninv, nn=nn, limit=limit, itnlim=itnlim, D=D, first=first, rows=rows or [], obs=o)


def minres(A, b, shift, P, limit, D, tag, first=False, part=None, check=True):
    """part: what of b the matrix can reach (if not all of it)."""
    n = len(A)
    op = Operator(A)
    B = np.array(b, dtype=float)
    B0 = B.copy()
    kw = {"show": rng.random() < .2}
    if P != [[1 if i == j else 0 for j in range(n)] for i in range(n)] or rng.random() < .2:
        kw["precon"] = Operator(P)
    if shift or rng.random() < .3:
        kw["shift"] = float(shift)
    if limit != NONE:
        kw["itnlim"] = limit
    if rng.random() < .3:
        kw["rtol"] = 1e-11
    if not check:
        kw["check"] = False
    if rng.random() < .2:
        kw["store_iterates"] = True
    def again(k):
        T = Minres(op)
        T.solve(B0, **dict(kw, itnlim=k))
        return T.x
    S = Minres(op)
    if rng.random() < .3:
        guarded(lambda: quiet(lambda: S.solve(np.array([rng.randint(-3, 3) for _ in b], dtype=float), show=False, store_iterates=rng.random() < .5)))
    st, v = guarded(lambda: quiet(lambda: S.solve(B, **kw)))
    o = {"status": st}
    if st == "ok":
        x = S.x
        Xi = [enc(z, D, 1e-3) for z in x]
        known = all(abs(z) < 100000 for z in Xi)
        rd = [D * bb - sum((A[i][j] - (shift if i == j else 0)) * Xi[j] for j in range(n)) for i, bb in enumerate(b)] if known else [0] * n
        e_r = sum(rd[i] * P[i][j] * rd[j] for i in range(n) for j in range(n)) if known else 1e30
        o.update(x=Xi, stored=not kw.get("store_iterates") or stored(S, x, int(S.itn), again), same=bool((B == B0).all()), istop=int(S.istop), itn=int(S.itn), converged=bool(S.converged), kept=bool(S.bestSolution is S.x),
                 iterations=len(S.iterates) if kw.get("store_iterates") else NONE, normr=squared(S.rnorm, D, e_r),
                 Ax=[enc(z, 1, 1e-3) for z in (op.A - shift * np.eye(n)).dot(x)])
    R.rec("minres", tag=tag, A=A, b=b, shift=shift, P=P, limit=limit, itnlim=kw.get("itnlim", 5 * n), D=D, first=first,
          part=b if part is None else part, reach=part is None, checked=check, obs=o)


def ints2(r, c, lo=-2, hi=2):
    return [[rng.randint(lo, hi) for _ in range(c)] for _ in range(r)]


def mul(A, v):
    return [sum(a * x for a, x in zip(row, v)) for row in A]


def symmetric(n):
    A = ints2(n, n)
    return [[A[min(i, j)][max(i, j)] + (0 if i != j else rng.choice([0, 0, 4])) for j in range(n)] for i in range(n)]


def good(G):
    """Far enough from singular for the solution to be seen on its grid."""
    s = np.linalg.svd(np.array(G, dtype=float), compute_uv=False)
    return s[-1] > 1e-2 * s[0]


def eye(n, d=None):
    return [[(d[i] if d else 1) if i == j else 0 for j in range(n)] for i in range(n)]


scen = load(SCEN, [])
rng.shuffle(scen)
R.begin(tag="model")
for s in scen[:4000 if not deep else 40000]:
    limit = s["k"] if not s["solved"] else rng.choice([NONE, NONE, max(1, s["k"])])
    if limit == 0:
        continue
    if s["kind"] == "lsmr":
        lsmr(s["A"], s["b"], [1, 1], s["damp"], s["Ninv"], 1 if s["damp"] else rng.choice([1, 2]), limit, s["D"], "model", first=s["k"] == 1)
    else:
        nn = [2 // q for q in s["Ninv"]]
        minres(s["A"], s["b"], s["damp"], eye(2, nn) if s["Ninv"] != [1, 1] else eye(2), limit, s["D"], "model", first=s["k"] == 1)

R.begin(tag="larger")
for i in range(500 if not deep else 8000):
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 8])
    damp = rng.choice([0, 0, 1, 2, 3])
    h = n if rng.random() < .6 else rng.randint(n, n + 4)
    C = ints2(h, n)
    Ninv = [rng.choice([1, 2, 4]) for _ in range(n)] if rng.random() < .4 else [1] * n
    nn = rng.choice([1, 4]) if rng.random() < .3 else 1
    if damp % 1 == 0 and damp:
        e = rng.choice([1, damp])
        use = nn == 1
    else:
        e, use = rng.choice([0, 1]), True
    w = [rng.choice([1, 2, 3]) for _ in range(h)] if rng.random() < .4 else [1] * h
    x = [rng.randint(-9, 9) for _ in range(n)]
    t = [rng.randint(-4, 4) for _ in range(h)] if rng.random() < .6 else [0] * h
    if not use or (e and damp * damp % e):
        continue
    A = C + C + (eye(n, [e] * n) if e else [])
    W = w + w + ([1] * n if e else [])
    r = t + [-z for z in t] + ([damp * damp * x[j] * Ninv[j] // e for j in range(n)] if e else [])
    G = np.array(A).T.dot(np.diag(W)).dot(np.array(A)) + damp * damp * np.diag(Ninv)
    if not e and damp:
        continue
    if not good(G):
        continue
    b = [u + v for u, v in zip(mul(A, x), r)]
    p = [rng.randrange(10 ** 6) for _ in A]
    order = sorted(range(len(A)), key=lambda k: p[k])
    lsmr([A[k] for k in order], [b[k] for k in order], [W[k] for k in order], damp, Ninv, nn,
         rng.choice([NONE] * 4 + [DEFAULT]), 1, "larger")

R.begin(tag="shortest")
for i in range(150 if not deep else 2000):
    m = rng.choice([1, 2, 3, 4])
    n = m + rng.choice([1, 1, 2, 4])
    A = ints2(m, n)
    if not good(np.array(A).dot(np.array(A).T)):
        continue
    y = [rng.randint(-5, 5) for _ in range(m)]
    if rng.random() < .3:      # and equations that repeat others
        A, y = A + A[:1], y + [0]
    At = [list(c) for c in zip(*A)]
    lsmr(A, mul(A, mul(At, y)), [1] * len(A), 0, [1] * n, 1, NONE, 1, "shortest", rows=y)

R.begin(tag="symmetric")
for i in range(500 if not deep else 8000):
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 8])
    Bm = symmetric(n)
    if not good(Bm):
        continue
    x = [rng.randint(-9, 9) for _ in range(n)]
    shift = rng.choice([0, 0, 1, -2, 3])
    A = [[Bm[i][j] + (shift if i == j else 0) for j in range(n)] for i in range(n)]
    P = eye(n)
    if rng.random() < .4:
        L = ints2(n, n, -1, 1)
        Q = np.array(L).dot(np.array(L).T) + np.diag([1] * n)
        P = [[int(z) for z in row] for row in Q]
    minres(A, mul(Bm, x), shift, P, NONE, 1, "symmetric", check=rng.random() < .8)
# many steps, that come closer and closer
R.begin(tag="many")
for i in range(16 if not deep else 160):
    n = rng.randint(15, 40)
    C = [[0] * n for _ in range(n)]
    for j in range(n):
        C[j][j] = rng.randint(5, 9)
        for k in (j + 1, j + 3):
            if k < n:
                C[j][k] = C[k][j] = rng.choice([-1, 0, 1])
    x = [rng.randint(-9, 9) for _ in range(n)]
    minres(C, mul(C, x), 0, eye(n), NONE, 1, "many")
    r = [rng.randint(-4, 4) for _ in range(n)]
    lsmr(C + C, [u + v for u, v in zip(mul(C + C, x), r + [-z for z in r])], [1] * 2 * n, 0, [1] * n, 1, NONE, 1, "many")
# every other step of the symmetric solver gets nowhere
R.begin(tag="halting")
for i in range(80 if not deep else 1000):
    h = rng.choice([2, 3, 4, 5])
    C = symmetric(h)
    d = sorted(rng.sample(range(1, 9), h))
    if rng.random() < .6:
        C = eye(h, d)
    if not good(C):
        continue
    A = [[0] * h + row for row in C] + [row + [0] * h for row in C]
    x = [0] * h + [rng.randint(-9, 9) or 1 for _ in range(h)]
    minres(A, mul(A, x), 0, eye(2 * h), NONE, 1, "halting")
    s2 = [rng.choice([1, 10, 100]) for _ in range(h)]
    D = [[s2[i] * z for z in row] for i, row in enumerate(C)]
    if good(D):
        lsmr(D, mul(D, x[h:]), [1] * h, 0, [1] * h, 1, NONE, 1, "halting")
R.begin(tag="singular")
for i in range(120 if not deep else 2000):
    n = rng.choice([1, 2, 3])
    C = symmetric(n)
    if not good(C):
        continue
    Bm = [row + row for row in C] * 2
    z = [rng.randint(-4, 4) for _ in range(2 * n)]
    shift = rng.choice([0, 0, 2])
    A = [[Bm[i][j] + (shift if i == j else 0) for j in range(2 * n)] for i in range(2 * n)]
    reach = mul(Bm, mul(Bm, z))
    if rng.random() < .4:
        minres(A, reach, shift, eye(2 * n), NONE, 1, "singular")
    else:
        u = [rng.randint(-4, 4) for _ in range(n)]
        minres(A, [p + q for p, q in zip(reach, u + [-q for q in u])], shift, eye(2 * n), NONE, 1, "singular", part=reach)
R.begin(tag="refused")
for i in range(60 if not deep else 600):
    n = rng.choice([2, 3, 4])
    A, P = symmetric(n), eye(n)
    b = [rng.randint(-5, 5) or 1 for _ in range(n)]
    kind = rng.choice(["A", "P", "negative"])
    if kind == "A":
        A[0][n - 1] += rng.choice([1, 2])
    elif kind == "P":
        P[0][n - 1] = 1
        if sum(b[i] * sum(P[i][j] * b[j] for j in range(n)) for i in range(n)) <= 0:
            continue
    else:
        P = eye(n, [-1] * n)
    minres(A, b, 0, P, NONE, 1, "refused")
R.close()
