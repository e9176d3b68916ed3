"""The solvers: residuals, Jacobian products, iteration, covariance, state, preconditioner, on problems of whole numbers."""
import contextlib
import importlib
import io
import math
import pickle
import signal

from process import *

# names that the package does not export at this commit, and a setting that today's numpy refuses
import harmonisation
from harmonisation.core.matchup.matchupToolbox.utils.matchup_maths import evaluate_measurand, evaluate_adjusted_measurand, evaluate_K

np.set_printoptions = lambda *a, **k: None
BASE = "harmonisation.core.matchup.matchupToolbox.harmonisation."
for _n, _v in (("Transform2NormInd", Transform2NormInd), ("Sample2Ind", Sample2Ind), ("SimulateMatchUp", SimulateMatchUp),
               ("evaluate_measurand", evaluate_measurand), ("evaluate_adjusted_measurand", evaluate_adjusted_measurand), ("evaluate_K", evaluate_K)):
    if not hasattr(harmonisation, _n):
        setattr(harmonisation, _n, _v)


def part(name):
    m = importlib.import_module(BASE + name)
    c = name.split(".")[-1]
    if hasattr(m, c) and not hasattr(harmonisation, c):
        setattr(harmonisation, c, getattr(m, c))
    return m


GN = part("harmonisationProcessing.harmonisation_eiv.GN_algo")
FAST = part("harmonisationProcessing.harmonisation_eiv.cython_lib_GN_algo")


class Model(object):
    """The sensor function of the specification; a reference measures directly and has no derivatives."""
    def __init__(self, g, ref):
        self.f, self.g, self.ref = model(g), g, ref

    def __call__(self, X, a, c, xt, at, t):
        if self.ref:
            return np.array(X[:, 0], dtype=float), None
        return self.f(X, a, c, xt, at, t)

    def __reduce__(self):
        return Model, (self.g, self.ref)


class Adjuster(object):
    def __init__(self, h, q):
        self.h, self.q = h, q

    def __call__(self, y):
        y = np.asarray(y, dtype=float)
        return self.h * y + self.q * y * y + 1, self.h + 2. * self.q * y


class Problem(object):
    """A transformed dataset and its description."""
    def rest(self, U):
        """What rounding the witness of the covariance to 1/U leaves of its equations, at most."""
        E = np.eye(self.nv + self.na)[:, self.nv:]
        T = np.round(np.linalg.solve(self.H, E) * U) / U
        return np.abs(self.H.dot(T) - E).max() + .5 / U * np.abs(self.J[self.nv:]).sum(axis=0).max()


def describe(rng, m, small=False, names=None):
    sensors = [str(s) for s in m.idx["sensors"]]
    plain = [s for k, s in enumerate(sensors) if m.idx["sensor_ms"][k] == 1 and
             all(u.typeID == 1 for u, n in zip(m.unc, m.idx["n_sensor"]) if n == k)]
    ref = rng.choice(plain) if plain and (small or rng.random() < .7) else None
    curved = not small and all(u.typeID in (1, 2) for u in m.unc) and rng.random() < .6
    order = list(sensors)
    rng.shuffle(order)
    sd, info = OrderedDict(), {}
    for s in order:
        r = s == ref
        g, h, q = (1, 1, 0) if small else (rng.choice([1, -1, 2]), rng.choice([1, -1, 2]), rng.choice([0, 1]) if curved else 0)
        info[s] = {"g": g, "h": h, "q": q, "ref": r}
        n = 0 if r else rng.randint(1, int(m.idx["sensor_ms"][sensors.index(s)]) if small else 4)
        sd[s] = {"sensor_model": Model(g, r), "sensor_model_parameter": [float(rng.randint(-2, 2)) for _ in range(n)],
                 "sensor_model_constant": [] if r or small else [constant(rng, 3) for _ in range(rng.randint(0, 2))],
                 "adjustment_model": Adjuster(h, q)}
    m.setSensorData(sd)
    return info, curved


def problem(rng, root, scen, small=False, types=(1, 2, 3, 4), m=(1, 8), loose=False):
    while True:
        tr = None
        if not small:
            tr = [[rng.random() < .4 for _ in range(2)] for _ in range(2)]
        else:
            tr = [[False, False], [False, False]]
        files = files_for(rng, scen, minm=m[0], maxm=m[1] if small else 4, norm=True, tracks=tr, ref=True, nfiles=None if not small else rng.choice([1, 1, 2]) if m[1] < 30 else 1,
                          types=types if rng.random() < .6 else (1, 2) if 2 in types else (1,), mmax=2 if small else 3, loose=loose)
        for f in files:
            cap = (2 if m[1] > 30 else 1) if small else 4
            for p in range(2):
                f["Ur"][p] = [[min(x, cap) for x in row] for row in f["Ur"][p]]
                f["Us"][p] = [[min(x, 2) for x in row] for row in f["Us"][p]]
                for w in range(2):
                    if f["track"][w][p]["has"]:
                        f["track"][w][p]["v"] = [x % 9 for x in f["track"][w][p]["v"]]
            f["Kr"] = [1 if small else rng.choice([1, 2]) for _ in f["Kr"]]
            f["Ks"] = [0] * f["M"]
            if small:
                f["U"] = [[1] * len(u) for u in f["U"]]
            f["t"] = [[x // 10 * 10 for x in t] if small else t for t in f["t"]]
        p = Problem()
        p.m = opened(rng, root, files)
        p.info, p.curved = describe(rng, p.m, small)
        if all(p.info[s]["ref"] for s in p.info):
            continue
        break
    gh = ({s: v["g"] for s, v in p.info.items()}, {s: v["h"] for s, v in p.info.items()})
    p.D = data(p.m, gh)
    names = p.D["sensors"]
    p.D["ref"] = [p.info[s]["ref"] for s in names]
    p.D["q"] = [p.info[s]["q"] for s in names]
    p.D["apos"] = [[i + 1 for i, z in enumerate(p.m.idx["parameter_sensor"]) if z == s] for s in names]
    p.D["sc"] = 2 if p.curved else 64
    p.q = Transform2NormInd().run(p.m)
    b = list(p.q.idx["idx"])
    p.nsys = int(b[-1] - b[-2] - p.q.idx["N_var"][-1])
    p.ends = [int(x) for x in b[:-1]] + [int(b[-1]) - p.nsys]
    p.nv, p.nk, p.na = int(b[-1]), int(p.q.idx["cNm"][-1]), len(p.q.a)
    # whole numbers throughout
    r = 3 if small else 5
    p.q.values = np.array([rng.randint(-r, r) for _ in range(p.nv)], dtype=np.float32)
    p.q.ks = np.array([rng.randint(-20, 20) for _ in range(p.nk)], dtype=float)
    p.q.a = np.array([rng.randint(-2, 2) for _ in range(p.na)], dtype=np.float32)
    return p


def ivec(rng, n, r=5):
    return [rng.randint(-r, r) for _ in range(n)]


def split(p, v, kind, f=lambda x: x):
    """A flat vector as x, s and a or k."""
    v = list(v)
    o = {"x": [f(v[p.ends[i]:p.ends[i + 1]]) for i in range(len(p.ends) - 1)], "s": f(v[p.ends[-1]:p.nv])}
    rest = v[p.nv:]
    if kind == "a":
        o["a"] = f(rest)
    elif kind == "k":
        c = [int(x) for x in p.q.idx["cNm"]]
        o["k"] = [f(rest[c[i]:c[i + 1]]) for i in range(len(c) - 1)]
    return o


def grid(p):
    return lambda v: encs(v, p.D["sc"], .2)


def lower(rng, n):
    S = np.zeros((n, n))
    for i in range(n):
        S[i, i] = rng.choice([1, 1, 2])
        for j in range(i):
            S[i, j] = rng.choice([0, 0, 1, -1])
    return S


def products(rec, rng, p, G, S, n=2, state=True):
    """Products at the present state of G."""
    P = split(p, [int(x) for x in G.xyza], "a")
    for _ in range(n):
        d = ivec(rng, p.nv + p.na)
        rec.rec("jx", P=P, d=split(p, d, "a"), S=encm(S), obs=observed(lambda: G.get_JPx(np.array(d, dtype=np.float32)), lambda v: split(p, v, "k", grid(p))))
        if not state:
            continue
        w = ivec(rng, p.nv + p.nk, 4)
        rec.rec("jt", P=P, w=split(p, w, "k"), S=encm(S), obs=observed(lambda: G.get_JPTx(np.array(w, dtype=np.float32)), lambda v: split(p, v, "a", grid(p))))
        e = ivec(rng, p.nv + p.na, 1)
        x = np.array(e, dtype=np.float32)
        rec.rec("hx", obs=observed(lambda: (G.calc_Hx(x), G.get_JPTx(G.get_JPx(x))), lambda v: {"same": bool(np.allclose(v[0], v[1], rtol=1e-4, atol=1e-2))}))


def algebra(rec, rng, root, n, scen):
    for k in range(n):
        p = problem(rng, root, scen, loose=True)
        if rng.random() < .3:
            p.q.ks = np.array([rng.randint(-100000, 100000) for _ in range(p.nk)], dtype=float)
        rec.begin()
        rec.rec("data", D=p.D)
        S = lower(rng, p.na)
        given = rng.random() < .6
        if not given:
            S = np.eye(p.na)
        G = GN.GNAlgo(p.q, S.dot(S.T)) if given else GN.GNAlgo(p.q)
        rec.rec("start", x=ints(p.q.values), a=ints(p.q.a), S=encm(S), obs=observed(
            lambda: G, lambda g: {"x": ints(g.xyza[:p.nv]), "a": ints(g.xyza[p.nv:]), "S": encm(g.S)}))
        V = split(p, [int(x) for x in p.q.values], "")
        for _ in range(2):
            x = ivec(rng, p.nv, 4) + ivec(rng, p.na, 2)
            G.xyza = np.array(x, dtype=np.float32)
            P = split(p, x, "a")
            ks = split(p, [0] * p.nv + [int(y) for y in p.q.ks], "k")["k"]
            rec.rec("f", P=P, V=V, ks=ks, obs=observed(lambda: G.calc_f(G.xyza, p.q), lambda v: split(p, v, "k", grid(p))))
            products(rec, rng, p, G, S, 1)
            for s in range(len(p.D["sensors"])):
                for mu in range(1, len(p.D["Nm"]) + 1):
                    if s + 1 not in p.D["Im"][mu - 1]:
                        continue
                    i32 = lambda key, idx: np.asarray(idx[key], dtype=np.int32)

                    def both():
                        a = G.unconvert_Xs(G.xyza, p.q.unc, p.q.idx, p.q._original_idx, s, mu)
                        b = FAST.unconvert_Xs(G.xyza, i32("n_sensor", p.q.idx), i32("idx", p.q.idx), i32("idx", p.q._original_idx), i32("n_cov", p.q.idx),
                                            i32("n_mu", p.q.idx), i32("N_var", p.q.idx), p.q.unc, p.q.w_matrices, [np.asarray(u, dtype=np.float32) for u in p.q.u_matrices], s, mu,
                                            int(p.q.idx["sensor_ms"][s]))
                        return a, b
                    rec.rec("un", P=P, s=s + 1, mu=mu, obs=observed(both, lambda v: {"x": encm(v[0], WS), "y": encm(v[1], WS)}))


class Unknown(Exception):
    pass


def key(v):
    return tuple(int(round(float(x))) for x in v)


def scripted(rec, rng, root, n, scen):
    """The iteration with prescribed steps, residuals and gradients."""
    scen = [s for s in scen if "its" in s]
    rng.shuffle(scen)
    for k in range(n):
        p = problem(rng, root, [])
        if p.nv > 40:
            continue
        rec.begin()
        rec.rec("data", D=p.D)
        sc = scen.pop() if scen else {"cost0": 400, "its": []}
        its = list(sc["its"])[:p.nv]
        while len(its) < p.nv:
            its.append({"cost": rng.choice([4, 64, 65, 400]), "nd": rng.choice([1, 2]), "ng": rng.choice([2, 16, 98])})
        used = set()

        def residual(cost):
            while True:
                v = [0] * (p.nv + p.nk)
                parts = {4: [2], 64: [8], 65: [8, 1], 400: rng.choice([[20], [12, 16]])}[cost]
                for y, i in zip(parts, rng.sample(range(len(v)), len(parts))):
                    v[i] = rng.choice([y, -y])
                # uniqueness: a cheap mark of its own that changes no cost is not to be had, so try again
                if tuple(v) not in used and tuple(-x for x in v) not in used:
                    used.add(tuple(v))
                    return v
                if len(used) > 40:
                    raise Unknown()
        x0 = [15] + ivec(rng, p.nv + p.na - 1, 6)
        p.q.values = np.array(x0[:p.nv], dtype=np.float32)
        p.q.a = np.array(x0[p.nv:], dtype=np.float32)
        try:
            r0 = residual(sc["cost0"])
            steps, at, states, res = [], list(x0), {}, {}
            states[key(x0)] = r0
            last = r0
            for it in its:
                d = [0] + [rng.choice([-1, 0, 0, 1]) for _ in range(p.nv + p.na - 1)]
                d[rng.randrange(1, len(d))] = rng.choice([it["nd"], -it["nd"]])
                while key([x + y for x, y in zip(at, d)]) in states:
                    d[rng.randrange(1, len(d))] = it["nd"]
                    d[rng.randrange(1, len(d))] = 0 - it["nd"]
                at = [x + y for x, y in zip(at, d)]
                r = residual(it["cost"])
                g = [0] * (p.nv + p.na)
                g[rng.randrange(len(g))] = rng.choice([1, -1]) * it["ng"] // 2
                states[key(at)] = r
                res[key(last)] = ("d", d)
                steps.append({"d": d, "r": r, "g": g})
                last = r
        except (Unknown, KeyError):
            continue
        grads = {key(s["r"]): s["g"] for s in steps}
        moves = {key(a): s["d"] for a, s in zip([r0] + [s["r"] for s in steps[:-1]], steps)}
        seen = {"n": 0}

        class Scripted(GN.GNAlgo):
            def calc_f(self, xyza, HData):
                if key(xyza) not in states:
                    raise Unknown()
                return np.array(states[key(xyza)], dtype=np.float32)

            def calc_prod_JPx(self, x, transpose=False):
                if not transpose:
                    return np.zeros(p.nv + p.nk)          # only ever probed for its type
                if key(x) in grads:
                    return np.array(grads[key(x)], dtype=np.float32)
                return -np.array(grads[key(-np.asarray(x))], dtype=np.float32)

        class Lsmr(object):
            def __init__(self, A):
                self.x = None

            def solve(self, rhs, **kw):
                seen["n"] += 1
                m = key(-np.asarray(rhs))
                self.x = np.array(moves[m], dtype=float) if m in moves else -np.array(moves[key(rhs)], dtype=float)

        old = GN.LSMRFramework
        GN.LSMRFramework = Lsmr
        try:
            G = Scripted(p.q)

            def look(v):
                a, V, cost, dof, pv, vals, ks, sys_, who = v
                b = [int(z) for z in p.m.idx["idx"]]
                c = [int(z) for z in p.m.idx["cNm"]]
                return {"a": ints(a), "V": encm(V), "cost": enc(cost, 1, .01), "dof": enc(dof), "v": [encs(z, WS) for z in cut(vals, b)],
                        "ks": [encs(z) for z in cut(ks, c)], "sys": [] if sys_ is None else ints(sys_), "who": [] if who is None else [str(z) for z in who],
                        "n": seen["n"]}
            rec.rec("run", x0=x0, r0=r0, its=steps, obs=observed(lambda: G.run(tol=1 / 64., return_covariance=False), look))
        finally:
            GN.LSMRFramework = old


def dense(p, xyza):
    """The Jacobian at a state, without preconditioner (a witness: the specification judges)."""
    G = GN.GNAlgo(p.q)
    G.xyza = np.array(xyza, dtype=np.float32)
    n = p.nv + p.na
    return np.array([G.get_JPx(np.eye(n, dtype=np.float32)[i]) for i in range(n)], dtype=float).T


def posed(rng, root, types, m=(1, 8), na=99):
    """A small problem with data that some whole parameters explain exactly; they are well determined."""
    while True:
        p = problem(rng, root, [], small=True, types=types, m=m)
        if p.na > na:
            continue
        star = [int(x) for x in p.q.values] + [int(x) for x in ivec(rng, p.na, 2)]
        G = GN.GNAlgo(p.q)
        p.q.ks = np.zeros(p.nk)
        f = G.calc_f(np.array(star, dtype=np.float32), p.q)
        p.q.ks = np.array(f[p.nv:], dtype=float)
        J = dense(p, star)
        H = J.T.dot(J)
        w = np.linalg.eigvalsh(H)
        if w[0] > .05 and p.nk > p.na:
            V = np.linalg.inv(H)[p.nv:, p.nv:]
            if np.abs(V).max() < 3:
                p.star, p.J, p.H = star, J, H
                return p


@contextlib.contextmanager
def quiet():
    import sys
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def kparts(p, ks, sc=1):
    return split(p, [0] * p.nv + [int(round(float(y) * sc)) for y in ks], "k")["k"]


def solve_events(rec, rng, root, n, U=1024):
    for k in range(n):
        p = posed(rng, root, (1, 2, 3, 4))
        rec.begin()
        rec.rec("data", D=p.D)
        ks = kparts(p, p.q.ks, p.D["sc"])
        P = split(p, p.star, "a")
        p.q.a = np.array([x + (rng.choice([-1, 0, 1]) if k % 4 else 0) for x in p.star[p.nv:]], dtype=np.float32)
        S = np.linalg.cholesky(np.linalg.inv(p.H)[p.nv:, p.nv:])

        def run():
            with quiet():
                return GN.GNAlgo(p.q, S.dot(S.T)).run(return_covariance=False)

        def look(v):
            b = [int(z) for z in p.m.idx["idx"]]
            return {"a": encs(v[0], U, .6), "cost": enc(v[2], U, .6), "v": [encs(z, U, .6) for z in cut(v[5], b)]}
        rec.rec("solve", P=P, ks=ks, u=U, eps=16, obs=observed(run, look))


def cov_events(rec, rng, root, n, U=1024):
    for k in range(n):
        for _ in range(50):
            p = posed(rng, root, (1, 2, 3, 4))
            if p.rest(U) < .11:
                break
        rec.begin()
        rec.rec("data", D=p.D)
        P = split(p, p.star, "a")
        S = lower(rng, p.na) if rng.random() < .7 else np.eye(p.na)
        G = GN.GNAlgo(p.q, S.dot(S.T))
        G.xyza = np.array(p.star, dtype=np.float32)
        T = np.linalg.solve(p.H, np.eye(p.nv + p.na)[:, p.nv:])
        rec.rec("cov", P=P, u=U, sc=8, T=[split(p, [int(round(x * U)) for x in T[:, j]], "a") for j in range(p.na)],
                obs=observed(G.calculate_parameter_covariance_matrix, lambda V: {"V": encm(V, U, .6)}))


def state_events(rec, rng, root, n, scen):
    for k in range(n):
        p = problem(rng, root, scen)
        rec.begin()
        rec.rec("data", D=p.D)
        S = lower(rng, p.na)
        G = GN.GNAlgo(p.q, S.dot(S.T))
        x = ivec(rng, p.nv, 4) + ivec(rng, p.na, 2)
        G.xyza = np.array(x, dtype=np.float32)
        values, ks = ints(p.q.values), [int(y) for y in p.q.ks]
        d = os.path.join(root, "state", "deep%d" % k)
        if rng.random() < .5:
            os.makedirs(d)
        other = copy.copy(p.m)                     # as opened: not transformed
        other.idx = copy.deepcopy(p.m.idx)

        def go():
            G.save(d)
            H = GN.GNAlgo(other)
            H.open(d)
            return H

        def same(a, b):
            return sorted(a) == sorted(b) and all(list(map(str, np.ravel(np.asarray(a[z], dtype=object)))) == list(map(str, np.ravel(np.asarray(b[z], dtype=object)))) for z in a)
        st, H = guarded(go)
        rec.rec("state", x=x, S=encm(S), v=values, obs=observed(lambda: H, lambda h: {
            "x": ints(h.xyza), "S": encm(h.S), "v": ints(h.HData.values), "idx": same(h.HData.idx, p.q.idx)}) if st == "ok" else {"status": st})
        if st == "ok":
            rec.rec("f", P=split(p, x, "a"), V=split(p, values, ""), ks=split(p, [0] * p.nv + ks, "k")["k"],
                    obs=observed(lambda: H.calc_f(H.xyza, H.HData), lambda v: split(p, v, "k", grid(p))))
            products(rec, rng, p, H, S, 2, state=False)
        shutil.rmtree(d, ignore_errors=True)


def pc_events(rec, rng, root, n, scen):
    PC = part("harmonisationProcessing.harmonisation_eiv_pc.pc_algo")
    beyond = 0
    for k in range(n):
        solve = k % 4 == 0
        p = posed(rng, root, (1,)) if solve else problem(rng, root, [], types=(1,))
        rec.begin()
        rec.rec("data", D=p.D)
        sc = p.D["sc"]
        if solve:
            ks, P = kparts(p, p.q.ks, p.D["sc"]), split(p, p.star, "a")
            p.q.a = np.array([x + (rng.choice([-1, 0, 1]) if k % 4 else 0) for x in p.star[p.nv:]], dtype=np.float32)

            def run():
                with quiet():
                    return PC.PCAlgo(p.q).runPC(tol=1e-6)
            rec.rec("pcs", P=P, ks=ks, u=1024, eps=16, obs=observed(run, lambda v: {"a": encs(v[0], 1024, .6)}))
            continue
        x = [int(y) for y in p.q.values]
        a = ivec(rng, p.na, 2)
        ks = kparts(p, p.q.ks)

        def go():
            A = PC.PCAlgo(p.q)
            A.xyza = np.array(x + a, dtype=float)
            A.LK = A.calc_LK(p.q)
            return A.LK, A.get_f(np.array(a, dtype=float)), A.get_Ja(np.array(a, dtype=float))

        def look(v):
            LK, f, J = [np.asarray(z, dtype=float) for z in v]
            return {"VK": encm(LK.dot(LK.T), sc * sc, .6), "f": encs(LK.dot(f), sc, .6), "J": encm(LK.dot(J), sc, .6)}
        o = observed(go, look)
        if o["status"] == "ok" and beyond < n // 10 and any(v == INEXACT for row in o["VK"] for v in row):
            beyond += 1                            # values that leave the specification's whole numbers: not every time
            continue
        rec.rec("pc", P=split(p, x + a, "a"), ks=ks, obs=o)


def eiv_events(rec, rng, root, n, U=1024):
    HR = part("harmonisationIO.HarmonisationResult")
    PC = part("harmonisationProcessing.harmonisation_eiv_pc.pc_algo")
    C = part("harmonisationProcessing.harmonisation_eiv_pc.HarmonisationEIVPC")
    E = part("harmonisationProcessing.harmonisation_eiv.HarmonisationEIV")
    for k in range(n):
        whole = k % 2 == 0                         # from the sample on; otherwise from a preconditioner that was stored, whatever the errors
        p = posed(rng, root, (1,), (60, 75), 2) if whole else posed(rng, root, rng.choice([(1, 2, 3, 4), (2, 4)]))
        # the data as they would be read
        back = Transform2NormInd().reverse(p.q)
        m = p.m
        m.values = np.array(back.values, dtype=np.float32)
        m.ks = np.array(back.ks)
        q = Transform2NormInd().run(m)
        if whole and not np.array_equal(q.values, p.q.values):
            continue                               # windows that the transformation settles otherwise
        rec.begin()
        rec.rec("data", D=p.D)
        ks, P = kparts(p, p.q.ks, p.D["sc"]), split(p, p.star, "a")
        m.a = np.array([x + (rng.choice([-1, 0, 1]) if k % 4 else 0) for x in p.star[p.nv:]], dtype=np.float32)
        names = [str(s) for s in m.idx["parameter_sensor"]]

        # alone, with a stored preconditioner, and from a stored solver state
        pc, gn, gs = os.path.join(root, "pc"), os.path.join(root, "gn"), os.path.join(root, "gs")

        def run(**kw):
            def go():
                with quiet():
                    return E.HarmonisationEIV().run(copy.deepcopy(m), show=0, **kw)
            return go

        began, ended, told = [], [], {}

        def look(o):
            b = [int(z) for z in p.m.idx["idx"]]
            st = [dict(split(p, x[:p.nv], "", encs), a=encs(x[p.nv:], U, .6), S=encm(S, U, .6)) for x, S in began]
            return {"a": encs(o.parameter, U, .6), "cost": enc(o.cost, U, .6), "v": [encs(z, U, .6) for z in cut(o.values_res, b)],
                    "sensors": [str(s) for s in o.parameter_sensors], "start": st,
                    "idx": all(ints(o.idx[x]) == ints(p.m.idx[x]) for x in ("Nm", "cNm", "N_var", "idx", "n_mu", "n_cov", "n_sensor")) and
                    encm(o.idx["Im"]) == encm(p.m.idx["Im"]) and [str(x) for x in o.idx["sensors"]] == [str(x) for x in p.m.idx["sensors"]],
                    "cov": bool(np.any(np.asarray(o.parameter_covariance_matrix))), "square": np.shape(o.parameter_covariance_matrix) == (p.na, p.na),
                    "sys": encs(o.additional_variables["systematic_errors"]["data"], U, .6) if "systematic_errors" in o.additional_variables else [],
                    "who": [str(x) for x in o.additional_variables["systematic_error_sensors"]["data"]]
                    if "systematic_error_sensors" in o.additional_variables else [],
                    "saved": [kept(x) for x in (gn, gs)], "file": filed(o)}

        def filed(o):
            """The systematic errors of the result once it is saved and opened."""
            x = os.path.join(root, "res")
            os.mkdir(x)
            try:
                status, r = guarded(lambda: (o.save(os.path.join(x, "harm_r.nc"), save_residuals=False), HR.HarmonisationResult(x, open_residuals=False))[1])
                if status != "ok":
                    return {"status": status, "sys": [], "who": []}
                v = r.additional_variables
                return {"status": status, "sys": encs(v["systematic_errors"]["data"], U, .6) if "systematic_errors" in v else [],
                        "who": [str(y) for y in v["systematic_error_sensors"]["data"]] if "systematic_error_sensors" in v else []}
            finally:
                shutil.rmtree(x)

        def kept(x):
            """Does a directory hold the state that the solver ended in?"""
            if not os.path.isdir(x):
                return "none"
            D = copy.copy(m)
            D.idx = copy.deepcopy(m.idx)
            H = GN.GNAlgo(D)
            H.open(x)
            e = ended[-1]
            return "last" if len(ended) == 1 and np.array_equal(np.array(H.xyza, dtype=float), e[0]) and np.allclose(np.array(H.S, dtype=float), e[1], rtol=1e-5) else "other"
        os.mkdir(pc)
        random.seed(k)
        first, pcfirst = GN.GNAlgo.run, C.HarmonisationEIVPC.run
        sample = []

        def watch(self, *a, **kw):
            began.append((np.array(self.xyza, dtype=float), np.array(self.S, dtype=float)))
            v = first(self, *a, **kw)
            ended.append((np.array(self.xyza, dtype=np.float32).astype(float), np.array(self.S, dtype=float)))
            return v

        def watchpc(self, D, *a, **kw):
            sample.append(copy.deepcopy(D))
            return pcfirst(self, D, *a, **kw)
        class Given(object):
            """The transformation of data that it would settle otherwise: the problem's own."""
            def run(self, D):
                T = copy.deepcopy(p.q)
                T.a = D.a
                return T
        GN.GNAlgo.run, C.HarmonisationEIVPC.run = watch, watchpc
        transform = E.Transform2NormInd
        if not whole:
            E.Transform2NormInd = Given
        path = os.path.join(pc, "harm_pc.nc")

        def watched(**kw):
            del began[:], ended[:]
            shutil.rmtree(gs, ignore_errors=True)
            if rng.random() < .5:
                kw["save_directory_GNOp"] = gs
            if rng.random() < .3:
                kw["return_covariance"] = rng.random() < .5
            told.update(dir="save_directory_GNOp" in kw, gn="save_gn" in kw, cov=kw.get("return_covariance", True) and "save_directory_GNOp" not in kw)
            o = observed(run(**kw), look)
            if "gn_input" in kw and o["status"] == "ok":
                o["saved"][0] = "none"             # the state it began at
            return o
        start = {"x": P["x"], "s": P["s"], "det": False}
        try:
            # 1. on its own: from the preconditioner's solution of a sample
            if whole:
                st = watched(save_pc=path)

                def stored():
                    r = HR.HarmonisationResult(pc, open_residuals=False)
                    return np.array(r.parameter, dtype=float), np.array(r.parameter_covariance_matrix, dtype=float)
                s1, v = guarded(stored)
                if s1 == "ok":
                    s1, L = guarded(lambda: np.linalg.cholesky(v[1]))
                if s1 == "ok":
                    J = PC.PCAlgo(sample[0])
                    J.LK = np.eye(int(sample[0].idx["cNm"][-1]))
                    G = J.get_Ja(np.array(p.star[p.nv:], dtype=float))
                    det = np.linalg.cond(G) < 20
                    rec.rec("eiv", P=P, ks=ks, u=U, eps=16, sensors=names, start=dict(start, a=encs(v[0], U, .6), S=encm(L, U, .6), det=bool(det)), opt=dict(told), obs=st)
                else:
                    rec.rec("eiv", P=P, ks=ks, u=U, eps=16, sensors=names, start=dict(start, a=[], S=[]), opt=dict(told), obs={"status": s1})
                    continue
            # 2. from another stored preconditioner
            if whole:
                r = HR.HarmonisationResult(pc, open_residuals=False)
                os.remove(path)
            else:
                r = HR.HarmonisationResult()
                r.parameter_sensors, r.idx, r.cost, r.cost_dof, r.cost_p_value = names, copy.deepcopy(m.idx), 0., 1., 1.
            a = [x + rng.choice([0, .25, -.25, .5]) for x in p.star[p.nv:]]
            L = lower(rng, p.na)
            r.parameter = np.array(a)
            r.parameter_covariance_matrix = L.dot(L.T)
            r.save(path, save_residuals=False)
            given = dict(start, a=encs(a, U), S=encm(L, U))
            o = watched(pc_input=pc, save_gn=gn)
            rec.rec("eiv", P=P, ks=ks, u=U, eps=16, sensors=names, start=given, opt=dict(told), obs=o)
            # 3. from a stored state as well
            D = copy.copy(m)
            D.idx = copy.deepcopy(m.idx)
            H = GN.GNAlgo(D)
            s1, _ = guarded(lambda: H.open(gn))
            if s1 == "ok":
                x = [y + rng.choice([0, 0, 1, -1]) for y in p.star[:p.nv]]
                b = [y + rng.choice([0, .25, -.5]) for y in p.star[p.nv:]]
                H.xyza = np.array(x + b, dtype=np.float32)
                H.S = lower(rng, p.na)
                os.remove(os.path.join(gn, "GNOp_data.nc"))
                H.save(gn)
                at = split(p, x, "a")
                o = watched(pc_input=pc, gn_input=gn)
                rec.rec("eiv", P=P, ks=ks, u=U, eps=16, sensors=names, start=dict(given, x=at["x"], s=at["s"], a=encs(b, U)), opt=dict(told), obs=o)
            else:
                rec.rec("eiv", P=P, ks=ks, u=U, eps=16, sensors=names, start=given, opt=dict(told), obs={"status": s1})
        finally:
            GN.GNAlgo.run, C.HarmonisationEIVPC.run, E.Transform2NormInd = first, pcfirst, transform
            shutil.rmtree(pc)
            shutil.rmtree(gn, ignore_errors=True)


def main(out, scen, prop):
    rng = random.Random(SEED * 104729 + 5)
    rec = Recorder(out)
    root = os.getcwd()
    sc = load(scen, [])
    q = TIER == "quick"
    if prop == "P12":
        algebra(rec, rng, root, 100 if q else 1200, [])
    if prop == "P13":
        scripted(rec, rng, root, 150 if q else 1500, sc)
        solve_events(rec, rng, root, 25 if q else 200)
        eiv_events(rec, rng, root, 10 if q else 60)
    if prop == "P14":
        state_events(rec, rng, root, 30 if q else 300, [])
        cov_events(rec, rng, root, 10 if q else 60)
        pc_events(rec, rng, root, 80 if q else 800, [])
    rec.close()


if __name__ == "__main__":
    main(*sys.argv[1:4])
