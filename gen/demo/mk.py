"""Makes small match-up files for the demonstrations."""
import os
import shutil
import sys
import tempfile
import warnings
import numpy as np
warnings.simplefilter("ignore")
TREE = "/opt/harmonisation-build/"
sys.path[:0] = [TREE + "harmonisation_eiv"]


def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    import atexit
    atexit.register(shutil.rmtree, d, True)
    return d


def matchup(path, s1, s2, X1, X2, Ur1=None, Us1=None, Ur2=None, Us2=None, ut1=None, ut2=None, K=None, Kr=None, Ks=None,
            time1=None, time2=None, extra=(), w=None):
    """w: {"nnz", "row", "col", "val", "use1", "use2", "ucount", "uval", "uuse1", "uuse2"}"""
    from netCDF4 import Dataset
    d = Dataset(path, "w")
    X1, X2 = np.array(X1, dtype=float), np.array(X2, dtype=float)
    M, m1, m2 = X1.shape[0], X1.shape[1], X2.shape[1]
    for n, k in (("M", M), ("m1", m1), ("m2", m2)):
        d.createDimension(n, k)
    d.sensor_1_name, d.sensor_2_name = s1, s2

    def v(name, t, dims, data):
        d.createVariable(name, t, dims)[:] = np.array(data)
    one1, one2 = np.ones((M, m1)), np.ones((M, m2))
    v("X1", "f8", ("M", "m1"), X1)
    v("X2", "f8", ("M", "m2"), X2)
    v("Ur1", "f8", ("M", "m1"), one1 if Ur1 is None else Ur1)
    v("Us1", "f8", ("M", "m1"), one1 * 0 if Us1 is None else Us1)
    v("Ur2", "f8", ("M", "m2"), one2 if Ur2 is None else Ur2)
    v("Us2", "f8", ("M", "m2"), one2 * 0 if Us2 is None else Us2)
    v("uncertainty_type1", "i4", ("m1",), [1] * m1 if ut1 is None else ut1)
    v("uncertainty_type2", "i4", ("m2",), [1] * m2 if ut2 is None else ut2)
    v("K", "f8", ("M",), np.zeros(M) if K is None else K)
    v("Kr", "f8", ("M",), np.ones(M) if Kr is None else Kr)
    v("Ks", "f8", ("M",), np.zeros(M) if Ks is None else Ks)
    v("time1", "f8", ("M",), np.arange(M) * 60. if time1 is None else time1)
    v("time2", "f8", ("M",), np.arange(M) * 60. if time2 is None else time2)
    for name, t, data in extra:
        v(name, t, ("M",), data)
    if w:
        d.createDimension("w_matrix_count", len(w["nnz"]))
        d.createDimension("w_matrix_row_count", len(w["row"][0]))
        d.createDimension("w_matrix_nnz_sum", sum(w["nnz"]))
        d.createDimension("u_matrix_count", len(w["ucount"]))
        d.createDimension("u_matrix_row_count_sum", sum(w["ucount"]))
        v("w_matrix_nnz", "i4", ("w_matrix_count",), w["nnz"])
        v("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count"), w["row"])
        v("w_matrix_col", "i4", ("w_matrix_nnz_sum",), w["col"])
        v("w_matrix_val", "f8", ("w_matrix_nnz_sum",), w["val"])
        v("w_matrix_use1", "i4", ("m1",), w["use1"])
        v("w_matrix_use2", "i4", ("m2",), w["use2"])
        v("u_matrix_row_count", "i4", ("u_matrix_count",), w["ucount"])
        v("u_matrix_val", "f8", ("u_matrix_row_count_sum",), w["uval"])
        v("u_matrix_use1", "i4", ("m1",), w["uuse1"])
        v("u_matrix_use2", "i4", ("m2",), w["uuse2"])
    d.close()


def solver(name="harmonisation_eiv.GN_algo"):
    """A module of the solvers (names that the package does not export at this commit are provided)."""
    import importlib
    import harmonisation as h
    np.set_printoptions = lambda *a, **k: None
    mp, base = "harmonisation.core.matchup.matchupProcessing.", "harmonisation.core.matchup.matchupToolbox."
    for mod, names in ((mp + "transform2normind.Transform2NormInd", ["Transform2NormInd"]), (mp + "sample2ind.Sample2Ind", ["Sample2Ind"]),
                       (base + "utils.matchup_maths", ["evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K"])):
        m = importlib.import_module(mod)
        for n in names:
            setattr(h, n, getattr(m, n))
    return importlib.import_module(base + "harmonisation.harmonisationProcessing." + name)


def ref_model(X, a, c, xt, at, t):
    return np.array(X[:, 0], dtype=float), None


def gain_model(X, a, c, xt, at, t):
    """a[0] + sum of the variables, weighted 1, 2, .."""
    n = X.shape[1]
    return a[0] + X.dot(np.arange(1., n + 1)), np.column_stack([np.full(len(X), k + 1.) for k in range(n)] + [np.ones(len(X))])


def plain_adjustment(y):
    return np.array(y, dtype=float), np.ones(len(y))


def problem(d, models):
    """The dataset of a directory with {sensor: (model, parameters)}, transformed."""
    from collections import OrderedDict
    from harmonisation import open_matchup
    from harmonisation.core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd
    m = open_matchup(d)
    m.setSensorData(OrderedDict((s, {"sensor_model": f, "sensor_model_parameter": a, "sensor_model_constant": [], "adjustment_model": plain_adjustment})
                                for s, (f, a) in models.items()))
    return m, Transform2NormInd().run(m)
