"""The contents of a match-up file."""
from netCDF4 import Dataset

from common import SC, encm, encs

REAL2 = {"X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "w_matrix_val", "u_matrix_val"}


def scale_of(name):
    if name in ("time1", "time2"):
        return 4
    return SC if name in REAL2 or name.startswith("extra") else 1


def dump(path, tscale=4, more=()):
    """All that a file holds; `more`: further variables on the grid of the measurements."""
    d = Dataset(path)
    out = {"attrs": {k: str(getattr(d, k)) for k in d.ncattrs()}, "sizes": {k: len(v) for k, v in d.dimensions.items()}, "vars": {}}
    for n, v in d.variables.items():
        data = v[:]
        s = tscale if n in ("time1", "time2") else SC if n in more else scale_of(n)
        out["vars"][str(n)] = {"dims": [str(x) for x in v.dimensions], "dtype": str(v.dtype),
                               "v": encs(data, s) if data.ndim == 1 else encm(data, s)}
    d.close()
    return out
