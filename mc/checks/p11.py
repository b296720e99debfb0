"""P11: the experimental variogram averages all pairs by lag."""
import numpy as np

from .. import data, lib, ref, sizes
from ..engine import Space
from .p01 import ANISO, custom
from .p08 import PLACES as SPHERE

PLACES = dict(
    SPHERE,
    twins=[[10.0, 5], [10, 5], [12, 7], [15, 1], [10, 5], [-20, 60], [-20, 60]],
    poletwins=[[0.0, 90], [120, 90], [30, 80], [30, 80], [-60, 85], [180, 70], [-180, 70]],
)

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of data sets, lag numbers and frames against explicit pair enumeration"
ASSUMPTIONS = [
    "a distance on the border of two bins (up to rounding) may be counted in either of them, consistently for equal distances",
]


def layout(name, dim):
    if name.startswith("line"):  # integers: exact distances, many on bin edges
        t = {"line6": [0, 1, 2, 3, 4, 5], "line-rep": [0, 1, 1, 3, 7, 7, 8], "line-gap": [0, 1, 2, 50, 51]}[name]
        X = np.zeros((len(t), 3))
        X[:, 0] = t
        return X[:, :dim]
    if name == "square":
        X = np.array([[i, j, 0] for i in range(4) for j in range(4)], float)
        return X[:, :dim]
    if name == "cluster":
        X = np.concatenate([data._rand(6, 3, 3), data._rand(6, 3, 4) + 40])
        return X[:, :dim]
    if name == "dup":
        X = data.coords("n7", dim)
        return np.concatenate([X, X[:2]])
    if name in ("huge7", "vast7"):  # distances of which 0.001 is less than the rounding
        return data.coords("n7", dim) * (3e13 if name == "huge7" else 1e60)
    if name == "equi":  # all distances equal up to rounding
        X = np.array([[0.0, 0, 0], [1.0, 0, 0], [0.5, np.sqrt(0.75), 0]])
        return X[:, :dim]
    return data.coords(name, dim)


def oracle(XA, Z, nlags, geographic):
    """Sums over enumerated pairs; per bin the sure ones and the ambiguous ones."""
    D = (ref.sphere if geographic else ref.euclid)(XA, XA)
    n = len(Z)
    d, g = [], []
    for i in range(n):
        for j in range(i + 1, n):
            d.append(D[i, j])
            g.append((np.longdouble(Z[i]) - np.longdouble(Z[j])) ** 2 / 2)
    d, g = np.array(d), np.array(g)
    lo, hi = d.min(), d.max()
    w = (hi - lo) / nlags
    tol = 1e-9 * (np.abs(hi) + 1e-30) if not geographic else np.longdouble(1e-7)
    pos = (d - lo) / w if w > 0 else np.zeros_like(d)
    b = np.clip(np.floor(pos).astype(int), 0, nlags - 1)
    edge = np.rint(pos).astype(int)
    amb = (np.abs(d - (lo + edge * w)) <= tol) & (edge >= 1) & (edge <= nlags - 1)
    return d, g, b, edge, amb


def admissible(d, g, b, edge, amb, nlags):
    """All admissible (lags, semivariances): each group of equal ambiguous
    distances goes left or right."""
    groups = sorted(set(int(e) for e in edge[amb]))
    if len(groups) > 9:
        return None
    out = []
    for bits in range(2 ** len(groups)):
        bb = b.copy()
        for k, e in enumerate(groups):
            bb[amb & (edge == e)] = e - (bits >> k & 1)
        lags, sv = [], []
        for i in range(nlags):
            s = bb == i
            if s.any():
                lags.append(d[s].mean())
                sv.append(g[s].mean())
        out.append((np.array(lags, dtype=float), np.array(sv, dtype=float)))
    return out


def case(c, cfg):
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    if cfg["data"][:5] == "geo-k":
        X = sizes.field(int(cfg["data"][5:]), 2, True)
    else:
        X = np.array(PLACES[cfg["data"][4:]], dtype=float) if geographic else layout(cfg["data"], dim)
    n = len(X)
    Z = data.values(cfg["values"], n)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None or geographic else sc[: dim - 1]
    an = None if an is None or geographic else an[: 1 if dim == 2 else 3]
    nl = cfg["nlags"]
    model = cfg["model"]
    kw = dict(model=model)
    if model == "custom":
        kw.update(params=[1.0, 2.0, 0.1, 0.2], variogram_function=custom)
        internal = [1.0, 2.0, 0.1, 0.2]
    else:
        lst, internal = data.model_params(model, "nug", max(data.span(X), 1e-3))
        kw["params"] = lst
    ex = dict(coordinates_type="geographic") if geographic else {}
    via = cfg["via"]
    if via == "init":
        k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, nlags=nl, weight=cfg["weight"], **kw, **ex))
    else:
        if via == "update":
            k = c.ok("construct", lambda: lib.make(base, X, Z, model="linear", params=[1.0, 0.5], nlags=9, **ex))
        else:
            k = c.ok("construct", lambda: lib.make(base, X, Z, model="linear", params=[1.0, 0.5], nlags=2,
                                                   scaling=None if geographic else [2.0] * (dim - 1),
                                                   angles=None if geographic else [33.0] * (1 if dim == 2 else 3), **ex))
        u = dict(kw)
        u.pop("model")
        u["variogram_parameters"] = u.pop("params")
        u.update(lib.aniso_kwargs(dim, sc, an))
        c.ok("update", lambda: k.update_variogram_model(model, nlags=nl, weight=cfg["weight"], **u))
    if geographic:
        XA = X
    else:
        XA = ref.Model(X, Z, "linear", [1.0, 0.0], sc, an).XA
    alt = admissible(*oracle(XA, Z, nl, geographic), nl)
    if alt is None:
        return c.skip("too many pairs on bin borders")
    if len(alt) > 1:
        c.count("cases with distances on bin borders")
    lt = 1e-9 * max(1e-12, max(a[0].max() for a in alt)) + (1e-8 if geographic else 0) + 1e-15 * float(np.abs(X).max())
    st = 1e-9 * max(a[1].max() for a in alt) + 1e-300
    lags, sv = np.asarray(k.lags, dtype=float), np.asarray(k.semivariance, dtype=float)
    good = [a for a in alt if len(a[0]) == len(lags) and len(sv) == len(a[1]) and np.allclose(lags, a[0], rtol=0, atol=lt)
            and np.allclose(sv, a[1], rtol=0, atol=st)]
    c.true(len(good) > 0, "lags %s semivariances %s instead of %s" % (lags, sv, [tuple(map(np.ndarray.tolist, a)) for a in alt[:2]]))
    if not good:
        return
    if dim == 3:
        return c.out(lags, sv)  # no such method there
    L, G = c.ok("get_variogram_points", k.get_variogram_points)
    c.close("lags of get_variogram_points", L, lags, 0)
    want = ref.vario(custom if model == "custom" else model, internal, lags).astype(float)
    c.close("model of get_variogram_points", G, want, 1e-11 * (np.abs(want).max() + internal[0]))
    c.out(lags, sv)


def valid(cfg):
    geo = cfg["cls"] == "ok-geo"
    if geo != cfg["data"].startswith("geo-"):
        return False
    if geo and cfg["aniso"] != "none":
        return False
    if geo and cfg["data"] in ("geo-two",):
        return cfg["nlags"] == 1 or True
    if cfg["data"] in ("square", "line6", "line-rep", "line-gap", "equi", "reg9") and cfg["aniso"] in ("s3a30", "s.4a-75", "a45"):
        return False  # ties are broken by rounding of the rotated coordinates
    return True


def spaces(tier):
    q = tier == "quick"
    core = dict(
        cls=["ok", "uk", "ok3", "uk3", "ok-geo"],
        data=["n7", "n2", "n3", "n12", "n40", "off7", "utm7", "tiny7", "big7", "neg7", "flat30", "cluster", "dup", "line6",
              "line-rep", "line-gap", "square", "equi", "huge7", "vast7"] + ["geo-" + p for p in PLACES],
        nlags=[6, 1, 2, 3, 4, 5, 7, 10, 13, 20],
    )
    dev = dict(
        values=["v", "shift", "large", "small", "const", "zeros", "neg"],
        aniso=list(ANISO),
        via=["init", "update", "update-from"],
        model=["linear", "spherical", "custom", "hole-effect"],
        weight=[False, True],
    )
    N = [15, 16, 17, 33, 65, 100, 101, 128, 129] + ([] if q else [199, 200, 201, 256, 257, 399, 513])
    return [
        Space("lags", case, core, dev, bound=1 if q else 3, valid=valid),
        Space("sizes", case, dict(core, data=["k%d" % n for n in N] + ["geo-k%d" % n for n in N], nlags=[1, 6, 15, 16, 17, 50, 64, 100, 128, 200]),
              dict({k: v[:1] for k, v in dev.items()}, aniso=["none", "s3a30"], via=dev["via"]), bound=1, valid=valid),
    ]
