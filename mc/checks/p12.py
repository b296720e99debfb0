"""P12: automatic variogram fitting returns an admissible optimum."""
import functools
import itertools

import numpy as np

from .. import data, lib, ref
from ..engine import Space
from .p01 import ANISO
from .p08 import PLACES

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of data sets and fit options; optimality decided by enumerating a lattice of neighbouring parameters"
ASSUMPTIONS = [
    "optimality is judged up to 3 to 5 % of the misfit plus 1e-7 (20 % plus 1e-4 for the spherical model, whose misfit has kinks), the accuracy of the trust-region method",
    "semivariances between 1e-4 and 1e4 (the tolerances of the optimizer are not relative to the data)",
]


def misfit(model, p, x, y, weight):
    """Sum of the soft-L1 losses of the (weighted) residuals."""
    r = ref.vario(model, p, x).astype(float) - y
    if weight:
        dr = x.max() - x.min()
        w = 1 / (1 + np.exp(-(2.1972 / (0.1 * dr)) * (0.7 * dr + x.min() - x)))
        r = r * w / w.sum()
    return float(np.sum(np.sqrt(1 + r * r) - 1))


def limits(model, x, y):
    if model == "linear":
        return np.array([0.0, 0.0]), np.array([np.inf, y.max()])
    if model == "power":
        return np.array([0.0, 0.001, 0.0]), np.array([np.inf, 1.999, y.max()])
    return np.zeros(3), np.array([10 * y.max(), x.max(), y.max()])


def start(model, x, y):
    slope = (y.max() - y.min()) / (x.max() - x.min())
    if model == "linear":
        return [slope, y.min()]
    if model == "power":
        return [slope, 1.1, y.min()]
    return [y.max() - y.min(), 0.25 * x.max(), y.min()]


def construct(c, base, X, Z, model, cfg, **ex):
    dim = X.shape[1]
    if cfg["via"] == "init":
        return c.ok("construct", lambda: lib.make(base, X, Z, model=model, nlags=cfg["nlags"], weight=cfg["weight"], **ex))
    if cfg["via"] == "update":
        e = dict(ex)
        u = {k: e.pop(k) for k in ("scaling", "angles") if k in e}
        k = c.ok("construct", lambda: lib.make(base, X, Z, model="linear", params=[1.0, 0.5], **e))
        c.ok("update", lambda: k.update_variogram_model(model, nlags=cfg["nlags"], weight=cfg["weight"],
                                                        **lib.aniso_kwargs(dim, u.get("scaling"), u.get("angles"))))
        return k
    from pykrige.compat import Krige

    m = {"ok": "ordinary", "uk": "universal", "ok3": "ordinary3d", "uk3": "universal3d"}[base]
    k = Krige(method=m, variogram_model=model, nlags=cfg["nlags"], weight=cfg["weight"])
    c.ok("fit", lambda: k.fit(X, Z))
    return k.model


def judge(c, model, k, weight):
    p = np.array([float(v) for v in k.variogram_model_parameters])
    x, y = np.asarray(k.lags, dtype=float), np.asarray(k.semivariance, dtype=float)
    lo, hi = limits(model, x, y)
    c.true(len(p) == len(lo), "%d parameters" % len(p))
    c.true(bool(np.all(np.isfinite(p))), "parameters %s" % p)
    c.true(bool(np.all(p >= lo - 1e-12) and np.all(p <= hi * (1 + 1e-12))), "parameters %s outside of %s..%s" % (p, lo, hi))
    if not len(p) == len(lo):
        return
    c0 = misfit(model, p, x, y, weight)
    cs = misfit(model, start(model, x, y), x, y, weight)
    c.true(c0 <= cs * (1 + 1e-6) + 1e-9, "misfit %.6g above that of the starting guess %.6g" % (c0, cs))
    if model == "power":
        sc = np.array([max(p[0], 1e-12), 1.0, y.max()])
    else:
        sc = np.where(np.isfinite(hi), hi, max(p[0], (y.max() - y.min()) / (x.max() - x.min())))
        if model != "linear":
            sc[0] = y.max()
    best, arg = c0, None
    for h in (0.02, 0.01, 0.003, 0.001):
        for d in itertools.product((-1, 0, 1), repeat=len(p)):
            q = np.clip(p + h * np.array(d) * sc, lo, hi)
            if len(p) == 3 and model != "power" and q[1] <= 0:
                continue
            m = misfit(model, q, x, y, weight)
            c.count("neighbours evaluated")
            if m < best:
                best, arg = m, q
    if model == "spherical":  # its misfit has kinks, where the method may stop
        slack = 0.2 * c0 + 1e-4
    else:
        slack = (0.03 if model in ("linear", "exponential") else 0.05) * c0 + 1e-7
    c.true(c0 - best <= slack, "misfit %.8g at %s, but %.8g at the neighbour %s" % (c0, p, best, arg))
    c.out(p, [c0])


def case(c, cfg):
    cls = cfg["cls"]
    geo = cls == "ok-geo"
    base = "ok" if geo else cls
    dim = lib.dim_of(base)
    X = np.array(PLACES[cfg["data"][4:]], dtype=float) if geo else data.coords(cfg["data"], dim)
    n = len(X)
    v = cfg["values"]
    Z = data.values("v", n) * float(v[1:]) if v[0] == "x" else data.values(v, n)
    ex = dict(coordinates_type="geographic") if geo else {}
    if not geo and cfg["aniso"] != "none":
        sc, an = ANISO[cfg["aniso"]]
        if sc is not None:
            ex["scaling"] = sc[: dim - 1]
        if an is not None:
            ex["angles"] = an[: 1 if dim == 2 else 3]
    k = construct(c, base, X, Z, cfg["model"], cfg, **ex)
    judge(c, cfg["model"], k, cfg["weight"])


# ---------------------------------------------------------------- recovery
TRUE = {
    "linear": [[0.8, 0.3], [0.2, 0.0], [2.0, 1.0]],
    "power": [[0.6, 1.4, 0.2], [1.0, 0.7, 0.1]],
    "exponential": [[2.0, 4.0, 0.2], [1.5, 3.0, 0.4]],
    "spherical": [[2.0, 5.0, 0.2], [1.2, 4.5, 0.3]],
    "gaussian": [[2.0, 4.0, 0.3], [1.5, 5.0, 0.2]],
}


@functools.lru_cache(None)
def field(model, j, n=9):
    """Values on 0..n-1 whose experimental variogram is exactly the model."""
    from scipy.optimize import least_squares

    p = TRUE[model][j]
    h = np.arange(1, n)
    g = ref.vario(model, p, h).astype(float)

    def res(z):
        return np.array([np.mean((z[k:] - z[:-k]) ** 2) / 2 for k in h]) - g

    for s in range(60):
        z0 = np.cumsum(data.lcg(n, 100 + s) - 0.5) * 3
        r = least_squares(res, z0, xtol=1e-15, ftol=1e-15, gtol=1e-15, max_nfev=4000)
        if np.abs(r.fun).max() < 1e-11:
            return r.x
    return None


def recover(c, cfg):
    model, j = cfg["model"], cfg["which"]
    if j >= len(TRUE[model]):
        return c.skip("no such parameters")
    p = TRUE[model][j]
    z = field(model, j)
    if z is None:
        return c.skip("no field with this variogram found")
    n = len(z)
    cls = cfg["cls"]
    dim = lib.dim_of(cls)
    X = np.zeros((n, dim))
    X[:, cfg["axis"] % dim] = np.arange(n)
    X = X * cfg["scale"]
    want = list(p)
    if model == "linear":
        want[0] /= cfg["scale"]
    elif model == "power":
        want[0] /= cfg["scale"] ** p[1]
    else:
        want[1] *= cfg["scale"]
    o = {"id": np.arange(n), "rev": np.arange(n)[::-1], "mix": (np.arange(n) * 2) % n}[cfg["order"]]
    ex = dict(drift_terms=[]) if cls.startswith("uk") else {}
    k = construct(c, cls, X[o], z[o], model, dict(cfg, nlags=n - 1), **ex)
    h = np.arange(1, n) * cfg["scale"]
    c.close("lags", k.lags, h, 1e-9 * h.max())
    c.close("semivariance", k.semivariance, ref.vario(model, want, h).astype(float), 1e-9)
    got = np.asarray(k.variogram_model_parameters, dtype=float)
    c0 = misfit(model, got, h, ref.vario(model, want, h).astype(float), cfg["weight"])
    c.true(c0 <= 2e-5, "misfit %.3g for exact data, parameters %s instead of %s" % (c0, got, want))
    judge(c, model, k, cfg["weight"])
    c.out(got)


def valid(cfg):
    if (cfg["cls"] == "ok-geo") != cfg["data"].startswith("geo-"):
        return False
    if cfg["via"] == "sklearn" and (cfg["aniso"] != "none" or cfg["cls"] == "ok-geo"):
        return False
    if cfg["cls"] == "ok-geo" and cfg["aniso"] != "none":
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    core = dict(
        cls=["ok", "uk", "ok3", "uk3", "ok-geo"],
        model=list(ref.MODELS),
        data=["n5", "n7", "n9", "n12", "n40", "off7", "tiny7", "flat30", "reg9", "line5", "k33", "k65", "k129", "geo-spread", "geo-dateline", "geo-npole"],
        weight=[False, True],
    )
    dev = dict(
        nlags=[6, 3, 4, 9, 12],
        values=["v", "shift", "neg", "zeros", "x10", "x.3"],
        aniso=["none", "s3a30", "s2"],
        via=["init", "update", "sklearn"],
    )
    core2 = dict(cls=["ok", "uk", "ok3", "uk3"], model=list(TRUE), which=[0, 1, 2], weight=[False, True])
    dev2 = dict(axis=[0, 1], scale=[1.0, 10.0, 0.5], order=["id", "rev", "mix"], via=["init", "update", "sklearn"])
    return [
        Space("fit", case, core, dev, bound=1 if q else 2, valid=valid),
        Space("recover", recover, core2, dev2, bound=1 if q else 3),
    ]
