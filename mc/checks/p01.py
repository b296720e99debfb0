"""P01: ordinary kriging solves the ordinary kriging equations."""
import numpy as np

from .. import data, lib, ref, sizes
from ..engine import Space

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "deviation-bounded exhaustive exploration of configurations against an extended-precision reference model"
ASSUMPTIONS = [
    "cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
    "targets closer than 1e-10 to a data point coincide with it (documented cut-off)",
]

DATA = ["n7", "n2", "n3", "n5", "off7", "utm7", "tiny7", "big7", "neg7", "n9", "reg9", "line5",
        "vert5", "n12", "flat30", "n40"]
ANISO = {
    "none": (None, None),
    "s3a30": ([3.0, 0.6], [30.0, -20.0, 50.0]),
    "s.4a-75": ([0.4, 2.5], [-75.0, 110.0, 15.0]),
    "s2": ([2.0, 1.0], None),
    "a45": (None, [45.0, 0.0, 0.0]),
}


def custom(p, d):
    return p[0] * (1 - np.exp(-d / p[1])) + p[2] * np.sqrt(d) + p[3]


def cubic(p, d):
    """No valid variogram: kriging variances may be negative."""
    return p[0] * d**3 + p[1]


def setup(model, pk, X):
    L = data.span(X)
    if model == "cubic":
        p = [2.0 / L**3, {"nonug": 0.0, "small": 0.02}.get(pk, 0.2)]
        return dict(model="custom", params=p, variogram_function=cubic), (cubic, p)
    if model == "custom":
        nug = {"nug": 0.2, "nonug": 0.0, "big": 1.5, "small": 0.02, "steep": 0.1, "int": 1}[pk]
        p = [1.5, 0.6 * L, 0.4 / np.sqrt(L), nug]
        return dict(model="custom", params=p, variogram_function=custom), (custom, p)
    lst, internal = data.model_params(model, pk, L)
    return dict(model=model, params=lst), (model, internal)


def request(c, k, cls, style, backend, P, kw=None):
    """Executes and returns flat targets, estimates, variances, mask."""
    kw = dict(kw or {})
    kw["backend"] = backend
    dim = P.shape[1]
    if style == "points":
        z, s = c.ok("execute points %s" % backend, lambda: lib.run_points(k, P, **kw))
        return P, np.asarray(z), np.asarray(s), None
    axes = [P[: 4 - i, i].copy() for i in range(dim)]
    G, shape = lib.grid_points(axes)
    if style == "grid":
        z, s = c.ok("execute grid %s" % backend, lambda: k.execute("grid", *axes, **kw))
        mask = None
    else:
        mask = (np.arange(len(G)) % 3 == 1).reshape(shape)
        z, s = c.ok("execute masked %s" % backend, lambda: k.execute("masked", *axes, mask=mask, **kw))
    c.true(z.shape == shape and s.shape == shape, "shape %s/%s instead of %s" % (z.shape, s.shape, shape))
    z, s = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
    return G, z, s, None if mask is None else mask.ravel()


def case(c, cfg):
    cls = cfg["cls"]
    dim = lib.dim_of(cls)
    X = data.coords(cfg["data"], dim)
    Z = data.values(cfg["values"], len(X))
    kw, (rm, rp) = setup(cfg["model"], cfg["params"], X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    exact = cfg["exact"]
    k = c.ok("construct", lambda: lib.make(cls, X, Z, scaling=sc, angles=an, exact_values=exact, **kw))
    P = data.targets(X, cfg["targets"])
    style, backend = cfg["request"].split("-")
    G, z, s, mask = request(c, k, cls, style, backend, P)
    r = ref.Model(X, Z, rm, rp, sc, an, exact=exact).predict(G)
    if not r.usable:
        return c.skip("ill-conditioned")
    u = slice(None) if mask is None else ~mask
    c.close("estimate", z[u], r.z[u], r.tz[u])
    c.close("variance", s[u], r.ss[u], r.tss[u])
    c.out(z[u], s[u])


def valid(cfg):
    if cfg["cls"] == "ok3" and cfg["request"].endswith("-C"):
        return False
    if cfg["model"] in ("custom", "cubic", "hole-effect") and cfg["request"].endswith("-C"):
        return False  # not supported by the C backend, see P03
    if cfg["targets"] == "many" and not cfg["request"].startswith("points"):
        return False
    # an anisotropic frame at large offsets makes coincidence depend on rounding
    if cfg["data"] == "utm7" and cfg["aniso"] in ("s3a30", "s.4a-75", "a45"):
        return cfg["targets"] not in ("data", "mixed", "many", "dups")
    return True


def valid_size(tier):
    def valid(g):
        style, backend = g["request"].split("-")
        if backend == "C" and g["cls"] == "ok3":
            return False
        if tier == "quick" and backend == "loop" and g["m"] > 20000:
            return False
        if g["n"] > 300 and (g["cls"] == "ok3" or tier == "quick" and style != "points"):
            return False  # the statistics take long
        return g["n"] <= 600 or tier != "quick"

    return valid


def spaces(tier):
    core = dict(
        cls=["ok", "ok3"],
        model=list(ref.MODELS) + ["custom", "cubic"],
        data=DATA + (["n120"] if tier == "thorough" else []),
    )
    dev = dict(
        request=["points-vectorized", "points-loop", "grid-vectorized", "masked-loop", "points-C",
                 "grid-loop", "masked-vectorized", "grid-C", "masked-C"],
        targets=["mixed", "mid", "one", "far", "data", "near", "many", "dups"],
        params=["nug", "nonug", "big", "small", "steep", "int"],
        values=["v", "shift", "small", "large", "const", "zeros", "neg"],
        aniso=list(ANISO),
        exact=[True, False],
    )
    quick = tier == "quick"
    pair_core = dict(core, data=["n7", "n3"] if quick else ["n7", "n3", "n40"])
    return [
        Space("system", case, core, dev, bound=1 if quick else 2, valid=valid),
        Space("pairs", case, pair_core, dev, bound=2 if quick else 3, valid=valid),
        Space("numbers of targets", sizes.case, dict(cls=["ok", "ok3", "ok-geo"], n=[7], m=sizes.TARGETS + ([] if quick else sizes.MORE),
                                                     request=dev["request"]), valid=valid_size(tier)),
        Space("numbers of data", sizes.case, dict(cls=["ok", "ok3", "ok-geo"], n=sizes.POINTS + sizes.MANY + sizes.HUGE, m=[37],
                                                  request=dev["request"]), valid=valid_size(tier)),
        # smooth fields with little nugget: all small eigenvalues count
        Space("numbers of data (smooth)", sizes.case, dict(cls=["ok", "ok3"], n=sizes.POINTS + sizes.MANY + sizes.HUGE, m=[37], model=["gaussian", "spherical"], nugget=[1e-3],
                                                           request=["points-vectorized", "points-loop", "points-C", "grid-vectorized"]), valid=valid_size(tier)),
    ]
