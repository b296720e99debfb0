"""P09: variogram models are the documented functions."""
import numpy as np

from .. import lib, ref, sizes
from ..engine import Space

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of distances, parameters and argument forms against the documented formulas in extended precision"
ASSUMPTIONS = ["the compiled models are observed through kriging with the C backend"]

FUNC = {
    "linear": "linear_variogram_model", "power": "power_variogram_model", "gaussian": "gaussian_variogram_model",
    "spherical": "spherical_variogram_model", "exponential": "exponential_variogram_model",
    "hole-effect": "hole_effect_variogram_model",
}
P0 = [1.0, 0.3, 2.5, 40.0, 1e-4, 3, 0.0]   # slope, scale, partial sill
P1 = [1.0, 0.7, 3.0, 25.0, 1e3, 2, 0.05]   # range
EXP = [1.0, 0.001, 0.5, 1.3, 1.5, 1.999, 1]  # exponent
NUG = [0.0, 0.2, 5.0, 1, 1e-6]


def distances(r):
    """Below, at, around and beyond the range."""
    f = [0.0, 1e-12, 1e-6, 0.01, 0.1, 0.25, 1 / 3.0, 0.5, 4 / 7.0, 0.75, 0.9, 1 - 1e-9, 1.0, 1 + 1e-9,
         1.1, 4 / 3.0, 2.0, 3.0, 10.0, 100.0]
    return np.array(f) * float(r)


def params_of(cfg):
    if cfg["model"] == "linear":
        return [cfg["a"], cfg["nug"]]
    if cfg["model"] == "power":
        return [cfg["a"], EXP[cfg["b"]], cfg["nug"]]
    return [cfg["a"], P1[cfg["b"]], cfg["nug"]]


def shape_args(d, form):
    """(argument, the distances in flat order)"""
    if form == "array":
        return d.copy(), d
    if form == "matrix":
        return d.reshape(4, -1).copy(), d
    if form == "cube":
        return d.reshape(2, 2, -1).copy(), d
    if form == "strided":
        return np.repeat(d, 2)[::2], d
    if form == "fortran":
        return np.asfortranarray(d.reshape(4, -1)), d
    if form == "readonly":
        a = d.copy()
        a.flags.writeable = False
        return a, d
    if form == "float32":
        a = d.astype(np.float32)
        return a, a.astype(float)
    if form == "reversed":
        return d[::-1].copy(), d[::-1]
    if form == "row":
        return d[None, :].copy(), d
    if form.startswith("n="):
        a = np.resize(d, int(form[2:]))
        return a.copy(), a
    if form.startswith("m="):
        a = np.resize(d, tuple(int(v) for v in form[2:].split("x")))
        return a.copy(), a.ravel()
    if form == "empty":
        return d[:0].copy(), d[:0]
    if form == "int":
        a = np.arange(12)
        return a, a.astype(float)
    if form == "int32":
        a = np.arange(12, dtype=np.int32).reshape(3, 4)
        return a, a.astype(float).ravel()
    if form == "zero-d":
        return np.array(d[7]), d[7:8]
    raise KeyError(form)


def python(c, cfg):
    from pykrige import variogram_models as vm

    f = getattr(vm, FUNC[cfg["model"]])
    p = params_of(cfg)
    r = p[1] if cfg["model"] != "linear" else 1.0
    if cfg["model"] == "power":
        r = 1.7
    d = distances(r)
    m = {"list": list(p), "tuple": tuple(p), "array": np.array(p, dtype=float), "numpy": [np.float64(v) for v in p]}[cfg["pform"]]
    before = list(m)
    scale = abs(p[0]) * (float(d.max()) ** (p[1] if cfg["model"] == "power" else 1.0) if cfg["model"] in ("linear", "power") else 1.0) + abs(p[-1])
    if cfg["form"] == "scalar":
        got = np.array([float(c.ok("call", lambda: f(m, float(v)))) for v in d])
        flat = d
    elif cfg["form"] == "int scalar":
        flat = np.arange(12.0)
        got = np.array([float(c.ok("call", lambda: f(m, int(v)))) for v in flat])
    else:
        arg, flat = shape_args(d, cfg["form"])
        keep = arg.copy()
        g = c.ok("call", lambda: f(m, arg))
        c.same("distances passed in", arg, keep)
        c.true(np.shape(g) == np.shape(arg), "shape %s for distances of shape %s" % (np.shape(g), np.shape(arg)))
        got = np.asarray(g, dtype=float).ravel()
        if cfg["form"] == "fortran":
            got = np.asarray(g, dtype=float).ravel()
            flat = np.asarray(arg).ravel()
    c.true(list(m) == before, "the parameters were modified")
    want = ref.vario(cfg["model"], p, flat).astype(float)
    eps = 1e-12 if cfg["form"] != "float32" else 1e-5
    tol = eps * (np.abs(want) + scale if cfg["form"] == "float32" else np.abs(want) + (abs(p[0]) if cfg["model"] not in ("linear", "power") else 0)) + 1e-300
    c.close(cfg["model"], got, want, tol)
    c.out(got)
    if cfg["form"] == "array":
        n = float(p[-1])
        c.close("start", got[:1], [n], 1e-300 + 1e-13 * n + (4e-16 * abs(p[0]) if cfg["model"] not in ("linear", "power") else 0))
        # continuity over the kink and at the origin
        if cfg["model"] == "spherical":
            c.close("sill beyond the range", got[d > float(p[1])], np.full((d > float(p[1])).sum(), p[0] + n), 1e-12 * scale)
        if cfg["model"] in ("exponential", "gaussian"):
            i = int(np.flatnonzero(d == float(p[1]))[0])
            c.close("practical range", got[i : i + 1], [p[0] * 0.95 + n], 0.004 * abs(p[0]) + 1e-12 * scale)
        if cfg["model"] not in ("linear", "power"):
            i = int(np.flatnonzero(d == float(p[1]))[0])
            c.close("continuity", got[i - 1 : i + 1], got[i : i + 2], 1e-7 * scale)
        if cfg["model"] not in ("linear", "power"):
            c.close("sill", got[-1:], [p[0] + n], 1e-9 * scale)


def compiled(c, cfg):
    """The right hand side of the C backend, seen through kriging."""
    p = params_of(cfg)
    r = float(p[1]) if cfg["model"] != "linear" else 1.0
    if cfg["model"] == "power":
        r = 1.7
    if float(p[0]) == 0 and float(p[-1]) == 0:
        return c.skip("no variation")
    d = distances(r)
    d = d[(d <= 10 * r) & ((d == 0) | (d > 1e-7 * r))]
    P = np.stack([d, np.zeros(len(d))], axis=1)
    X = np.array([[0.0, 0.0], [1.9 * r, 0.0], [0.0, 0.8 * r], [5 * r, 5 * r]])[: cfg["n"]]
    Z = np.array([1.0, 3.0, -2.0, 0.5])[: cfg["n"]]
    full = list(p)
    if cfg["model"] not in ("linear", "power"):
        full[0] = full[0] + full[2]
    k = c.ok("construct", lambda: lib.make("ok", X, Z, model=cfg["model"], params=full, exact_values=cfg["exact"]))
    kw = {} if cfg["window"] == "all" else dict(n_closest_points=2)
    m = ref.Model(X, Z, cfg["model"], [float(v) for v in k.variogram_model_parameters], exact=cfg["exact"])
    q = m.predict(P, k=kw.get("n_closest_points"))
    cond = np.broadcast_to(np.asarray(q.cond, dtype=float), q.z.shape)
    u = cond < 1e9
    if not u.any():
        return c.skip("ill-conditioned")
    c.impl_runs += 1
    try:
        z, s = lib.run_points(k, P, backend="C", **kw)
    except NotImplementedError:
        c.true(cfg["model"] == "hole-effect", "the C backend rejects a model it had")
        c.count("rejected by the C backend")
        c.out("rejected")
        return
    c.close("estimate", z[u], q.z[u], q.tz[u])
    c.close("variance", s[u], q.ss[u], q.tss[u])
    c.out(z[u], s[u])


def spaces(tier):
    q = tier == "quick"
    core = dict(model=list(FUNC), a=P0, b=list(range(7)), nug=NUG)
    forms = ["array", "scalar", "int scalar", "matrix", "cube", "strided", "fortran", "readonly", "float32", "reversed",
             "row", "empty", "int", "int32", "zero-d"]
    dev = dict(form=forms, pform=["list", "tuple", "array", "numpy"])

    def v(cfg):
        return cfg["model"] != "linear" or cfg["b"] == 0

    def v2(cfg):
        return v(cfg) and (cfg["n"] > 2 or cfg["window"] == "all")

    return [
        Space("python", python, core, dev, bound=1 if q else 2, valid=v),
        Space("sizes", python, dict(core, a=P0[:3], b=[0, 3], nug=NUG[:2], form=["n=%d" % n for n in sizes.TARGETS] + ["m=%s" % v for v in ("1x1", "7x1", "1x65", "255x257", "64x64", "1000x33", "1025x2", "3x5x1001")], pform=["list"]), valid=v),
        Space("compiled", compiled, dict(core, exact=[True, False], n=[2, 3, 4], window=["all", "2"]), {}, valid=v2),
    ]
