"""P07: anisotropy is the documented rotation and stretching."""
import numpy as np

from .. import data, lib, ref
from ..engine import Space
from .p01 import custom, setup

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of angles and scalings, differential against isotropic kriging of transformed coordinates"
ASSUMPTIONS = ["cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)"]

S2 = [1.0, 3.0, 0.4, 2, 0.05, 50.0, 1.04, 0.97, 1.002]
A2 = [0.0, 30.0, -75.0, 45, 90.0, 180.0, 215.0, 270, -30.0, 360.0, 400.0, -330.0, 1e-3, 0.4, 89.5]
S3 = [(1.0, 1.0), (3.0, 1.0), (1.0, 2.5), (0.4, 2), (3, 3.0), (0.05, 20.0), (1.04, 0.97), (1.0, 1.003)]
A3 = [(0.0, 0.0, 0.0), (30.0, 0.0, 0.0), (0.0, 30.0, 0.0), (0.0, 0.0, 30.0), (-75.0, 110.0, 15.0),
      (90, 0.0, 0.0), (0.0, 90.0, 0.0), (0.0, 0.0, 90), (180.0, 270.0, 45.0), (20.0, -40.0, 60.0), (60.0, -40.0, 20.0),
      (375.0, -345.0, 735.0), (0.4, -0.3, 89.5)]


def fn1(*c):
    return 0.3 * c[0] ** 2 - 0.2 * c[-1] * c[0]


def request(c, k, style, backend, P, spec=None):
    dim = P.shape[1]
    kw = dict(backend=backend)
    if style == "points":
        if spec is not None:
            kw["specified_drift_arrays"] = [spec(P)]
        return c.ok("execute", lambda: lib.run_points(k, P, **kw))
    raise KeyError(style)


def build(c, cfg, base, X, Z, kw, sc, an, via, terms, wells, spec):
    """Object with the anisotropy given in the way of `via`."""
    dim = X.shape[1]
    extra = {}
    if base.startswith("uk"):
        extra["drift_terms"] = list(terms)
        if "point_log" in terms:
            extra["point_drift"] = wells
        if "specified" in terms:
            extra["specified_drift"] = [spec]
        if "functional" in terms:
            extra["functional_drift"] = [fn1]
    if via == "init":
        return c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, **kw, **extra))
    if via.startswith("update"):
        s0, a0 = (None, None)
        if via == "update-from":
            s0, a0 = ([2.0] * (dim - 1), [70.0] * (1 if dim == 2 else 3))
        k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=s0, angles=a0, model="linear",
                                               params=[1.0, 0.5], **extra))
        if via == "update-executed":
            P = X[:2] + 0.1
            e = dict(specified_drift_arrays=[P[:, 0] * 0 + 0.5]) if "specified" in terms and base.startswith("uk") else {}
            c.ok("execute", lambda: lib.run_points(k, P, **e))
        u = dict(kw)
        model = u.pop("model")
        if "params" in u:
            u["variogram_parameters"] = u.pop("params")
        u.update(lib.aniso_kwargs(dim, sc, an))
        c.ok("update", lambda: k.update_variogram_model(model, **u))
        return k
    if via == "sklearn":
        from pykrige.compat import Krige

        method = {"ok": "ordinary", "uk": "universal", "ok3": "ordinary3d", "uk3": "universal3d"}[base]
        a = lib.aniso_kwargs(dim, sc, an)
        if dim == 3:
            a = dict(anisotropy_scaling=(a["anisotropy_scaling_y"], a["anisotropy_scaling_z"]),
                     anisotropy_angle=(a["anisotropy_angle_x"], a["anisotropy_angle_y"], a["anisotropy_angle_z"]))
        u = dict(kw)
        u["variogram_model"] = u.pop("model")
        if "params" in u:
            u["variogram_parameters"] = u.pop("params")
        if "nlags" not in u:
            u["nlags"] = 6
        if "weight" not in u:
            u["weight"] = False
        kr = Krige(method=method, **u, **a, **{k: v for k, v in extra.items()})
        c.ok("fit", lambda: kr.fit(X, Z))
        return kr.model
    raise KeyError(via)


def case(c, cfg):
    base = cfg["cls"]
    dim = lib.dim_of(base)
    X = data.coords(cfg["data"], dim)
    Z = data.values("v", len(X))
    kw, (rm, rp) = setup(cfg["model"], "nug" if cfg["params"] == "auto" else cfg["params"], X)
    if cfg["params"] == "auto":
        kw.pop("params")
    kw["nlags"] = cfg["nlags"]
    sc = [cfg["scaling"]] if dim == 2 else list(cfg["scaling"])
    an = [cfg["angle"]] if dim == 2 else list(cfg["angle"])
    sc, an = sc[: dim - 1], an[: 1 if dim == 2 else 3]
    P = data.targets(X, cfg["targets"])
    # the reference transforms the coordinates itself
    m = ref.Model(X, Z, "linear", [1.0, 0.0], sc, an)
    XA, PA = np.asarray(m.XA, dtype=float), np.asarray(m.to_iso(P), dtype=float)
    terms = [t for t in cfg["terms"].split("+") if t] if base.startswith("uk") else []
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    W = np.array([[0.31, 0.62, 1.5], [0.83, 0.21, -0.7]])
    W[:, :2] = lo[:2] + W[:, :2] * w[:2]
    WA = W.copy()
    WA[:, :2] = np.asarray(m.to_iso(W[:, :2]), dtype=float) if dim == 2 else W[:, :2]
    spec_fn = lambda Q: np.cos(Q[:, 0]) + 0.1 * Q[:, -1] ** 2
    sx, sp = spec_fn(X), spec_fn(P)
    k = build(c, cfg, base, X, Z, kw, sc, an, cfg["via"], terms, W, sx)
    style, backend = cfg["request"].split("-")
    ex = dict(specified_drift_arrays=[sp]) if "specified" in terms else {}
    nw = {} if cfg["window"] == "all" else dict(n_closest_points=4)
    if style == "points":
        z, s = c.ok("execute", lambda: lib.run_points(k, P, backend=backend, **ex, **nw))
        z, s = np.asarray(z), np.asarray(s)
        Q = P
    else:
        axes = [P[: 4 - i, i].copy() for i in range(dim)]
        Q, shape = lib.grid_points(axes)
        if ex:
            ex = dict(specified_drift_arrays=[spec_fn(Q).reshape(shape)])
            sp = spec_fn(Q)
        if style == "masked":
            ex = dict(ex, mask=np.zeros(shape, bool))
        z, s = c.ok("execute", lambda: k.execute(style, *axes, backend=backend, **ex, **nw))
        z, s = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
        PA = np.asarray(m.to_iso(Q), dtype=float)
    iso = build(c, cfg, base, XA, Z, kw, None, None, "init", terms, WA, sx)
    ex2 = dict(specified_drift_arrays=[sp]) if "specified" in terms else {}
    z0, s0 = c.ok("execute", lambda: lib.run_points(iso, PA, backend="loop" if nw else "vectorized", **ex2, **nw))
    p = [float(v) for v in iso.variogram_model_parameters]
    R = []
    if "regional_linear" in terms:
        R += [lambda O, A, i=i: A[:, i] for i in range(dim)]
    if "point_log" in terms:
        for wl in WA:
            R.append(lambda O, A, wl=wl: -wl[2] * np.log(np.sqrt((A[:, 0] - wl[0]) ** 2 + (A[:, 1] - wl[1]) ** 2)))
    if "specified" in terms:
        R.append(lambda O, A: sx if len(O) == len(X) and np.allclose(np.asarray(O, float), XA) else sp)
    if "functional" in terms:
        R.append(lambda O, A: fn1(*[A[:, i] for i in range(dim)]))
    model = ref.Model(XA, Z, custom if cfg["model"] == "custom" else cfg["model"], p, drifts=R)
    try:
        r = model.predict(PA, k=4 if nw else None)
    except np.linalg.LinAlgError:
        return c.skip("ill-conditioned")
    cond = np.broadcast_to(np.asarray(r.cond, dtype=float), r.z.shape)
    u = cond < 1e11
    auto = cfg["params"] == "auto"
    if auto:
        # the optimizer may amplify rounding: compare what it fits instead
        c.close("lags", k.lags, iso.lags, 1e-9 * np.abs(iso.lags).max())
        c.close("semivariance", k.semivariance, iso.semivariance, 1e-9 * np.abs(iso.semivariance).max())
        q = np.asarray(k.variogram_model_parameters, dtype=float)
        cost = [float(np.sum(2 * (np.sqrt(1 + (ref.vario(cfg["model"], v, iso.lags).astype(float)
                                               - iso.semivariance) ** 2) - 1))) for v in (q, p)]
        c.close("misfit of the variogram", max(cost), cost[1], 0.1 * cost[1] + 1e-9)
        # predictions with the parameters in use
        model = ref.Model(XA, Z, cfg["model"], list(q), drifts=R)
        r = model.predict(PA, k=4 if nw else None)
        cond = np.broadcast_to(np.asarray(r.cond, dtype=float), r.z.shape)
        u = cond < 1e11
        z0, s0 = r.z, r.ss
    else:
        c.close("lags", k.lags, iso.lags, 1e-9 * np.abs(iso.lags).max())
        c.close("semivariance", k.semivariance, iso.semivariance, 1e-9 * np.abs(iso.semivariance).max())
    if not u.any():
        return c.skip("ill-conditioned")
    c.close("estimate", z[u], np.asarray(z0)[u], 2 * r.tz[u])
    c.close("variance", s[u], np.asarray(s0)[u], 2 * r.tss[u])
    if dim == 2 and sc == [1.0] and not auto:
        plain = build(c, cfg, base, X, Z, kw, None, None, "init", terms, W, sx)
        T = P if style == "points" else Q
        e3 = dict(specified_drift_arrays=[spec_fn(T)]) if "specified" in terms else {}
        z3, s3 = c.ok("execute", lambda: lib.run_points(plain, T, backend="loop" if nw else "vectorized", **e3, **nw))
        if "functional" not in terms:  # a function of rotated coordinates differs
            c.close("scaling of one: estimate", z[u], np.asarray(z3)[u], 3 * r.tz[u])
            c.close("scaling of one: variance", s[u], np.asarray(s3)[u], 3 * r.tss[u])
    c.out(z[u], s[u])


def valid(cfg):
    uk = cfg["cls"].startswith("uk")
    if not uk and cfg["terms"] != "regional_linear":
        return False
    if cfg["cls"] == "uk3" and "point_log" in cfg["terms"]:
        return False
    if uk and cfg["window"] != "all":
        return False
    if cfg["window"] != "all" and cfg["request"].endswith("vectorized"):
        return False
    if cfg["request"].endswith("-C") and cfg["cls"] != "ok":
        return False
    if cfg["model"] == "custom" and (cfg["params"] == "auto" or cfg["via"] == "sklearn"):
        return False
    if cfg["via"] == "sklearn" and uk and cfg["terms"] != "regional_linear":
        return False
    if cfg["data"] == "reg9":
        return False
    # coincidence in a rotated frame depends on rounding at large offsets
    if cfg["data"] == "utm7" and cfg["targets"] in ("mixed", "data", "dups"):
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    dev = dict(
        via=["init", "update", "update-from", "update-executed", "sklearn"],
        request=["points-vectorized", "points-loop", "grid-vectorized", "grid-loop", "masked-loop", "masked-vectorized"],
        window=["all", "4"],
        model=["exponential", "linear", "spherical", "power", "gaussian", "hole-effect", "custom"],
        params=["nug", "nonug", "auto"],
        data=["n7", "n12", "n40", "off7", "utm7", "neg7", "flat30", "k33", "k65"],
        targets=["mixed", "mid", "far", "near", "dups"],
        terms=["regional_linear", "", "point_log", "specified", "functional",
               "regional_linear+point_log+specified+functional"],
        nlags=[6, 3, 11],
    )
    c2 = dict(cls=["ok", "uk"], scaling=S2, angle=A2)
    c3 = dict(cls=["ok3", "uk3"], scaling=S3, angle=A3)
    small = dict(scaling=[3.0, 0.4], angle=[30.0, -75.0])
    small3 = dict(scaling=[(3.0, 1.0), (0.4, 2)], angle=[(30.0, 0.0, 0.0), (20.0, -40.0, 60.0)])
    return [
        Space("2d", case, c2, dev, bound=1 if q else 2, valid=valid),
        Space("3d", case, c3, dev, bound=1 if q else 2, valid=valid),
        Space("2d-pairs", case, dict(c2, **small), dev, bound=2 if q else 3, valid=valid),
        Space("3d-pairs", case, dict(c3, **small3), dev, bound=2 if q else 3, valid=valid),
    ]
