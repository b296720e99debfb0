"""P20: the sklearn wrapper equals direct kriging."""
import copy
import pickle

import numpy as np

from .. import data, lib, objects as ob, sizes
from ..drifts import Drift
from ..engine import Search, Space
from .p01 import custom
from .p02 import terms

NEEDS_EXT = True
LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of estimator histories (set_params, fit, predict, clone, copy, pickle) and exhaustive exploration of wrapper settings, against directly constructed kriging objects"
ASSUMPTIONS = [
    "after set_params without a new fit the predictions are those of the last fit; n_closest_points may or may not take effect before the next fit",
    "estimator states are merged by a digest of all attributes",
]
METHODS = {"ordinary": "ok", "geographic": "ok", "universal": "uk", "ordinary3d": "ok3", "universal3d": "uk3"}
EXP = (2.0, 3.0, 0.25)


def equal(a, b):
    """Equality of parameters, which may hold arrays."""
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        return np.shape(a) == np.shape(b) and all(equal(p, q) for p, q in zip(a, b)) if np.ndim(a) else bool(np.all(a == b))
    return bool(a == b)


def points(method, name):
    dim = lib.dim_of(METHODS[method])
    if name in "YS":  # the points of A with other values, its values at other points
        return other(*points(method, "A"), name)
    if name[0] == "k":
        X = data.coords(name, dim) * 0.3
    else:
        X = {"A": data.coords("n12", dim), "B": data.coords("n40", dim)[:17], "C": data.coords("n40", dim)[20:31]}[name]
    if method == "geographic":
        lo, w = X.min(axis=0), np.ptp(X, axis=0)
        X = (X - lo) / w * np.array([320.0, 130.0]) + np.array([10.0, -60.0])
    return np.ascontiguousarray(X), data.values("v", len(X)) + (0.5 if name == "B" else 0.0)


def other(X, y, what):
    """Other values at the same points, or the same values at other points."""
    if what == "Y":
        return X.copy(), y[::-1] ** 2 / (1 + np.abs(y).max()) + np.cos(np.arange(len(y)))
    s = np.ptp(X, axis=0) / 11
    return X + s * np.sin(1 + np.arange(X.size).reshape(X.shape)), y.copy()


def refits(via, X, y, fit):
    """An earlier fit at the same points, or of the same values, or with arrays that are used again."""
    if via == "refit-arrays":
        Xa, ya = other(*other(X, y, "S"), "Y")
        fit(Xa, ya)
        Xa[...], ya[...] = X, y
        return Xa, ya
    fit(*other(X, y, {"refit-values": "Y", "refit-points": "S"}[via]))
    return X.copy(), y.copy()


def queries(method, X):
    P = data.targets(X, "mixed")
    if len(X) > 40:  # also many of them
        U = sizes.kron(int(sum(map(ord, method))) % 7 + 254, X.shape[1], 0.2)
        P = np.concatenate([P, X.min(axis=0) + np.ptp(X, axis=0) * U])
    return P


def params(model, form):
    if form == "auto" and model != "custom":
        return None
    if model == "linear":
        return [0.6, 0.2] if form != "dict" else dict(slope=0.6, nugget=0.2)
    if model == "power":
        return [0.6, 1.3, 0.2] if form != "dict" else dict(scale=0.6, exponent=1.3, nugget=0.2)
    if model == "custom":
        return [1.5, 2.0, 0.4, 0.2]
    if form == "dict":
        return dict(psill=1.6, range=3.0, nugget=0.3)
    if form == "sill":
        return dict(sill=1.9, range=3.0, nugget=0.3)
    return [1.9, 3.0, 0.3]


def gst(method):
    import gstools as gs

    if method == "geographic":
        return gs.Exponential(latlon=True, var=1.3, len_scale=0.9, nugget=0.15)
    dim = lib.dim_of(METHODS[method])
    return gs.Exponential(dim=dim, var=1.3, len_scale=2.1, anis=[0.5] * (dim - 1), angles=[0.4] if dim == 2 else [0.4, 0.2, -0.3], nugget=0.15)


def drift_of(method, t, X, P):
    """(wrapper keywords, class keywords) of the drift terms."""
    if not method.startswith("universal") or t == "":
        return {}, {}
    d = Drift(X.shape[1], terms(t), X, P).kw
    w = {}
    if "drift_terms" in d:
        w["drift_terms"] = d["drift_terms"]
    if "point_drift" in d:
        w["point_drift"] = d["point_drift"]
    if "functional_drift" in d:
        w["functional_drift"] = d["functional_drift"]
    if "external_drift" in d:
        w["ext_drift_grid"] = (d["external_drift"], d["external_drift_x"], d["external_drift_y"])
    return w, dict(d)


def pair(cfg, X, P):
    """Keywords of the wrapper and of the class for one configuration."""
    method = cfg["method"]
    base = METHODS[method]
    dim = lib.dim_of(base)
    w = dict(method="ordinary" if method == "geographic" else method)
    d = {}
    if method == "geographic":
        w["coordinates_type"] = d["coordinates_type"] = "geographic"
    if cfg["model"] == "gstools":
        w["variogram_model"] = d["variogram_model"] = gst(method)
    else:
        w["variogram_model"] = d["variogram_model"] = cfg["model"]
        p = params(cfg["model"], cfg["params"])
        if p is not None:
            w["variogram_parameters"] = d["variogram_parameters"] = p
        if cfg["model"] == "custom":
            w["variogram_function"] = d["variogram_function"] = custom
    for key, wk in (("nlags", "nlags"), ("weight", "weight"), ("exact", "exact_values")):
        if cfg[key] != "-":
            w[wk] = d[wk] = cfg[key]
    if cfg["pinv"] != "off":
        w.update(pseudo_inv=True, pseudo_inv_type=cfg["pinv"])
        d.update(pseudo_inv=True, pseudo_inv_type=cfg["pinv"])
    if cfg["verbose"]:
        w["verbose"] = d["verbose"] = True
    if cfg["stats"] and base == "ok":
        w["enable_statistics"] = d["enable_statistics"] = True
    sc, an = cfg["scaling"], cfg["angle"]
    if sc != "-":
        w["anisotropy_scaling"] = sc
        if base in ("ok", "uk"):
            d["anisotropy_scaling"] = sc[0] if isinstance(sc, tuple) else sc
        else:
            d["anisotropy_scaling_y"], d["anisotropy_scaling_z"] = sc
    if an != "-":
        w["anisotropy_angle"] = an
        if base in ("ok", "uk"):
            d["anisotropy_angle"] = an[0] if isinstance(an, tuple) else an
        else:
            d["anisotropy_angle_x"], d["anisotropy_angle_y"], d["anisotropy_angle_z"] = an
    dw, dd = drift_of(method, cfg["terms"], X, P)
    w.update(dw)
    d.update(dd)
    if cfg["closest"] != "-":
        w["n_closest_points"] = cfg["closest"]
    return w, d


def direct(method, kw, X, y, P, closest=10, backend="loop"):
    base = METHODS[method]
    k = lib.classes()[base](*[X[:, i].copy() for i in range(X.shape[1])], y.copy(), **kw)
    rk = dict(backend=backend)
    if base in ("ok", "ok3"):
        rk["n_closest_points"] = closest
    return lib.run_points(k, P, **rk)


def case(c, cfg):
    from sklearn.base import clone

    from pykrige.compat import Krige

    method = cfg["method"]
    X, y = points(method, cfg["data"])
    P = queries(method, X)
    w, d = pair(cfg, X, np.concatenate([P, X, points(method, "B")[0], other(X, y, "S")[0]]))
    via = cfg["via"]
    if via == "set_params":
        est = Krige()
        c.ok("set_params", lambda: est.set_params(**w))
    elif via == "clone":
        est = c.ok("clone", lambda: clone(Krige(**w)))
    elif via == "clone-fitted":
        o = Krige(**w)
        c.ok("fit", lambda: o.fit(*points(method, "B")))
        est = c.ok("clone", lambda: clone(o))
        c.raises("prediction of a clone that was not fitted", lambda: est.predict(P), Exception)
    elif via == "refit":
        est = Krige(**w)
        c.ok("first fit", lambda: est.fit(*points(method, "B")))
        c.ok("predict", lambda: est.predict(P[:2]))
    elif via == "pickle":
        if cfg["terms"] not in ("", "rl1", "pl1", "ez1") or cfg["model"] == "custom":
            return c.skip("not picklable")
        est = pickle.loads(pickle.dumps(Krige(**w)))
    elif via == "deepcopy":
        est = copy.deepcopy(Krige(**w))
    else:
        est = Krige(**w)
    Xa, ya, Pa = X.copy(), y.copy(), P.copy()
    if via.startswith("refit-"):
        def first(A, b):
            c.ok("first fit", lambda: est.fit(A, b))
            c.ok("predict", lambda: est.predict(Pa))

        Xa, ya = refits(via, X, y, first)
    frozen = copy.deepcopy({k: v for k, v in w.items() if isinstance(v, (list, dict, tuple, np.ndarray)) and k != "functional_drift"})
    for k, v in est.get_params().items():
        if k in w:
            c.true(v is w[k] or via in ("pickle", "deepcopy", "clone", "clone-fitted") or equal(v, w[k]), "parameter %s is %r" % (k, v))
    closest = 10 if cfg["closest"] == "-" else cfg["closest"]
    backend = cfg["backend"]
    ordinary = METHODS[method] in ("ok", "ok3")
    if ordinary and closest is not None and closest > len(X):
        # as with the class, a window larger than the data is refused
        c.ok("fit", lambda: est.fit(Xa, ya))
        c.raises("window larger than the data (class)", lambda: direct(method, d, X, y, P, closest), ValueError)
        c.raises("window larger than the data (predict)", lambda: est.predict(Pa), ValueError)
        c.raises("window larger than the data (execute)", lambda: est.execute({n + "points": P[:, i].copy() for i, n in enumerate(["x", "y", "z"][: X.shape[1]])}), ValueError)
        c.count("window larger than the data")
        return
    if backend == "vectorized" and ordinary and closest is not None:
        c.ok("fit", lambda: est.fit(Xa, ya))
        c.raises("vectorized moving window", lambda: est.predict(Pa, backend="vectorized"), ValueError)
        return
    c.ok("fit", lambda: est.fit(Xa, ya))
    pk = {} if backend == "-" else dict(backend=backend)
    z = c.ok("predict", lambda: est.predict(Pa, **pk))
    wz, ws = direct(method, d, X, y, P, closest, "loop" if backend == "-" else backend)
    t = 1e-9 * (1 + np.abs(wz).max())
    c.close("predict", z, wz, t)
    one = c.ok("predict for one point", lambda: est.predict(P[-1:].copy(), **pk))
    c.true(np.shape(z) == (len(P),) and np.shape(one) == (1,), "shapes %s and %s (one point)" % (np.shape(z), np.shape(one)))
    c.close("predict for one point", np.ravel(one), wz[-1:], t)
    names = ["x", "y", "z"][: X.shape[1]]
    q = {n + "points": P[:, i].copy() for i, n in enumerate(names)}
    ez, es = c.ok("execute", lambda: est.execute(q, **pk))
    c.close("execute", ez, wz, t)
    c.close("variance", es, ws, 1e-9 * (1 + np.abs(ws).max()))
    c.true(sorted(q) == sorted(n + "points" for n in names), "execute changes its argument: %s" % sorted(q))
    c.same("fit changes its points", Xa, X)
    c.same("fit changes its values", ya, y)
    c.same("predict changes its points", Pa, P)
    after = {k: w[k] for k in frozen}
    c.true(repr(after) == repr(frozen), "a parameter was changed: %s" % (after,))
    if hasattr(est, "score"):
        u = 1 - ((y - c.ok("predict", lambda: est.predict(X, **pk))) ** 2).sum() / ((y - y.mean()) ** 2).sum()
        if not pk:
            c.close("score", est.score(X, y), u, 1e-9 * (1 + abs(u)))
    c.out(z, es)


def valid(g):
    base = METHODS[g["method"]]
    dim = lib.dim_of(base)
    if g["backend"] == "C" and (base != "ok" or g["model"] in ("custom", "hole-effect", "gstools")):
        return False
    if not base.startswith("uk") and g["terms"] != "":
        return False
    if g["closest"] in (12, 13, 50) and g["via"].startswith("refit"):
        return False  # the earlier fits have other numbers of points
    if base == "uk3" and ("pl" in g["terms"] or "ez" in g["terms"]):
        return False
    for key in ("scaling", "angle"):
        v = g[key]
        need = (dim - 1 if key == "scaling" else 2 * dim - 3)
        if v != "-" and (dim == 3 and (not isinstance(v, tuple) or len(v) < need or len(v) > need)):
            return False
        if v != "-" and g["method"] == "geographic":
            return False
        if v != "-" and g["model"] == "gstools":
            return False
    if g["model"] == "gstools" and g["params"] != "list":
        return False
    if g["params"] == "sill" and g["model"] not in ("gaussian", "spherical", "exponential", "hole-effect"):
        return False
    return True


# --------------------------------------------------------------------------
# histories

CHANGES = {
    "model": dict(variogram_model="exponential", variogram_parameters=[1.9, 3.0, 0.3]),
    "linear": dict(variogram_model="linear", variogram_parameters=None),
    "closest": dict(n_closest_points=5),
    "smooth": dict(exact_values=False),
    "aniso": dict(anisotropy_scaling=(2.0, 0.6), anisotropy_angle=(40.0417, 10.0, -30.266)),
    "other": None,  # the other method of the same dimension
}
OTHER = {"ordinary": "universal", "universal": "ordinary", "ordinary3d": "universal3d", "universal3d": "ordinary3d"}


def class_kw(p):
    """The class keywords of wrapper parameters."""
    d = {k: p[k] for k in ("variogram_model", "variogram_parameters", "exact_values") if k in p}
    sc, an = p.get("anisotropy_scaling", (1.0, 1.0)), p.get("anisotropy_angle", (0.0, 0.0, 0.0))
    if p["method"].endswith("3d"):
        d.update(anisotropy_scaling_y=sc[0], anisotropy_scaling_z=sc[1], anisotropy_angle_x=an[0], anisotropy_angle_y=an[1], anisotropy_angle_z=an[2])
    else:
        d.update(anisotropy_scaling=sc[0], anisotropy_angle=an[0])
    return d


def ops_of(method):
    return ["set:" + k for k in CHANGES] + ["fit:A", "fit:B", "fit:Y", "fit:S", "fit:bad", "predict", "predict:bad", "clone", "deepcopy", "pickle"]


_WANT = {}


def runner(method):
    def run(c, hist):
        from sklearn.base import clone

        from pykrige.compat import Krige

        p = dict(method=method)
        est = Krige(**p)
        fitted = None  # (parameters, data) of the last fit
        unknown = False  # a failed fit says nothing about the model it leaves
        for op in hist:
            kind, _, arg = op.partition(":")
            if kind == "set":
                ch = CHANGES[arg] or dict(method=OTHER[p["method"]])
                p.update(ch)
                r = c.ok(op, lambda: est.set_params(**ch))
            elif kind == "fit":
                X, y = points(p["method"], "A" if arg == "bad" else arg)
                if arg == "bad":
                    c.raises("fit with a wrong number of columns", lambda: est.fit(np.concatenate([X, X], axis=1), y), ValueError)
                    unknown = True
                else:
                    c.ok(op, lambda: est.fit(X.copy(), y.copy()))
                    fitted, unknown = (dict(p), arg), False
            elif kind == "predict":
                P = queries(p["method"], points(p["method"], "A")[0])
                if arg == "bad":
                    c.raises("prediction with a wrong number of columns", lambda: est.predict(np.concatenate([P, P], axis=1)), Exception)
                elif fitted and fitted[0]["method"] == p["method"]:
                    c.ok(op, lambda: est.predict(P))
            elif kind == "clone":
                est = clone(est)
                fitted, unknown = None, False
            elif kind == "deepcopy":
                est = copy.deepcopy(est)
            elif kind == "pickle":
                est = pickle.loads(pickle.dumps(est))
        for k, v in p.items():
            c.true(est.get_params()[k] == v, "parameter %s is %r instead of %r" % (k, est.get_params()[k], v))
        state = ob.digest(est)
        P = queries(p["method"], points(p["method"], "A")[0])
        if fitted is None and not unknown:
            c.raises("prediction without a fit", lambda: est.predict(P), Exception)
        elif fitted and not unknown and fitted[0]["method"] == p["method"]:
            X, y = points(p["method"], fitted[1])
            n1, n2 = fitted[0].get("n_closest_points", 10), p.get("n_closest_points", 10)
            want = []
            for n in {n1, n2}:
                key = (repr(sorted(fitted[0].items(), key=str)), fitted[1], n)
                if key not in _WANT:
                    _WANT[key] = direct(fitted[0]["method"], class_kw(fitted[0]), X, y, P, n)[0]
                want.append(_WANT[key])
            z = c.ok("predict", lambda: est.predict(P))
            good = [z.shape == w.shape and np.abs(z - w).max() <= 1e-9 * (1 + np.abs(w).max()) for w in want]
            c.true(any(good), "predictions %s instead of %s" % (z, want[0]))
            c.out(z)
        return state

    return run


def search_grid(c, cfg):
    """Scores of a grid search equal those of directly constructed objects."""
    from sklearn.model_selection import GridSearchCV, KFold
    from sklearn.metrics import r2_score

    from pykrige.compat import Krige

    method = cfg["method"]
    X, y = points(method, "B")
    X, y = np.concatenate([X, points(method, "A")[0] + 0.17]), np.concatenate([y, points(method, "A")[1]])
    grid = {
        "models": dict(variogram_model=["linear", "spherical", "power"]),
        "closest": dict(n_closest_points=[3, 6, None], variogram_model=["exponential"]),
        "params": dict(variogram_model=["exponential"], variogram_parameters=[[1.9, 3.0, 0.3], [4.0, 5.0, 0.0], None]),
        "aniso": dict(anisotropy_scaling=[(1.0, 1.0), (3.0, 0.5)], anisotropy_angle=[(0.0, 0.0, 0.0), (30.0, 20.0, 10.0)]),
        "flags": dict(weight=[False, True], nlags=[4, 8], exact_values=[True, False]),
        "methods": dict(method=[method, OTHER[method]], variogram_model=["linear"]),
    }[cfg["grid"]]
    cv = KFold(cfg["folds"])
    gs = GridSearchCV(Krige(method=method), grid, cv=cv, refit=cfg["refit"], error_score="raise")
    c.ok("grid search", lambda: gs.fit(X, y))
    for i, p in enumerate(gs.cv_results_["params"]):
        q = dict(method=method)
        q.update(p)
        kw = class_kw(q)
        for key in ("weight", "nlags"):
            if key in q:
                kw[key] = q[key]
        for f, (tr, te) in enumerate(cv.split(X)):
            z, _ = direct(q["method"], kw, X[tr], y[tr], X[te], q.get("n_closest_points", 10))
            s = r2_score(y[te], z)
            c.close("score of %s, fold %d" % (p, f), gs.cv_results_["split%d_test_score" % f][i], s, 1e-7 * (1 + abs(s)))
    if cfg["refit"]:
        b = gs.cv_results_["params"][gs.best_index_]
        q = dict(method=method)
        q.update(b)
        kw = class_kw(q)
        for key in ("weight", "nlags"):
            if key in q:
                kw[key] = q[key]
        P = queries(method, X)
        z, _ = direct(q["method"], kw, X, y, P, q.get("n_closest_points", 10))
        c.close("prediction of the best estimator", gs.predict(P), z, 1e-8 * (1 + np.abs(z).max()))
    c.out(np.array([gs.cv_results_["mean_test_score"]]))


def rejected(c, cfg):
    from pykrige.compat import Krige

    method = cfg["method"]
    X, y = points(method, "A")
    what = cfg["what"]
    if what == "unknown method":
        for m in ("krige", "", None, "Ordinary", "ordinary2d", "universal2d", 3):
            c.raises("method %r" % (m,), lambda: Krige(method=m), (ValueError, TypeError))
        return
    k = Krige(method=method)
    if what == "unfitted":
        c.raises("predict", lambda: k.predict(X), Exception)
        return
    wrong = [X[:, :1], np.concatenate([X, X[:, :1]], axis=1), np.concatenate([X, X], axis=1)]
    for W in wrong:
        if what == "fit":
            c.raises("fit with %d columns" % W.shape[1], lambda: k.fit(W, y), ValueError)
            c.raises("predict afterwards", lambda: k.predict(X), Exception)
        else:
            c.ok("fit", lambda: k.fit(X, y))
            z = c.ok("predict", lambda: k.predict(X[:3] + 0.1))
            c.raises("predict with %d columns" % W.shape[1], lambda: k.predict(W), ValueError)
            c.same("predict afterwards", c.ok("predict", lambda: k.predict(X[:3] + 0.1)), z)


def searches(tier):
    q = tier == "quick"
    return [Search(m, ops_of(m), runner(m), depth=3 if q else 6) for m in OTHER]


def spaces(tier):
    q = tier == "quick"
    core = dict(method=list(METHODS), model=["linear", "power", "gaussian", "spherical", "exponential", "hole-effect", "custom", "gstools"],
                via=["init", "set_params", "clone", "clone-fitted", "refit", "refit-values", "refit-points", "refit-arrays", "pickle", "deepcopy"])
    dev = dict(
        params=["list", "dict", "sill", "auto"],
        data=["A", "B", "C", "k33", "k65"],
        nlags=["-", 4, 9],
        weight=["-", True],
        closest=["-", None, 4, 11, 12, 13, 50],
        exact=["-", True, False],
        pinv=["off", "pinv", "pinvh"],
        scaling=["-", 2.5, (2.5,), (2.5, 0.6), (0.4, 1.7)],
        angle=["-", 35.0, (35.0,), (35.0, 0.0, 0.0), (35.3718, -20.0649, 60.128)],
        stats=[False, True],
        verbose=[False, True],
        terms=["", "rl1", "pl1", "ez1", "fn1", "fn2", "rl1+fn1", "rl1+pl1+ez1+fn1"],
        backend=["-", "loop", "C", "vectorized"],
    )
    return [
        Space("settings", case, core, dev, bound=1 if q else 2, valid=valid),
        Space("pairs", case, dict(core, via=["init", "set_params"], model=["exponential"]), dev, bound=2 if q else 3, valid=valid),
        Space("grid search", search_grid, dict(method=list(OTHER), grid=["models", "closest", "params", "aniso", "flags", "methods"],
                                               folds=[2, 4] if q else [2, 3, 4, 5], refit=[True, False])),
        Space("rejected", rejected, dict(method=list(OTHER), what=["unknown method", "unfitted", "fit", "predict"])),
    ]
