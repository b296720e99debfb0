"""P21: regression kriging adds regression and kriged residuals."""
import copy

import numpy as np

from .. import data, lib, objects as ob
from ..engine import Search, Space
from .p20 import METHODS, OTHER, class_kw, direct, other, pair, points, queries, refits, valid as valid20

NEEDS_EXT = True
LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of fit/predict histories over several objects and exhaustive exploration of settings, against separately fitted regression models and directly constructed kriging objects"
ASSUMPTIONS = [
    "regression models are deterministic for the given data and random_state",
    "object states are merged by a digest of all attributes",
]


def regression(name):
    from sklearn.dummy import DummyRegressor
    from sklearn.ensemble import RandomForestRegressor
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.neighbors import KNeighborsRegressor
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVR
    from sklearn.tree import DecisionTreeRegressor

    return {
        "default": lambda: None,
        "linear": LinearRegression,
        "ridge": lambda: Ridge(alpha=3.0),
        "svr": lambda: SVR(C=5.0),
        "tree": lambda: DecisionTreeRegressor(max_depth=2, random_state=0),
        "full tree": lambda: DecisionTreeRegressor(random_state=0),
        "neighbours": lambda: KNeighborsRegressor(3),
        "mean": DummyRegressor,
        "forest": lambda: RandomForestRegressor(n_estimators=4, random_state=1),
    }[name]()


def same_model(name):
    from sklearn.svm import SVR

    m = regression(name)
    return SVR() if m is None else m


def predictors(X, y, d):
    """(n, d) predictor variables."""
    f = [np.sin(X[:, 0]) + 0.3 * X[:, 1], X[:, 1] ** 2 / 10, np.cos(X.sum(axis=1)), X[:, 0] - X[:, 1]]
    return np.stack(f[:d], axis=1)


def case(c, cfg):
    from pykrige.rk import RegressionKriging

    method = cfg["method"]
    X, y = points(method, cfg["data"])
    y = y + 0.8 * X[:, 0] / np.ptp(X[:, 0])
    P = queries(method, X)
    p, q = predictors(X, y, cfg["d"]), predictors(P, None, cfg["d"])
    w, d = pair(cfg, X, np.concatenate([P, X, points(method, "B")[0], other(X, y, "S")[0]]))
    closest = 10 if cfg["closest"] == "-" else cfg["closest"]
    ordinary = METHODS[method] in ("ok", "ok3")
    if ordinary and closest is not None and closest > len(X):
        return c.skip("too few points")
    if cfg["backend"] == "vectorized" and ordinary and closest is not None:
        return c.skip("vectorized moving window")
    if cfg["via"] == "defaults":
        if len(w) > 2:
            return c.skip("not the defaults")
    m = same_model(cfg["regression"]).fit(p, y)
    res = y - m.predict(p)
    if np.ptp(res) <= 1e-9 and "variogram_parameters" not in d and cfg["model"] != "gstools":
        return c.skip("residuals vanish")  # no variogram can be fitted automatically to constant data
    r = c.ok("construct", lambda: RegressionKriging(regression_model=regression(cfg["regression"]), **w))
    if cfg["via"] == "refit":
        XB, yB = points(method, "B")
        c.ok("first fit", lambda: r.fit(predictors(XB, yB, cfg["d"]), XB, yB))
    A = (X.copy(), y.copy())
    if cfg["via"].startswith("refit-"):
        A = refits(cfg["via"], X, y, lambda X, y: c.ok("first fit", lambda: r.fit(predictors(X, y, cfg["d"]), X, y)))
    if cfg["via"] == "deepcopy":
        r = copy.deepcopy(r)
    args = [p.copy(), *A]
    c.ok("fit", lambda: r.fit(*args))
    for name, a, b in zip(("predictors", "points", "targets"), args, (p, X, y)):
        c.same("fit changes its %s" % name, a, b)
    pk = {} if cfg["backend"] == "-" else dict(backend=cfg["backend"])
    be = "loop" if cfg["backend"] == "-" else cfg["backend"]
    kz, _ = direct(method, d, X, res, P, closest, be)
    t = 1e-8 * (1 + np.abs(y).max())
    args = [q.copy(), P.copy()]
    z = c.ok("predict", lambda: r.predict(*args, **pk))
    c.same("predict changes its predictors", args[0], q)
    c.same("predict changes its points", args[1], P)
    c.close("predict", z, m.predict(q) + kz, t)
    c.close("krige_residual", c.ok("krige_residual", lambda: r.krige_residual(P.copy(), **pk)), kz, t)
    one = c.ok("predict for one point", lambda: r.predict(q[-1:], P[-1:].copy(), **pk))
    c.true(np.shape(z) == (len(P),) and np.shape(one) == (1,), "shapes %s and %s (one point)" % (np.shape(z), np.shape(one)))
    c.close("predict for one point", np.ravel(one), np.ravel(z)[-1:], t)
    one = c.ok("residual for one point", lambda: r.krige_residual(P[-1:].copy(), **pk))
    c.true(np.shape(one) == (1,), "residual for one point of shape %s" % (np.shape(one),))
    c.close("residual for one point", np.ravel(one), kz[-1:], t)
    tz, _ = direct(method, d, X, res, X, closest, be)
    tr = m.predict(p) + tz
    c.close("predict at the data", c.ok("predict", lambda: r.predict(p, X, **pk)), tr, t)
    if cfg["exact"] != False and cfg["pinv"] == "off":  # noqa: E712
        c.close("training targets", r.predict(p, X, **pk), y, 1e-6 * (1 + np.abs(y).max()))
    for sw in (None, 1.0 + (np.arange(len(y)) % 3)):
        g = tr if sw is None else tr
        ww = np.ones(len(y)) if sw is None else sw
        mu = (ww * y).sum() / ww.sum()
        s = 1 - (ww * (y - g) ** 2).sum() / (ww * (y - mu) ** 2).sum()
        c.close("score", c.ok("score", lambda: r.score(p, X, y, sample_weight=sw, **pk)), s, 1e-7)
    y2 = y + np.sin(np.arange(len(y)))
    s = 1 - ((y2 - tr) ** 2).sum() / ((y2 - y2.mean()) ** 2).sum()
    c.close("score for other targets", c.ok("score", lambda: r.score(p, X, y2, **pk)), s, 1e-7 * (1 + abs(s)))
    c.out(z)


def valid(g):
    if g["via"] == "defaults":
        return False
    return valid20(g)


# --------------------------------------------------------------------------
# several objects


def ops_of():
    out = ["new:%d" % i for i in (0, 1)]
    for i in (0, 1):
        out += ["fit:%d:A" % i, "fit:%d:B" % i, "fit:%d:Y" % i, "predict:%d" % i, "score:%d" % i]
    out += ["copy:0:1"]
    return out


_WANT = {}


def runner(method, names):
    """Two objects; names are their regression models."""

    def new(i):
        from pykrige.rk import RegressionKriging

        m = regression(names[i])
        kw = {} if m is None else dict(regression_model=m)
        return RegressionKriging(method=method, **kw)

    def run(c, hist):
        objs = [new(0), new(1)]
        fitted = [None, None]
        kinds = [0, 1]
        for op in hist:
            kind, *a = op.split(":")
            i = int(a[0])
            if kind == "new":
                objs[i], fitted[i], kinds[i] = new(i), None, i
            elif kind == "fit":
                X, y = points(method, a[1])
                c.ok(op, lambda: objs[i].fit(predictors(X, y, 2), X, y))
                fitted[i] = a[1]
            elif kind == "predict" and fitted[i]:
                X, y = points(method, "A")
                c.ok(op, lambda: objs[i].predict(predictors(X, y, 2), X))
            elif kind == "score" and fitted[i]:
                X, y = points(method, "B")
                c.ok(op, lambda: objs[i].score(predictors(X, y, 2), X, y))
            elif kind == "copy":
                objs[1], fitted[1], kinds[1] = copy.deepcopy(objs[0]), fitted[0], kinds[0]
        state = ob.digest(objs[0]) + ob.digest(objs[1])
        P = queries(method, points(method, "A")[0])
        q = predictors(P, None, 2)
        for i in (0, 1):
            if fitted[i] is None:
                c.raises("prediction of object %d, which was not fitted" % i, lambda: objs[i].predict(q, P), Exception)
                continue
            key = (method, names[kinds[i]], fitted[i])
            if key not in _WANT:
                X, y = points(method, fitted[i])
                p = predictors(X, y, 2)
                m = same_model(names[kinds[i]]).fit(p, y)
                _WANT[key] = m.predict(q) + direct(method, class_kw(dict(method=method)), X, y - m.predict(p), P)[0]
            z = c.ok("predict", lambda: objs[i].predict(q, P))
            c.close("object %d" % i, z, _WANT[key], 1e-8 * (1 + np.abs(_WANT[key]).max()))
            c.out(z)
        return state

    return run


def searches(tier):
    q = tier == "quick"
    out = []
    for m in (["ordinary", "universal3d"] if q else list(OTHER)):
        for names in [("default", "default"), ("linear", "default")] + ([] if q else [("tree", "ridge"), ("forest", "mean")]):
            out.append(Search("%s with %s and %s" % ((m,) + names), ops_of(), runner(m, names), depth=3 if q else 5))
    return out


def rejected(c, cfg):
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LogisticRegression
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVC

    bad = dict(classifier=LogisticRegression(), svc=SVC(), scaler=StandardScaler(), text="svr", number=3, function=np.mean)
    if cfg["what"] in bad:
        c.raises("regression_model=%s" % cfg["what"], lambda: RegressionKriging(regression_model=bad[cfg["what"]], method=cfg["method"]), Exception)
    elif cfg["what"] == "class":
        c.raises("unknown method", lambda: RegressionKriging(method="cubic"), ValueError)
    else:
        X, y = points(cfg["method"], "A")
        r = RegressionKriging(method=cfg["method"])
        c.raises("unfitted", lambda: r.predict(predictors(X, y, 2), X), Exception)
        c.raises("unfitted residual", lambda: r.krige_residual(X), Exception)
        c.raises("wrong dimension", lambda: r.fit(predictors(X, y, 2), np.concatenate([X, X], axis=1), y), ValueError)


def spaces(tier):
    q = tier == "quick"
    core = dict(method=list(METHODS), regression=["linear", "tree", "default", "full tree", "neighbours"] + ([] if q else ["svr", "mean", "ridge", "forest"]),
                model=["linear", "spherical", "exponential"] if q else ["linear", "power", "gaussian", "spherical", "exponential", "hole-effect", "custom", "gstools"],
                via=["init", "refit", "refit-values"] + ([] if q else ["refit-points", "refit-arrays", "deepcopy"]))
    dev = dict(
        params=["list", "dict", "sill", "auto"],
        data=["A", "B", "C", "k33", "k65"],
        d=[2, 1, 4],
        nlags=["-", 4],
        weight=["-", True],
        closest=["-", None, 4],
        exact=["-", True, False],
        pinv=["off", "pinv", "pinvh"],
        scaling=["-", 2.5, (2.5,), (2.5, 0.6)],
        angle=["-", 35.0, (35.0,), (35.0, -20.0, 60.0)],
        stats=[False, True],
        verbose=[False, True],
        terms=["", "rl1", "pl1", "ez1", "fn1", "rl1+fn1"],
        backend=["-", "loop", "C", "vectorized"],
    )
    return [
        Space("settings", case, core, dev, bound=1 if q else 2, valid=valid),
        Space("pairs", case, dict(core, regression=["linear"], via=["init"], model=["gaussian", "custom", "gstools"] if q else core["model"]), dev, bound=2 if q else 3, valid=valid),
        Space("rejected", rejected, dict(method=list(OTHER), what=["classifier", "svc", "scaler", "text", "number", "function", "class", "unfitted"])),
    ]
