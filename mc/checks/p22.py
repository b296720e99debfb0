"""P22: classification kriging works in the simplex and returns labels."""
import copy
import itertools

import numpy as np

from .. import data, lib, objects as ob
from ..engine import Search, Space
from .p20 import METHODS, OTHER, class_kw, direct, other, pair, points, queries, valid as valid20
from .p21 import predictors

NEEDS_EXT = True
LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of fit/predict histories over several objects, exhaustive exploration of label sets and settings against an independent implementation, and of all compositions on a lattice"
ASSUMPTIONS = [
    "probabilities below the machine precision count as that precision (documented handling of zeros)",
    "labels are not compared where the two largest probabilities agree to 1e-6",
]

LABELS = {
    "0..": [0, 1, 2, 3],
    "1..": [1, 2, 3, 4],
    "gaps": [3, 7, 20, 100],
    "negative": [-5, -1, 0, 4],
    "words": ["clay", "gravel", "peat", "sand"],
    "unsorted words": ["zinc", "ash", "marl", "basalt"],
    "bytes-like": ["1", "10", "2", "x"],
    "bool": [False, True],
    "objects": np.array(["a", "bb", "ccc", "dddd"], dtype=object),
}


def target(labels, k, y):
    """Labels of k classes from the values y (every class at least twice)."""
    o = np.argsort(np.argsort(y))
    return np.asarray(labels)[:k][(o * k) // len(y)]


def classifier(name):
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.svm import SVC
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.dummy import DummyClassifier

    return {
        "bayes": GaussianNB,
        "logistic": lambda: LogisticRegression(max_iter=500),
        "svc": lambda: SVC(probability=True, random_state=1),
        "tree": lambda: DecisionTreeClassifier(max_depth=2, random_state=0),
        "full tree": lambda: DecisionTreeClassifier(random_state=0),
        "neighbours": lambda: KNeighborsClassifier(3),
        "prior": lambda: DummyClassifier(strategy="prior"),
        "forest": lambda: RandomForestClassifier(n_estimators=4, random_state=1),
    }[name]()


def basis(k):
    """Orthonormal basis of the simplex, (k-1, k)."""
    B = np.zeros((k - 1, k))
    for i in range(1, k):
        B[i - 1, :i] = 1 / np.sqrt(i * (i + 1))
        B[i - 1, i] = -i / np.sqrt(i * (i + 1))
    return -B


def ilr(p):
    return np.log(np.maximum(p, np.finfo(float).eps)) @ basis(p.shape[1]).T


def back(v):
    e = np.exp(v @ basis(v.shape[1] + 1))
    return e / e.sum(axis=1)[:, None]


def reference(clf, p, X, y, q, P, krige):
    """(ilr residuals, class probabilities) at the query points.

    krige(X, r, P) kriges one component."""
    m = classifier(clf).fit(p, y)
    one = (np.asarray(y)[:, None] == m.classes_[None, :]).astype(float)
    R = ilr(one) - ilr(m.predict_proba(p))
    K = np.stack([np.ma.getdata(krige(X, R[:, i], P)) for i in range(R.shape[1])], axis=1)
    return m, K, ilr(m.predict_proba(q)) + K


def judge(c, what, got, m, v):
    """Labels agree with the class of largest probability unless it is ambiguous."""
    pr = back(v)
    want = m.classes_[np.argmax(pr, axis=1)]
    s = np.sort(pr, axis=1)
    sure = s[:, -1] - s[:, -2] > 1e-6
    got = np.asarray(got)
    c.true(got.shape == want.shape, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    if got.shape == want.shape:
        c.true(all(a == b for a, b in zip(got[sure], want[sure])), "%s: %s instead of %s" % (what, got.tolist(), want.tolist()))
        c.true(all(any(a == b for b in m.classes_) for a in got), "%s: not a class of the training data: %s" % (what, got.tolist()))
    c.count("ambiguous labels", int((~sure).sum()))
    return sure


def case(c, cfg):
    from pykrige.ck import ClassificationKriging

    method = cfg["method"]
    k = cfg["classes"]
    if k > len(LABELS[cfg["labels"]]):
        return c.skip("not enough labels")
    X, val = points(method, cfg["data"])
    y = target(LABELS[cfg["labels"]], k, val)
    P = queries(method, X)
    p, q = predictors(X, None, cfg["d"]), predictors(P, None, cfg["d"])
    w, d = pair(cfg, X, np.concatenate([P, X, points(method, "B")[0], other(X, val, "S")[0]]))
    closest = 10 if cfg["closest"] == "-" else cfg["closest"]
    ordinary = METHODS[method] in ("ok", "ok3")
    if ordinary and closest is not None and closest > len(X):
        return c.skip("too few points")
    if cfg["backend"] == "vectorized" and ordinary and closest is not None:
        return c.skip("vectorized moving window")
    pk = {} if cfg["backend"] == "-" else dict(backend=cfg["backend"])
    be = "loop" if cfg["backend"] == "-" else cfg["backend"]

    def krige(X, r, P):
        return direct(method, d, X, r, P, closest, be)[0]

    m0 = classifier(cfg["classifier"]).fit(p, y)
    R0 = ilr((np.asarray(y)[:, None] == m0.classes_[None, :]).astype(float)) - ilr(m0.predict_proba(p))
    if np.ptp(R0, axis=0).min() <= 1e-9 and "variogram_parameters" not in d and cfg["model"] != "gstools":
        return c.skip("residuals vanish")  # no variogram can be fitted automatically to constant data
    r = c.ok("construct", lambda: ClassificationKriging(classification_model=classifier(cfg["classifier"]), **w))
    if cfg["via"] == "refit":
        # other data with other labels, one class more
        XB, vB = points(method, "B")
        c.ok("first fit", lambda: r.fit(predictors(XB, None, cfg["d"]), XB, target([11, 12, 13, 14, 15], 4, vB)))
    if cfg["via"] == "refit-values":  # other labels of the same points
        c.ok("first fit", lambda: r.fit(p, X, y[::-1].copy()))
    elif cfg["via"] == "refit-points":
        X2 = other(X, val, "S")[0]
        c.ok("first fit", lambda: r.fit(predictors(X2, None, cfg["d"]), X2, y))
    if cfg["via"] == "deepcopy":
        r = copy.deepcopy(r)
    yy = y if cfg["shape"] == "1d" else y.reshape(-1, 1)
    args = [p.copy(), X.copy(), yy.copy()]
    c.ok("fit", lambda: r.fit(*args))
    for name, a, b in zip(("predictors", "points"), args, (p, X)):
        c.same("fit changes its %s" % name, a, b)
    c.true(args[2].shape == yy.shape and (args[2] == yy).all(), "fit changes its targets")
    m, K, v = reference(cfg["classifier"], p, X, y, q, P, krige)
    c.close("krige_residual", c.ok("krige_residual", lambda: r.krige_residual(P.copy(), **pk)), K, 1e-6 * (1 + np.abs(R0).max()))
    judge(c, "predict", c.ok("predict", lambda: r.predict(q.copy(), P.copy(), **pk)), m, v)
    _, _, vt = reference(cfg["classifier"], p, X, y, p, X, krige)
    got = c.ok("predict", lambda: r.predict(p, X, **pk))
    sure = judge(c, "predict at the data", got, m, vt)
    if cfg["exact"] != False and cfg["pinv"] == "off":  # noqa: E712
        c.true(list(got) == list(y), "training labels %s instead of %s" % (list(got), list(y)))
    if sure.all():
        lab = m.classes_[np.argmax(back(vt), axis=1)]
        for sw in (None, 1.0 + (np.arange(len(y)) % 3)):
            for t in (y, np.roll(y, 1)):
                ok = np.array([a == b for a, b in zip(lab, t)], float)
                s = np.average(ok, weights=sw)
                c.close("score", c.ok("score", lambda: r.score(p, X, t, sample_weight=sw, **pk)), s, 1e-12)
    c.out(",".join(map(str, got)), K)


def compositions(total, parts):
    if parts == 1:
        return [(total,)]
    return [(i,) + r for i in range(total + 1) for r in compositions(total - i, parts - 1)]


def simplex(c, cfg):
    from pykrige.ck import closure, ilr_transformation, inverse_ilr_transformation

    D, N = cfg["parts"], cfg["total"]
    C = np.array(compositions(N, D), float)
    inner = C[(C > 0).all(axis=1)]
    if cfg["zeros"] == "none":
        C = inner
    if not len(C):
        return c.skip("no such composition")
    p = C / N
    p0 = p.copy()
    v = c.ok("ilr", lambda: ilr_transformation(p))
    c.same("the argument of ilr_transformation changes", p, p0)
    c.true(v.shape == (len(p), D - 1), "shape %s" % (v.shape,))
    c.count("compositions", len(p))
    w = c.ok("inverse", lambda: inverse_ilr_transformation(v.copy()))
    c.close("inverse of ilr", w, p, 1e-12)
    # isometric: Aitchison distance (and the same up to an orthogonal map of coordinates)
    pc = np.maximum(p, np.finfo(float).eps)
    L = np.log(pc)
    clr = L - L.mean(axis=1)[:, None]
    G1, G2 = v @ v.T, clr @ clr.T
    c.close("inner products", G1, G2, 1e-10 * (1 + np.abs(G2).max()))
    c.close("ilr is linear in log ratios", ilr_transformation(inverse_ilr_transformation(v * 0.5)), v * 0.5, 1e-9)
    for k in (1.0, 100.0, 7):
        q = c.ok("closure", lambda: closure(C + 0.5, k))
        c.close("closure", q.sum(axis=1), np.full(len(C), float(k)), 1e-9 * k)
        c.close("closure keeps ratios", q * (C + 0.5).sum(axis=1)[:, None], k * (C + 0.5), 1e-9 * k * N)
    # the other direction on a lattice of coordinates
    axis = np.array([-6.0, -1.5, 0.0, 0.7, 4.0])
    V = np.array(list(itertools.product(axis, repeat=D - 1)))
    p = c.ok("inverse", lambda: inverse_ilr_transformation(V.copy()))
    c.true((p > 0).all() and np.abs(p.sum(axis=1) - 1).max() <= 1e-12, "not a composition")
    c.close("ilr of the inverse", ilr_transformation(p), V, 1e-8)
    c.out(v[:10], w[:10])


# --------------------------------------------------------------------------
# several objects

_WANT = {}


def ops_of():
    out = ["new:0", "new:1", "copy:0:1"]
    for i in (0, 1):
        out += ["fit:%d:A" % i, "fit:%d:B" % i, "fit:%d:turned" % i, "fit:%d:words" % i, "predict:%d" % i]
    return out


def labels_of(method, what):
    X, v = points(method, "B" if what == "B" else "A")
    return X, {"A": lambda: target([0, 1, 2], 3, v), "turned": lambda: target([0, 1, 2], 3, v)[::-1].copy(), "B": lambda: target([5, 6], 2, v), "words": lambda: target(LABELS["words"], 4, v)}[what]()


def runner(method, names):
    def new(i):
        from pykrige.ck import ClassificationKriging

        return ClassificationKriging(classification_model=classifier(names[i]), method=method)

    def run(c, hist):
        objs, fitted, kinds = [new(0), new(1)], [None, None], [0, 1]
        for op in hist:
            kind, *a = op.split(":")
            i = int(a[0])
            if kind == "new":
                objs[i], fitted[i], kinds[i] = new(i), None, i
            elif kind == "fit":
                X, y = labels_of(method, a[1])
                c.ok(op, lambda: objs[i].fit(predictors(X, None, 2), X, y))
                fitted[i] = a[1]
            elif kind == "predict" and fitted[i]:
                X, y = labels_of(method, "B")
                c.ok(op, lambda: objs[i].predict(predictors(X, None, 2), X))
            elif kind == "copy":
                objs[1], fitted[1], kinds[1] = copy.deepcopy(objs[0]), fitted[0], kinds[0]
        state = ob.digest(objs[0]) + ob.digest(objs[1])
        P = queries(method, points(method, "A")[0])
        q = predictors(P, None, 2)
        for i in (0, 1):
            if fitted[i] is None:
                c.raises("prediction of object %d, which was not fitted" % i, lambda: objs[i].predict(q, P), Exception)
                continue
            key = (method, names[kinds[i]], fitted[i])
            if key not in _WANT:
                X, y = labels_of(method, fitted[i])
                _WANT[key] = reference(names[kinds[i]], predictors(X, None, 2), X, y, q, P,
                                       lambda X, r, P: direct(method, class_kw(dict(method=method)), X, r, P)[0])
            m, K, v = _WANT[key]
            judge(c, "object %d" % i, c.ok("predict", lambda: objs[i].predict(q, P)), m, v)
            c.close("residual of object %d" % i, c.ok("residual", lambda: objs[i].krige_residual(P)), K, 1e-6 * (1 + np.abs(K).max()))
            c.out(K)
        return state

    return run


def searches(tier):
    q = tier == "quick"
    out = []
    for m in (["ordinary"] if q else list(OTHER)):
        for names in [("bayes", "tree")] + ([] if q else [("logistic", "bayes")]):
            out.append(Search("%s with %s and %s" % ((m,) + names), ops_of(), runner(m, names), depth=3 if q else 5))
    return out


def rejected(c, cfg):
    from pykrige.ck import ClassificationKriging
    from sklearn.linear_model import LinearRegression
    from sklearn.svm import SVR

    bad = dict(regressor=LinearRegression(), svr=SVR(), text="svc", number=3, function=np.mean)
    if cfg["what"] in bad:
        c.raises("classification_model=%s" % cfg["what"], lambda: ClassificationKriging(classification_model=bad[cfg["what"]], method=cfg["method"]), Exception)
    else:
        X, y = labels_of(cfg["method"], "A")
        r = ClassificationKriging(classification_model=classifier("bayes"), method=cfg["method"])
        c.raises("unfitted", lambda: r.predict(predictors(X, None, 2), X), Exception)
        c.raises("unfitted residual", lambda: r.krige_residual(X), Exception)
        c.raises("wrong dimension", lambda: r.fit(predictors(X, None, 2), np.concatenate([X, X], axis=1), y), ValueError)


def spaces(tier):
    q = tier == "quick"
    core = dict(method=list(METHODS), labels=list(LABELS), classes=[2, 3, 4], shape=["1d", "column"])
    dev = dict(
        classifier=["bayes", "logistic", "svc", "tree", "full tree", "neighbours", "prior", "forest"],
        via=["init", "refit", "refit-values", "refit-points", "deepcopy"],
        model=["exponential", "linear", "power", "gaussian", "spherical", "hole-effect", "custom", "gstools"],
        params=["list", "dict", "sill", "auto"],
        data=["A", "B", "C", "k33", "k65"],
        d=[2, 1, 4],
        nlags=["-", 4],
        weight=["-", True],
        closest=["-", None, 4],
        exact=["-", True, False],
        pinv=["off", "pinv", "pinvh"],
        scaling=["-", 2.5, (2.5,), (2.5, 0.6)],
        angle=["-", 35.0, (35.0,), (35.0, -20.0, 60.0)],
        stats=[False, True],
        verbose=[False, True],
        terms=["", "rl1", "pl1", "ez1", "fn1", "rl1+fn1"],
        backend=["-", "loop", "C", "vectorized"],
    )
    return [
        Space("labels", case, dict(core, method=["ordinary", "universal3d"] if q else core["method"]),
              {k: (v if not q or k in ("classifier", "via", "model", "params", "closest") else v[:1]) for k, v in dev.items()},
              bound=1 if q else 2, valid=valid20),
        Space("settings", case, dict(core, labels=["gaps", "words"], classes=[3], shape=["1d"]), dev, bound=1 if q else 2, valid=valid20),
        Space("simplex", simplex, dict(parts=[2, 3, 4, 5], total=[2, 3, 5, 8, 13] if q else [2, 3, 5, 8, 13, 18], zeros=["none", "all"])),
        Space("rejected", rejected, dict(method=list(OTHER), what=["regressor", "svr", "text", "number", "function", "unfitted"])),
    ]
