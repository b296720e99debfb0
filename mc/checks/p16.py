"""P16: concurrent predictions do not interfere."""
import numpy as np

from .. import data, lib, sched
from .. import objects as ob
from ..drifts import Drift, f_wave
from ..engine import Space

NEEDS_EXT = True
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of all thread interleavings at line granularity up to a preemption bound, on the real code under a controlled scheduler"
ASSUMPTIONS = [
    "a preemption happens between two source lines of PyKrige (not inside numpy, scipy or compiled code)",
    "two threads, each with one call; up to the stated number of preemptions",
]


def targets(cls):
    X, Z = ob.data_of(cls)
    dim = X.shape[1]
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    P = lo + np.array([[0.3, 0.6, 0.2], [0.8, 0.1, 0.7]])[:, :dim] * w
    Q = np.concatenate([X[2:3], lo + np.array([[0.15, 0.35, 0.75]])[:, :dim] * w])
    return {"A": P, "B": Q}


def ops(cls):
    """name -> function(k, which targets)."""
    T = targets(cls)
    dim = T["A"].shape[1]
    sp = cls.endswith("-all")
    be = ["vectorized", "loop"] + (["C"] if cls in ("ok", "ok-geo") else [])
    out = {}

    def pts(style, kw):
        def f(k, who):
            P = T[who]
            a = dict(kw)
            cols = [P[:, i].copy() for i in range(dim)]
            if style == "points":
                if sp:
                    a["specified_drift_arrays"] = [ob.spec(P)]
            else:
                cols = [cols[0]] + [v[:1] for v in cols[1:]]
                G, shape = lib.grid_points(cols)
                if sp:
                    a["specified_drift_arrays"] = [ob.spec(G).reshape(shape)]
                if style == "masked":
                    a["mask"] = np.array([who == "A", who == "B"]).reshape(shape)
            z, s = k.execute(style, *cols, **a)
            return np.ma.filled(z, 0.0), np.ma.filled(s, 0.0)

        return f

    for b in be:
        out["points-" + b] = pts("points", dict(backend=b))
    out["grid"] = pts("grid", {})
    for b in be:
        out["masked-" + b] = pts("masked", dict(backend=b))
    if cls.startswith("ok"):
        for b in be[1:]:
            out["window-" + b] = pts("points", dict(backend=b, n_closest_points=3))
    out["statistics"] = lambda k, who: np.array([np.nan if v is None else float(v) for v in k.get_statistics()])
    if cls.split("-")[0] in ("ok", "uk"):
        out["variogram"] = lambda k, who: np.array(k.get_variogram_points()[1])
    return out


def build(cls, setting):
    return ob.construct(cls, ob.settings(cls)[setting])


def equal(g, w):
    if isinstance(w, tuple):
        return len(g) == len(w) and all(equal(a, b) for a, b in zip(g, w))
    return np.array_equal(g, w, equal_nan=np.asarray(w).dtype.kind == "f")


def run(c, fa, fb, bound, what, part, fresh=lambda: None):
    """All schedules of fa and fb; every schedule starts after fresh()."""
    fresh()
    va = fa()
    fresh()
    vb = fb()
    fresh()
    na = sched.lines_of(fa)
    fresh()
    nb = sched.lines_of(fb)
    n = 0
    for i, s in enumerate(sched.scripts((na, nb), bound)):
        if i % part[1] != part[0]:
            continue
        fresh()
        r = sched.Run([fa, fb], s)
        n += 1
        c.comparisons += 2
        if r.blocked:
            c.count("schedules with a blocked thread")
        for name, res, want in (("first", r.result[0], va), ("second", r.result[1], vb)):
            if res is None:
                c.fail("%s: schedule %s: the %s call never returned" % (what, s, name))
            elif res[0] == "error":
                c.fail("%s: schedule %s: the %s call raised %s" % (what, s, name, res[1]))
            elif not equal(res[1], want):
                c.fail("%s: schedule %s: the %s call returned %r, alone it returns %r" % (what, s, name, res[1], want))
        if c.fails:
            return
    c.true(equal(fa(), va) and equal(fb(), vb), "%s: results differ after all schedules" % what)
    c.count("schedules", n)
    c.count("preemption points", na + nb)
    c.impl_runs += 2 * n
    c.out(*[v for x in (va, vb) for v in (x if isinstance(x, tuple) else (x,))])


def pair(c, cfg):
    cls = cfg["cls"]
    O = ops(cls)
    if cfg["a"] not in O or cfg["b"] not in O:
        return c.skip("no such operation")
    k = {}

    def fresh():
        """Objects that have not been used yet (unless the history is "used")."""
        if k and cfg.get("history") == "used":
            return
        k["a"] = k["b"] = build(cls, cfg["setting"])
        if cfg["objects"] == "two":
            k["b"] = build(cls, "lin" if cfg["setting"] != "lin" else "pow-dict")

    c.ok("construct", fresh)
    if cfg["setting"].startswith(("cus", "gst")) and "C" in (cfg["a"][-1], cfg["b"][-1]):
        return c.skip("custom function in C")
    run(c, lambda: O[cfg["a"]](k["a"], "A"), lambda: O[cfg["b"]](k["b"], "B"), cfg["bound"],
        "%s || %s" % (cfg["a"], cfg["b"]), cfg.get("part", (0, 1)), fresh)


def wrapped(c, cfg):
    """The sklearn classes predict concurrently as well."""
    from sklearn.linear_model import LinearRegression
    from sklearn.naive_bayes import GaussianNB

    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging

    X, Z = data.coords("n9", 2), data.values("v", 9)
    P = np.stack([X[:, 0] ** 2, np.sin(X[:, 1])], axis=1)
    lab = np.array([0, 2, 1, 1, 0, 2, 2, 1, 0])
    kw = dict(method=cfg["method"], variogram_model="linear", variogram_parameters=[0.7, 0.2], n_closest_points=4)
    if cfg["method"] == "universal":
        kw.update(drift_terms=["regional_linear"])
    if cfg["what"] == "krige":
        m = Krige(**kw)
        fresh = lambda: m.fit(X, Z)
        f = lambda i: m.predict(X[i : i + 2] + 0.3)
        g = lambda i: m.execute(dict(xpoints=X[i : i + 2, 0] + 0.1, ypoints=X[i : i + 2, 1]), backend="vectorized") if cfg["method"] == "universal" \
            else m.execute(dict(xpoints=X[i : i + 2, 0] + 0.1, ypoints=X[i : i + 2, 1]))
    else:
        m = RegressionKriging(LinearRegression(), **kw) if cfg["what"] == "rk" else ClassificationKriging(GaussianNB(), **kw)
        fresh = lambda: m.fit(P, X, Z if cfg["what"] == "rk" else lab)
        f = lambda i: m.predict(P[i : i + 2], X[i : i + 2] + 0.3)
        g = lambda i: m.krige_residual(X[i : i + 2] + 0.1)
    run(c, lambda: f(1), lambda: (f if cfg["b"] == "same" else g)(5), cfg["bound"], cfg["what"], (0, 1), fresh)


def spaces(tier):
    q = tier == "quick"
    cl = ob.CLASSES
    names = ["points-vectorized", "points-loop", "points-C", "grid", "masked-vectorized", "masked-loop", "masked-C", "window-loop", "window-C", "statistics", "variogram"]
    out = []
    ok_pair = lambda g: g["objects"] == "one" or g["a"] == g["b"]
    if q:
        out.append(Space("one preemption", pair, dict(
            cls=cl, setting=["exp-an"], a=[n for n in names if not n.endswith("-C")], b=["points-vectorized", "points-loop"],
            objects=["one"], bound=[1], history=["fresh", "used"]), valid=lambda g: (g["history"] == "fresh" or g["a"] in ("points-vectorized", "grid", "masked-loop")) and (not g["cls"].endswith("-all") or (g["a"] in ("points-loop", "grid", "masked-vectorized") and g["b"] == "points-vectorized"))))
        out.append(Space("two objects", pair, dict(
            cls=cl, setting=["exp-an"], a=["points-vectorized", "points-loop"], b=["points-vectorized", "points-loop"],
            objects=["two"], bound=[1]), valid=lambda g: ok_pair(g) and not g["cls"].endswith("-all")))
        out.append(Space("two preemptions", pair, dict(
            cls=["ok", "ok3", "uk", "uk3"], setting=["exp-an"], a=["points-vectorized"], b=["points-loop"], objects=["one"], bound=[2],
            part=[(i, 8) for i in range(8)]), valid=lambda g: g["cls"] == "ok3"))
    else:
        out.append(Space("one preemption", pair, dict(
            cls=cl, setting=["exp-an", "cus-b", "gst", "sph-auto"], a=names, b=names, objects=["one", "two"], bound=[1], history=["fresh", "used"]),
            valid=lambda g: ok_pair(g) and (not g["cls"].endswith("-all") or g["setting"] == "exp-an")))
        out.append(Space("two preemptions", pair, dict(
            cls=cl[:5], setting=["exp-an"], a=["points-vectorized", "points-loop", "masked-loop", "grid"], b=["points-loop", "window-loop"], objects=["one"], bound=[2],
            part=[(i, 16) for i in range(16)])))
    out.append(Space("sklearn", wrapped, dict(what=["krige", "rk", "ck"], method=["ordinary", "universal"], b=["same", "other"], bound=[1 if q else 2])))
    return out
