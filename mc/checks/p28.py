"""P28: invalid requests are rejected with an error."""
import itertools

import numpy as np

from .. import data, lib
from ..drifts import Drift
from ..engine import Space
from .p02 import terms

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of single misuses and of all pairs of misuses over classes, styles and backends; the unspoilt request is executed as control"
ASSUMPTIONS = ["any exception counts as rejection; the kind of exception is not prescribed"]


class State:
    """A valid request as plain data."""

    def __init__(self, cfg):
        self.cls = cfg["cls"]
        self.dim = lib.dim_of(self.cls)
        self.style = cfg["style"]
        X = data.coords("n9" if self.dim == 3 else "n7", self.dim)
        self.coords = [X[:, i].copy() for i in range(self.dim)]
        self.values = data.values("v", len(X))
        self.n = len(X)
        self.kw = dict(variogram_model=cfg["model"], exact_values=True, pseudo_inv=cfg["pinv"])
        if cfg["model"] == "custom":
            self.kw["variogram_function"] = lambda p, d: p[0] * d + p[1]
            self.kw["variogram_parameters"] = [1.0, 0.1]
        else:
            self.kw["variogram_parameters"] = data.model_params(cfg["model"], "nug", data.span(X))[0]
        P = data.targets(X, "mid")
        self.axes = [P[: 4 - i, i].copy() for i in range(self.dim)]
        self.shape = tuple(len(a) for a in self.axes[::-1])
        if self.style == "points":
            self.axes = [P[:, i].copy() for i in range(self.dim)]
            G, self.shape = P, (len(P),)
        else:
            G, _ = lib.grid_points(self.axes)
        self.ex = dict(backend=cfg["backend"])
        if self.style == "masked":
            self.ex["mask"] = (np.arange(len(G)) % 3 == 1).reshape(self.shape)
        if cfg["window"]:
            self.ex["n_closest_points"] = cfg["window"]
        self.terms = cfg["terms"]
        if self.cls.startswith("uk"):
            D = Drift(self.dim, terms(cfg["terms"]), X, G)
            self.kw.update(D.kw)
            self.ex.update(D.exec_kw(G, None if self.style == "points" else self.shape))

    def go(self):
        c = lib.classes()[self.cls]
        k = c(*[np.array(a) for a in self.coords], np.array(self.values), **self.kw)
        return k.execute(self.style, *self.axes, **self.ex)


def put(where, **kw):
    def f(s):
        getattr(s, where).update(kw)
    return f


def drop(where, *names):
    def f(s):
        for n in names:
            getattr(s, where).pop(n, None)
    return f


MIS = {}  # name -> (group, applies(cfg), apply(state))


def add(name, group, fn, when=lambda g: True):
    MIS[name] = (group, when, fn)


for v in ("matern", "Linear", "", None, 5, "linear ", "hole_effect", "gauss"):
    add("model=%r" % (v,), "model", put("kw", variogram_model=v))
add("custom without function", "model", lambda s: (s.kw.update(variogram_model="custom", variogram_parameters=[1.0, 0.1]), s.kw.pop("variogram_function", None)))
add("custom with a number as function", "model", lambda s: s.kw.update(variogram_model="custom", variogram_parameters=[1.0, 0.1], variogram_function=3))
add("custom with None as function", "model", lambda s: s.kw.update(variogram_model="custom", variogram_parameters=[1.0, 0.1], variogram_function=None))
add("custom without parameters", "model", lambda s: (s.kw.update(variogram_model="custom", variogram_function=lambda p, d: d), s.kw.pop("variogram_parameters", None)))
add("custom with dict", "model", lambda s: s.kw.update(variogram_model="custom", variogram_function=lambda p, d: d, variogram_parameters={"a": 1}))

notcustom = lambda g: g["model"] != "custom"


def wrong_length(d):
    def f(s):
        p = list(s.kw["variogram_parameters"])
        s.kw["variogram_parameters"] = p[:d] if d < 0 else p + [0.1] * d
    return f


for d in (-2, -1, 1, 2):
    add("parameter list %+d" % d, "parameters", wrong_length(d), notcustom)
add("parameter list empty", "parameters", put("kw", variogram_parameters=[]), notcustom)
KEYS = {"linear": ["slope", "nugget"], "power": ["scale", "exponent", "nugget"]}


def missing_key(i, sill):
    def f(s):
        keys = KEYS.get(s.kw["variogram_model"], [sill, "range", "nugget"])
        d = {k: 1.0 for k in keys}
        d.pop(keys[i % len(keys)])
        s.kw["variogram_parameters"] = d
    return f


for i in range(3):
    for sill in ("sill", "psill"):
        add("parameter dict without key %d (%s)" % (i, sill), "parameters", missing_key(i, sill), notcustom)
add("parameter dict empty", "parameters", put("kw", variogram_parameters={}), notcustom)
add("parameters as text", "parameters", put("kw", variogram_parameters="1 2 3"))
for v in (1, 0, "True", None, 1.0, [True], "yes"):
    add("exact_values=%r" % (v,), "exact", put("kw", exact_values=v))
for v in ("pinv2", "lu", "", None, 3, "PINV"):
    add("pseudo_inv_type=%r" % (v,), "pinv", put("kw", pseudo_inv_type=v))
for v in ("cartesian", "", None, "Geographic", "latlon", 2):
    add("coordinates_type=%r" % (v,), "coordinates", put("kw", coordinates_type=v), lambda g: g["cls"] == "ok")
for i in range(4):
    for how in ("shorter", "longer", "empty"):
        def f(s, i=i, how=how):
            a = s.values if i == s.dim else s.coords[i]
            a = a[:-1] if how == "shorter" else np.append(a, 1.0) if how == "longer" else a[:0]
            if i == s.dim:
                s.values = a
            else:
                s.coords[i] = a
        add("data array %d %s" % (i, how), "data", f, lambda g, i=i: i <= lib.dim_of(g["cls"]))

uk = lambda t: (lambda g: g["cls"].startswith("uk") and t in g["terms"])
add("well missing", "wells", drop("kw", "point_drift"), uk("pl"))
add("well None", "wells", put("kw", point_drift=None), uk("pl"))
for name in ("external_drift", "external_drift_x", "external_drift_y"):
    add(name + " missing", "external", drop("kw", name), uk("ez"))
    add(name + " None", "external", put("kw", **{name: None}), uk("ez"))
    add(name + " shorter", "external", lambda s, name=name: s.kw.update({name: s.kw[name][:-1]}), uk("ez"))
add("external_drift one column less", "external", lambda s: s.kw.update(external_drift=s.kw["external_drift"][:, 1:]), uk("ez"))
add("external_drift_x does not cover the data", "external", lambda s: s.kw.update(external_drift_x=s.kw["external_drift_x"] + 1000.0), uk("ez"))
add("external_drift_y does not cover the data", "external", lambda s: s.kw.update(external_drift_y=s.kw["external_drift_y"] - 1000.0), uk("ez"))
for name, t in (("specified_drift", "sp"), ("functional_drift", "fn")):
    g = "data drift" if t == "sp" else "functional"
    add(name + " missing", g, drop("kw", name), uk(t))
    add(name + " None", g, put("kw", **{name: None}), uk(t))
    add(name + " empty", g, put("kw", **{name: []}), uk(t))
    add(name + " tuple", g, lambda s, name=name: s.kw.update({name: tuple(s.kw[name])}), uk(t))
    add(name + " not encapsulated", g, lambda s, name=name: s.kw.update({name: s.kw[name][0]}), uk(t))
add("specified_drift as array", "data drift", lambda s: s.kw.update(specified_drift=np.array(s.kw["specified_drift"])), uk("sp"))
for i in (0, 1, 2, 3):
    for how in (-1, 1):
        def f(s, i=i, how=how):
            L = [np.array(a) for a in s.kw["specified_drift"]]
            i = i % len(L)
            L[i] = L[i][:-1] if how < 0 else np.append(L[i], 0.0)
            s.kw["specified_drift"] = L
        add("specified_drift %d with %+d values" % (i, how), "data drift", f, uk("sp"))

for v in ("Grid", "", None, "point", "mask", 1, "points "):
    add("style=%r" % (v,), "style", lambda s, v=v: setattr(s, "style", v))
for v in ("numpy", "cython", None, "Loop", "", 0, "vector"):
    add("backend=%r" % (v,), "backend", put("ex", backend=v))
add("backend=C", "backend", put("ex", backend="C"), lambda g: g["cls"] in ("uk", "ok3", "uk3") or g["model"] in ("custom",))
for v in (1, 0, -1, -5):
    add("n_closest_points=%r" % v, "window", put("ex", n_closest_points=v), lambda g: g["cls"].startswith("ok"))
for v in (1, 2, 100):
    add("n_closest_points=n+%d" % v, "window", lambda s, v=v: s.ex.update(n_closest_points=s.n + v), lambda g: g["cls"].startswith("ok"))
add("window and vectorized", "window backend", lambda s: s.ex.update(n_closest_points=3, backend="vectorized"), lambda g: g["cls"].startswith("ok"))
for i in range(3):
    for how in ("shorter", "longer", "single"):
        def f(s, i=i, how=how):
            a = s.axes[i]
            s.axes[i] = a[:-1] if how == "shorter" else np.append(a, a[0]) if how == "longer" else a[:1]
        add("points array %d %s" % (i, how), "points", f, lambda g, i=i: g["style"] == "points" and i < lib.dim_of(g["cls"]))
masked = lambda g: g["style"] == "masked"
add("mask missing", "mask", drop("ex", "mask"), masked)
add("mask None", "mask", put("ex", mask=None), masked)


def bad_masks(s):
    n = s.shape
    out = [np.zeros(int(np.prod(n)), bool), np.zeros(n[:-1], bool)]
    for ax in range(len(n)):
        for d in (-1, 1):
            m = list(n)
            m[ax] += d
            out.append(np.zeros(m, bool))
    if s.dim == 3:
        # only the documented order of axes and its reversal are accepted
        for o in itertools.permutations(range(3)):
            m = tuple(n[i] for i in o)
            if m not in (n, n[::-1]):
                out.append(np.zeros(m, bool))
    return out


for i in range(14):
    def f(s, i=i):
        m = bad_masks(s)
        s.ex["mask"] = m[i % len(m)]
    add("mask of wrong shape %d" % i, "mask", f, lambda g, i=i: masked(g) and i < (6 if lib.dim_of(g["cls"]) == 2 else 12))

sp = uk("sp")
add("drift arrays missing", "drift arrays", drop("ex", "specified_drift_arrays"), sp)
add("drift arrays None", "drift arrays", put("ex", specified_drift_arrays=None), sp)
add("drift arrays empty", "drift arrays", put("ex", specified_drift_arrays=[]), sp)
add("drift arrays tuple", "drift arrays", lambda s: s.ex.update(specified_drift_arrays=tuple(s.ex["specified_drift_arrays"])), sp)
add("drift arrays not encapsulated", "drift arrays", lambda s: s.ex.update(specified_drift_arrays=s.ex["specified_drift_arrays"][0]), sp)
for m in range(1, 8):
    def f(s, m=m):
        L = list(s.ex["specified_drift_arrays"])
        # too few, or too many by repetition, by constants
        s.ex["specified_drift_arrays"] = L[:m] if m < len(L) else L + [np.ones(s.shape)] * (m - len(L) + 1)
    add("drift arrays count %d" % m, "drift arrays", f, sp)
    add("drift arrays last %d" % m, "drift arrays", lambda s, m=m: s.ex.update(specified_drift_arrays=list(s.ex["specified_drift_arrays"])[m:]), sp)
add("drift arrays one more", "drift arrays", lambda s: s.ex.update(specified_drift_arrays=s.ex["specified_drift_arrays"] * 2), sp)
add("drift arrays one less", "drift arrays", lambda s: s.ex.update(specified_drift_arrays=s.ex["specified_drift_arrays"][:-1]), sp)


def bad_arrays(s):
    n = s.shape
    shapes = []
    for ax in range(len(n)):
        for d in (-1, 1):
            m = list(n)
            m[ax] += d
            shapes.append(tuple(m))
    if len(n) > 1:
        shapes += [(int(np.prod(n)),), n[:-1], n[1:]]
        # as many values in another arrangement
        size = int(np.prod(n))
        if len(n) == 2:
            shapes += [m for m in ((1, size), (2, size // 2), (size // 2, 2)) if np.prod(m) == size and m not in (n, n[::-1])]
        else:
            shapes += [m for m in ((1, 1, size), (n[0], 1, n[1] * n[2]), (n[0] * n[1], n[2], 1)) if m not in (n, n[::-1])]
    else:
        shapes += [(n[0], 2), (2, n[0]), (1, n[0])]
    return shapes


for i in range(12):
    for which in (0, 1, 2, 3):
        def f(s, i=i, which=which):
            L = list(s.ex["specified_drift_arrays"])
            m = bad_arrays(s)
            L[which % len(L)] = np.ones(m[i % len(m)]) + np.arange(m[i % len(m)][-1])
            s.ex["specified_drift_arrays"] = L
        add("drift array %d of wrong shape %d" % (which, i), "drift arrays", f, sp)


def control(c, s):
    z, v = c.ok("valid request", s.go)
    c.true(z.shape == s.shape and v.shape == s.shape, "shape %s" % (z.shape,))
    m = s.ex.get("mask", np.zeros(s.shape, bool))
    c.true(np.isfinite(np.ma.getdata(z)[~m]).all() and np.isfinite(np.ma.getdata(v)[~m]).all(), "valid request gives no numbers")
    c.out(np.ma.getdata(z)[~m])


def case(c, cfg):
    control(c, State(cfg))
    for name in GROUPS[cfg["group"]]:
        group, when, fn = MIS[name]
        if not when(cfg):
            continue
        s = State(cfg)
        fn(s)
        c.count("misuses")
        c.raises(name, s.go, Exception)


def pairs(c, cfg):
    """Two misuses at once."""
    a, b = cfg["pair"]
    for n1 in GROUPS[a]:
        for n2 in GROUPS[b]:
            g1, w1, f1 = MIS[n1]
            g2, w2, f2 = MIS[n2]
            if not (w1(cfg) and w2(cfg)):
                continue
            s = State(cfg)
            try:
                f1(s)
                f2(s)
            except (KeyError, IndexError, TypeError, AttributeError):
                c.count("misuses that do not combine")
                continue
            c.count("pairs of misuses")
            c.raises("%s and %s" % (n1, n2), s.go, Exception)
    c.out(str(c.counts))


def after(c, cfg):
    """A misused update or execute of a living object."""
    s = State(cfg)
    k = lib.classes()[s.cls](*s.coords, s.values, **s.kw)
    good = c.ok("execute", lambda: k.execute(s.style, *s.axes, **s.ex))
    for name in MIS:
        group, when, fn = MIS[name]
        if not when(cfg):
            continue
        t = State(cfg)
        fn(t)
        if group in ("model", "parameters"):
            kw = {a: t.kw.get(a) for a in ("variogram_model", "variogram_parameters", "variogram_function")}
            c.raises("update with " + name, lambda: k.update_variogram_model(**kw), Exception)
        elif group in ("style", "backend", "window", "window backend", "points", "mask", "drift arrays"):
            c.raises("execute with " + name, lambda: k.execute(t.style, *t.axes, **t.ex), Exception)
        else:
            continue
        c.count("misuses")
    again = c.ok("execute", lambda: k.execute(s.style, *s.axes, **s.ex))
    m = s.ex.get("mask", np.zeros(s.shape, bool))
    c.close("estimates afterwards", np.ma.getdata(again[0])[~m], np.ma.getdata(good[0])[~m], 1e-12 * (1 + np.abs(s.values).max()))
    c.out(np.ma.getdata(good[0])[~m])


GROUPS = {}
for _n, (_g, _w, _f) in MIS.items():
    GROUPS.setdefault(_g, []).append(_n)


def valid(cfg):
    cls, t = cfg["cls"], cfg["terms"]
    if t and not cls.startswith("uk"):
        return False
    if cls == "uk3" and ("pl" in t or "ez" in t):
        return False
    if cfg["backend"] == "C" and (cls != "ok" or cfg["model"] in ("custom", "hole-effect")):
        return False
    if cfg["window"] and (not cls.startswith("ok") or cfg["backend"] == "vectorized"):
        return False
    if "pair" in cfg and cfg["pair"][0] == cfg["pair"][1]:
        return False
    g = cfg.get("pair", (cfg.get("group"),) * 2)
    for x in g:
        if x is not None and not any(MIS[n][1](cfg) for n in GROUPS[x]):
            return False
    return True


def spaces(tier):
    q = tier == "quick"
    cls = ["ok", "uk", "ok3", "uk3"]
    base = dict(cls=cls, style=["points", "grid", "masked"], backend=["vectorized", "loop", "C"],
                terms=["", "rl1", "pl1", "ez1", "sp1", "sp2", "sp3", "sp4", "fn1", "rl1+sp1+fn1", "pl1+ez1+sp1+fn1"])
    dev = dict(model=["linear", "power", "exponential", "gaussian", "spherical", "hole-effect", "custom"], window=[0, 3], pinv=[False, True])
    order = sorted(GROUPS)
    # a wrong model and a wrong list of parameters may fit each other
    cp = [p for p in itertools.combinations(order, 2) if p != ("model", "parameters")]
    return [
        Space("single", case, dict(base, group=order), dev, bound=1 if q else 3, valid=valid),
        Space("pairs", pairs, dict(cls=cls, style=["points", "masked"] if q else base["style"], backend=["vectorized", "loop"] if not q else ["loop"], terms=["", "pl1+ez1+sp1+fn1", "sp2", "sp3"], pair=cp),
              dict(model=["linear"], window=[0], pinv=[False]) if q else dict(dev, pinv=[False]), bound=1, valid=valid),
        Space("living object", after, dict(base), dev, bound=1 if q else 3, valid=valid),
    ]
