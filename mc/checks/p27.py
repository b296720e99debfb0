"""P27: predictions respect the symmetries of kriging."""
import itertools
import math

import numpy as np

from .. import data, lib, ref
from ..drifts import Drift, bilinear
from ..engine import Space
from .p01 import custom, setup
from .p02 import terms

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of pairs of related runs (all permutations of small data sets, translations, rotations, reflections, axis permutations, rescalings of coordinates, values and variogram) over classes, models and backends"
ASSUMPTIONS = [
    "cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
    "the tolerance of a comparison follows from the condition of the two systems",
]
NOTE = "The relations are checked between two runs of the library; the reference model only supplies the tolerances."

ANISO = {"none": (None, None), "sa": ([2.5, 0.6], [30.0, -20.0, 50.0]), "s": ([0.4, 3.0], None)}


def perm_of(i, n):
    """The i-th permutation in lexicographic order."""
    left, out = list(range(n)), []
    for k in range(n, 0, -1):
        f = math.factorial(k - 1)
        out.append(left.pop((i // f) % k))
        i %= f
    return np.array(out)


class Problem:
    """One kriging problem as plain data."""

    def __init__(self, cfg):
        self.cls = cfg["cls"]
        self.dim = lib.dim_of(self.cls)
        self.geo = cfg["geo"]
        self.X = data.coords(cfg["data"], self.dim)
        if self.geo:
            self.X = (self.X - self.X.mean(axis=0)) * [20.0, 8.0] + [30.0, 10.0]
        self.Z = data.values("v", len(self.X))
        kw, (rm, rp) = setup(cfg["model"], cfg["params"], self.X)
        self.model = cfg["model"]
        self.params = list(kw["params"])
        self.internal = list(rp)
        sc, an = ANISO[cfg["aniso"]]
        self.sc = None if sc is None else list(sc[: self.dim - 1])
        self.an = None if an is None else list(an[: 1 if self.dim == 2 else 3])
        self.P = data.targets(self.X, cfg["targets"])
        if cfg["sym"] == "dyadic":  # also targets a little apart from the data
            q = 2.0**-12
            self.X = np.rint(self.X / q) * q
            step = q * np.eye(self.dim)
            self.P = np.concatenate([np.rint(self.P / q) * q] + [self.X[i: i + 1] + f * step[i % self.dim] for i, f in enumerate([1, -2, 16])] + [self.X[:1]])
        self.drift = None
        self.spec = []
        if self.cls.startswith("uk") and cfg["terms"]:
            D = Drift(self.dim, terms(cfg["terms"]), self.X, self.P)
            self.drift = {k: v for k, v in D.kw.items() if k != "specified_drift"}
            self.spec = [(np.array(a), np.asarray(f(self.P), float)) for a, f in zip(D.kw.get("specified_drift", []), D.spec_fns)]
            self.D = D

    def copy(self):
        q = Problem.__new__(Problem)
        q.__dict__.update(self.__dict__)
        q.drift = None if self.drift is None else dict(self.drift)
        return q

    def kwargs(self):
        kw = {}
        if self.drift is not None:
            kw.update(self.drift)
            if self.spec:
                kw["specified_drift"] = [a for a, _ in self.spec]
        if self.model == "custom":
            kw["variogram_function"] = custom
        if self.geo:
            kw["coordinates_type"] = "geographic"
        return kw

    def run(self, c, cfg):
        kw = self.kwargs()
        kw["exact_values"] = cfg["exact"]
        if cfg["pinv"] != "off":
            kw.update(pseudo_inv=True, pseudo_inv_type=cfg["pinv"])
        k = c.ok("construct", lambda: lib.make(self.cls, self.X, self.Z, self.model, self.params, self.sc, self.an, **kw))
        ek = dict(backend=cfg["backend"])
        if cfg["window"]:
            ek["n_closest_points"] = cfg["window"]
        if self.spec:
            ek["specified_drift_arrays"] = [b for _, b in self.spec]
        z, s = c.ok("execute", lambda: lib.run_points(k, self.P, **ek))
        return np.asarray(np.ma.getdata(z)), np.asarray(np.ma.getdata(s))

    def tolerance(self, cfg):
        drifts, at = [], None
        if self.drift is not None:
            probe = ref.Model(self.X, self.Z, "linear", [1.0, 0.0], self.sc, self.an)
            names = self.drift["drift_terms"]
            if "regional_linear" in names:
                drifts += [lambda O, A, k=k: A[:, k] for k in range(self.dim)]
            for w in self.drift.get("point_drift", []):
                wa = probe.to_iso(np.asarray(w, float)[None, :2])[0]
                drifts.append(lambda O, A, wa=wa, w=w: w[2] * np.log(np.maximum(np.hypot(A[:, 0] - wa[0], A[:, 1] - wa[1]), 1e-40)))
            if "external_drift" in self.drift:
                drifts.append(lambda O, A: bilinear(self.drift["external_drift_x"], self.drift["external_drift_y"], self.drift["external_drift"], O))
            for f in self.drift.get("functional_drift", []):
                drifts.append(lambda O, A, f=f: f(*[A[:, k] for k in range(self.dim)]))
            at = [None] * len(drifts) + [b for _, b in self.spec]
            drifts += [(a, b) for a, b in self.spec]
        m = ref.Model(self.X, self.Z, custom if self.model == "custom" else self.model, self.internal, self.sc, self.an, geographic=self.geo, exact=cfg["exact"], drifts=drifts)
        return m.predict(self.P, drift_at=at, k=cfg["window"] or None)


SYMS = {}


def sym(f):
    SYMS[f.__name__] = f
    return f


def identity(v):
    return v


@sym
def order(p, i):
    """Permutation of the data."""
    n = len(p.X)
    q = p.copy()
    o = perm_of(i % math.factorial(n), n)
    q.X, q.Z = p.X[o], p.Z[o]
    q.spec = [(a[o], b) for a, b in p.spec]
    return q, identity, identity, None


@sym
def reverse(p, i):
    """Reversals and rotations of larger data sets."""
    n = len(p.X)
    o = np.roll(np.arange(n)[:: -1 if i % 2 else 1], i)
    q = p.copy()
    q.X, q.Z = p.X[o], p.Z[o]
    q.spec = [(a[o], b) for a, b in p.spec]
    return q, identity, identity, None


@sym
def targets(p, i):
    m = len(p.P)
    o = np.roll(np.arange(m)[:: -1 if i % 2 else 1], i)
    q = p.copy()
    q.P = p.P[o]
    q.spec = [(a, b[o]) for a, b in p.spec]
    return q, identity, identity, o


SHIFTS = [[1.0, -2.0, 0.5], [-37.5, 0.0, 12.25], [1000.25, 2000.5, -300.0], [0.1, 0.1, 0.1]]


@sym
def shift(p, i):
    """Translation of data, targets, wells and drift grid."""
    t = np.array(SHIFTS[i % len(SHIFTS)])[: p.dim]
    if p.geo:
        t = np.array([[17.0, 0], [90.0, 0], [180.0, 0], [-200.0, 0], [360.0, 0]][i % 5])
    q = p.copy()
    q.X, q.P = p.X + t, p.P + t
    if p.drift is not None:
        if "point_drift" in p.drift:
            w = np.array(p.drift["point_drift"], float)
            w[:, :2] += t[:2]
            q.drift["point_drift"] = w
        if "external_drift_x" in p.drift:
            q.drift["external_drift_x"] = p.drift["external_drift_x"] + t[0]
            q.drift["external_drift_y"] = p.drift["external_drift_y"] + t[1]
        if "functional_drift" in p.drift:
            q.drift["functional_drift"] = [lambda *a, f=f: f(*[v - d for v, d in zip(a, t)]) for f in p.drift["functional_drift"]]
    return q, identity, identity, None


@sym
def dyadic(p, i):
    """A far translation which is exact in floating point."""
    if p.drift is not None or p.sc is not None or p.an is not None or p.geo:
        return None
    t = np.array([[2.0**22, -(2.0**23), 2.0**21], [-(2.0**30), 0.0, 0.0], [0.0, 2.0**34, 0.0], [-(2.0**12), -(2.0**16), 2.0**33]][i % 4])[: p.dim]
    q = p.copy()
    q.X, q.P = p.X + t, p.P + t
    return q, identity, identity, None


@sym
def values(p, i):
    """Affine change of the values."""
    a, b = [(1.0, 5.0), (-1.0, 0.0), (2.5, -7.0), (1e-3, 0.0), (1e4, 300.0), (0.0, 4.0), (1e-13, 0.0), (1e13, 0.0)][i % 8]
    q = p.copy()
    q.Z = a * p.Z + b
    return q, lambda z: a * z + b, identity, None


@sym
def sill(p, i):
    """Scaling of the variogram: estimates stay, variances scale."""
    f = [2.0, 0.5, 40.0, 0.05, 1e-13, 1e13][i % 6]
    q = p.copy()
    if p.model in ("linear",):
        ix = [0, 1]
    elif p.model == "power":
        ix = [0, 2]
    elif p.model == "custom":
        ix = [0, 2, 3]
    else:
        ix = [0, 2]
    q.params = [v * f if k in ix else v for k, v in enumerate(p.params)]
    q.internal = [v * f if k in ix else v for k, v in enumerate(p.internal)]
    return q, identity, lambda s: f * s, None


@sym
def zoom(p, i):
    """Other unit of length: coordinates and range scale together."""
    if p.geo or p.drift is not None and set(p.drift["drift_terms"]) - {"regional_linear", "specified", "external_Z"}:
        return None
    f = [2.0, 0.25, 1000.0, 0.01][i % 4]
    q = p.copy()
    q.X, q.P = p.X * f, p.P * f

    def scale(v):
        v = list(v)
        if p.model == "linear":
            v[0] = v[0] / f
        elif p.model == "power":
            v[0] = v[0] / f ** v[1]
        else:
            v[1] = v[1] * f
            if p.model == "custom":
                v[2] = v[2] / np.sqrt(f)
        return v

    q.params, q.internal = scale(p.params), scale(p.internal)
    if p.drift is not None and "external_drift_x" in p.drift:
        q.drift["external_drift_x"] = p.drift["external_drift_x"] * f
        q.drift["external_drift_y"] = p.drift["external_drift_y"] * f
    return q, identity, identity, None


@sym
def rotate(p, i):
    """Rotation of the plane together with the anisotropy angle."""
    if p.dim != 2 or p.geo or p.drift is not None and set(p.drift["drift_terms"]) - {"regional_linear", "specified", "point_log"}:
        return None
    phi = [30.0, 90.0, -45.0, 180.0, 77.7, 300.0][i % 6]
    c, s = np.cos(np.radians(phi)), np.sin(np.radians(phi))
    R = np.array([[c, -s], [s, c]])
    ctr = (p.X.max(axis=0) + p.X.min(axis=0)) / 2
    q = p.copy()
    T = lambda v: (v - ctr) @ R.T + ctr
    # coinciding points stay coinciding: rotate them as one array
    A = T(np.concatenate([p.X, p.P]))
    q.X, q.P = A[: len(p.X)], A[len(p.X):]
    for j, t in enumerate(p.P):
        for k, x in enumerate(p.X):
            if (t == x).all():
                q.P[j] = q.X[k]
    if p.sc is not None:
        q.an = [(0.0 if p.an is None else p.an[0]) + phi]
    if p.drift is not None and "point_drift" in p.drift:
        w = np.array(p.drift["point_drift"], float)
        w[:, :2] = T(w[:, :2])
        q.drift["point_drift"] = w
    return q, identity, identity, None


@sym
def mirror(p, i):
    """Reflections and permutations of the axes without anisotropy."""
    if p.geo:
        q = p.copy()
        s = np.array([[-1.0, 1.0], [1.0, -1.0], [-1.0, -1.0]][i % 3])
        q.X, q.P = p.X * s, p.P * s
        return q, identity, identity, None
    if p.sc is not None or p.an is not None:
        return None
    if p.drift is not None and set(p.drift["drift_terms"]) - {"regional_linear", "specified", "point_log"}:
        return None
    perms = list(itertools.permutations(range(p.dim)))
    signs = list(itertools.product([1.0, -1.0], repeat=p.dim))
    if p.drift is not None and "point_drift" in p.drift and p.dim == 3:
        return None
    o = list(perms[i % len(perms)])
    s = np.array(signs[(i // len(perms)) % len(signs)])
    q = p.copy()
    q.X, q.P = p.X[:, o] * s, p.P[:, o] * s
    if p.drift is not None and "point_drift" in p.drift:
        w = np.array(p.drift["point_drift"], float)
        w[:, :2] = w[:, :2][:, o] * s
        q.drift["point_drift"] = w
    return q, identity, identity, None


@sym
def relative(p, i):
    """The strengths of wells are relative, drift values may be rescaled."""
    if p.drift is None:
        return None
    f = [2.0, -1.0, 0.125, 50.0][i % 4]
    q = p.copy()
    q.spec = [(f * a + j, f * b + j) for j, (a, b) in enumerate(p.spec)]
    if "external_drift" in p.drift:
        q.drift["external_drift"] = np.asarray(p.drift["external_drift"]) * f + 3.0
    if "point_drift" in p.drift:
        w = np.array(p.drift["point_drift"], float)
        w[:, 2] *= f
        q.drift["point_drift"] = w
    if "functional_drift" in p.drift:
        q.drift["functional_drift"] = [lambda *a, g=g: f * g(*a) - 1.0 for g in p.drift["functional_drift"]]
    return q, identity, identity, None


@sym
def combination(p, i):
    """Values plus a combination of the drift: the estimates follow it, the
    variances stay."""
    if p.drift is None or "regional_linear" not in p.drift["drift_terms"]:
        return None
    v = np.array([[1.0, 2.0, -1.0], [-0.3, 0.0, 4.0], [10.0, -10.0, 10.0]][i % 3])[: p.dim]
    ctr = p.X.mean(axis=0)
    q = p.copy()
    q.Z = p.Z + (p.X - ctr) @ v
    add = (p.P - ctr) @ v
    return q, lambda z: z + add, identity, None


COUNT = dict(order=120, reverse=12, targets=6, shift=4, dyadic=4, values=8, sill=6, zoom=4, rotate=6, mirror=48, relative=4, combination=3)


def case(c, cfg):
    p = Problem(cfg)
    t = SYMS[cfg["sym"]](p, cfg["i"])
    if t is None:
        return c.skip("not a symmetry of this problem")
    q, fz, fs, o = t
    if cfg["window"] and cfg["window"] >= len(p.X):
        return c.skip("window")
    z, s = p.run(c, cfg)
    y, u = q.run(c, cfg)
    a, b = p.tolerance(cfg), q.tolerance(cfg)
    ok = np.broadcast_to((np.asarray(a.cond) < 1e9), z.shape)
    if o is not None:
        z, s, ok = z[o], s[o], ok[o]
        tz, ts = fz(a.tz[o]) - fz(0 * a.tz[o]) + b.tz, fs(a.tss[o]) + b.tss
    else:
        if cfg["sym"] == "combination":
            tz = a.tz + b.tz
        else:
            tz = np.abs(fz(a.tz) - fz(0 * a.tz)) + b.tz
        ts = fs(a.tss) + b.tss
    if not ok.any():
        return c.skip("ill-conditioned")
    many = 30.0 if p.drift is not None else 3.0
    c.close("estimate", y[ok], fz(z)[ok], (many * tz + 1e-12 * np.abs(fz(z)))[ok])
    c.close("variance", u[ok], fs(s)[ok], (many * ts)[ok])
    c.out(z, y)


def valid(cfg):
    b, cls = cfg["backend"], cfg["cls"]
    if cfg["i"] >= COUNT[cfg["sym"]]:
        return False
    if b == "C" and (cls != "ok" or cfg["model"] in ("custom", "hole-effect")):
        return False
    if cfg["window"] and (cls not in ("ok", "ok3") or b == "vectorized"):
        return False
    if cfg["sym"] == "dyadic" and (cfg["geo"] or cfg["terms"] or cfg["aniso"] != "none"):
        return False
    if cfg["geo"] and (cls != "ok" or cfg["aniso"] != "none" or cfg["model"] in ("gaussian",)):
        return False
    if cfg["terms"] and not cls.startswith("uk"):
        return False
    if "pl" in cfg["terms"] or "ez" in cfg["terms"]:
        if cls != "uk":
            return False
    if cfg["sym"] == "order" and cfg["data"] not in ("n5",):
        return False
    if cfg["targets"] == "data" and cfg["aniso"] != "none" and cfg["sym"] == "shift" and cfg["i"] == 2:
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    models = list(ref.MODELS) + ["custom"]
    dev = dict(
        model=["exponential"] + [m for m in models if m != "exponential"],
        backend=["vectorized", "loop", "C"],
        params=["nug", "nonug", "big"],
        aniso=list(ANISO),
        terms=["", "rl1", "pl1", "ez1", "sp1", "fn1", "rl1+sp1"],
        window=[0, 3, 4],
        targets=["mid", "data", "mixed", "far"],
        exact=[True, False],
        pinv=["off", "pinv", "pinvh"],
        geo=[False, True],
        data=["n7", "n12", "n5", "k33", "k65"],
    )
    cls = ["ok", "uk", "ok3", "uk3"]
    others = [s for s in SYMS if s != "order"]
    return [
        Space("permutations", case, dict(cls=cls, sym=["order"], i=list(range(120))), dict(dev, data=["n5"]), bound=1, valid=valid) if not q else
        Space("permutations", case, dict(cls=cls, sym=["order"], i=list(range(120))),
              dict(dev, data=["n5"], model=["exponential", "linear"], params=["nug"], targets=["mixed"], exact=[True], pinv=["off"], terms=["", "rl1"]), bound=1, valid=valid),
        Space("permutations-settings", case, dict(cls=cls, sym=["order"], i=[1, 30, 77, 119]), dict(dev, data=["n5"]), bound=2, valid=valid),
        Space("symmetries", case, dict(cls=cls, sym=others, i=list(range(48))), dev, bound=1 if q else 2, valid=valid),
        Space("symmetries-pairs", case, dict(cls=cls, sym=others, i=[1, 3] if q else [0, 1, 2, 5]), dev, bound=2 if q else 3, valid=valid),
    ]
