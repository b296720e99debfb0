"""Drift terms for universal kriging: library arguments and reference functions."""
import functools
import itertools

import numpy as np

from . import data

LD = np.longdouble


def bilinear(gx, gy, G, P):
    """Bilinear interpolation on ascending axes (reference)."""
    gx, gy, G = (np.asarray(a, dtype=LD) for a in (gx, gy, G))
    out = []
    for x, y in np.asarray(P, dtype=LD)[:, :2]:
        if not (gx[0] <= x <= gx[-1] and gy[0] <= y <= gy[-1]):
            raise ValueError("outside")
        i = 0
        while i < len(gx) - 2 and x > gx[i + 1]:
            i += 1
        j = 0
        while j < len(gy) - 2 and y > gy[j + 1]:
            j += 1
        if len(gx) == 1:
            tx, i2 = LD(0), i
        else:
            tx, i2 = (x - gx[i]) / (gx[i + 1] - gx[i]), i + 1
        if len(gy) == 1:
            ty, j2 = LD(0), j
        else:
            ty, j2 = (y - gy[j]) / (gy[j + 1] - gy[j]), j + 1
        out.append(
            (1 - tx) * (1 - ty) * G[j, i] + tx * (1 - ty) * G[j, i2]
            + (1 - tx) * ty * G[j2, i] + tx * ty * G[j2, i2]
        )
    return np.array(out, dtype=LD)


def f_quad(*c):
    """Functional drifts work for two and three coordinates."""
    return 0.3 * c[0] ** 2 - 0.2 * c[-1] * c[0]


def f_wave(*c):
    return np.sin(0.7 * c[0]) + 0.1 * c[1] ** 2


def f_ramp(*c):
    return 0.2 * c[0] * c[1] + 0.05 * c[-1] ** 3


def f_bump(*c):
    return 1.0 / (1.0 + 0.1 * (c[0] - 2.0) ** 2 + 0.2 * c[-1] ** 2)


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, *c):
        return self.f(*c)

    def method(self, *c):
        return self.f(*c)


CALLS = {  # forms of a callable
    "function": lambda f, dim: f,
    "lambda": lambda f, dim: (lambda x, y: f(x, y)) if dim == 2 else (lambda x, y, z: f(x, y, z)),
    "other names": lambda f, dim: (lambda lat, lon: f(lat, lon)) if dim == 2 else (lambda u, v, w: f(u, v, w)),
    "partial": lambda f, dim: functools.partial(lambda g, *c: g(*c), f),
    "object": lambda f, dim: Callable(f),
    "method": lambda f, dim: Callable(f).method,
    "vectorize": lambda f, dim: np.vectorize(f, otypes=[float]),
    "float64 only": lambda f, dim: lambda *c: np.float64(f(*c)) if np.ndim(c[0]) == 0 else np.asarray(f(*c)),
    "list": lambda f, dim: lambda *c: f(*c) if np.ndim(c[0]) == 0 else list(f(*c)),
}


def s_one(P):
    return 0.05 * P[:, 0] ** 2 + np.cos(P[:, 1])


def s_two(P):
    return np.exp(-0.3 * P[:, 0]) - 0.2 * P[:, -1]


def s_three(P):
    return np.sin(0.9 * P[:, 1] + 0.4) * P[:, 0]


def s_four(P):
    return 1.0 / (2.5 + np.cos(0.6 * P[:, 0] - 0.8 * P[:, -1]))


def wells(kind, X, P):
    lo, w = X.min(axis=0)[:2], np.ptp(X, axis=0)[:2]
    gen = np.array([[0.31, 0.62, 1.5], [0.83, 0.21, -0.7], [1.4, -0.3, 0.4], [-0.2, 0.9, 2.5], [0.55, 1.3, -1.1], [0.1, 0.05, 0.6]])
    W = gen.copy()
    W[:, :2] = lo + gen[:, :2] * w
    if kind == "data":
        W[0, :2] = X[1][:2]
    elif kind == "target":
        W[0, :2] = P[0][:2]
    elif kind.startswith("beside"):  # next to a target and next to a data point
        W[0, :2] = P[0][:2] + np.array([float(kind[6:]), 0])
        W[1, :2] = X[1][:2] - np.array([0, float(kind[6:])])
    return W


def ext_grid(X, P, nx=5, ny=7):
    A = np.concatenate([X[:, :2], P[:, :2]])
    lo, hi = A.min(axis=0), A.max(axis=0)
    w = hi - lo + 1e-9
    tx = np.linspace(0, 1, nx) ** 1.3
    ty = np.linspace(0, 1, ny) ** 0.8
    gx = lo[0] - 0.1 * w[0] + 1.2 * w[0] * tx
    gy = lo[1] - 0.1 * w[1] + 1.2 * w[1] * ty
    G = np.sin(1.3 * np.arange(nx))[None, :] * 2 + 0.4 * (np.arange(ny) ** 1.5)[:, None] \
        + 0.3 * np.cos(np.outer(np.arange(ny), np.arange(nx)))
    return gx, gy, G


FORMS = {  # how drift inputs are given: representable values, and the container
    "float": (lambda a: a, lambda a: a),
    "int": (np.rint, lambda a: np.asarray(a).astype(int)),
    "int32": (np.rint, lambda a: np.asarray(a).astype(np.int32)),
    "list": (lambda a: a, lambda a: np.asarray(a).tolist()),
    "int list": (np.rint, lambda a: np.asarray(a).astype(int).tolist()),
    "float32": (lambda a: np.asarray(a, dtype=np.float32).astype(float), lambda a: np.asarray(a, dtype=np.float32)),
    "fortran": (lambda a: a, lambda a: np.asfortranarray(a)),
    "view": (lambda a: a, lambda a: np.repeat(np.asarray(a), 2, axis=0)[::2]),
    "readonly": (lambda a: a, lambda a: np.frombuffer(np.ascontiguousarray(a).tobytes()).reshape(np.shape(a))),
}


class Drift:
    """terms: dict(rl=0/1, pl=number of wells, ez=0/1, sp=number, fn=number)."""

    def __init__(self, dim, terms, X, P, well_kind="gen", order="normal", transposed=False, form="float", calls="function", scale=1.0):
        snap, wrap = FORMS[form]
        self.scale = scale
        self.dim = dim
        self.wrap = (lambda a: a) if "list" in form else wrap  # arrays are documented for execute
        self.kw = {}
        self.ref = []
        self.spec_fns = []
        names = []
        if terms.get("rl"):
            names.append("regional_linear")
            for k in range(dim):
                self.ref.append(lambda O, A, k=k: A[:, k])
        if terms.get("pl"):
            names.append("point_log")
            W = wells(well_kind, X, P)[: terms["pl"]]
            if "int" in form:
                W[:, 2] = np.where(W[:, 2] < 0, -2.0, 3.0)
            W[:, 2] *= scale
            W = snap(W)
            self.kw["point_drift"] = wrap(W)
            for w in W:
                self.ref.append(("well", w))
        if terms.get("ez"):
            names.append("external_Z")
            gx, gy, G = ext_grid(X, P)
            if form != "float":  # still covers everything
                gx, gy = (np.concatenate([[np.floor(g[0])], snap(g[1:-1]), [np.ceil(g[-1])]]) for g in (gx, gy))
                gx, gy = np.unique(gx), np.unique(gy)
                if len(gx) == len(gy):  # a square grid would not tell its orientation
                    gx = np.delete(gx, 1)
                G = snap(4.0 * G[: len(gy), : len(gx)])
            G = G * scale if scale != 1.0 else G
            self.kw["external_drift"] = wrap(G.T.copy() if transposed else G)
            self.kw["external_drift_x"] = wrap(gx)
            self.kw["external_drift_y"] = wrap(gy)
            self.ref.append(lambda O, A: bilinear(gx, gy, G, O))
        if terms.get("sp"):
            names.append("specified")
            self.spec_fns = [s_one, s_two, s_three, s_four][: terms["sp"]]
            if scale != 1.0:
                self.spec_fns = [lambda A, f=f: scale * np.asarray(f(A)) for f in self.spec_fns]
            if form != "float":
                self.spec_fns = [lambda A, f=f: snap(8.0 * np.asarray(f(A), dtype=float)) for f in self.spec_fns]
            self.kw["specified_drift"] = [wrap(f(X)) for f in self.spec_fns]
            for f in self.spec_fns:
                self.ref.append(lambda O, A, f=f: f(O))
        if terms.get("fn"):
            names.append("functional")
            fns = [f_quad, f_wave, f_ramp, f_bump][: terms["fn"]]
            if scale != 1.0:
                fns = [lambda *c, f=f: scale * f(*c) for f in fns]
            self.kw["functional_drift"] = [CALLS[calls](f, dim) for f in fns]
            for f in fns:
                self.ref.append(lambda O, A, f=f: f(*[A[:, k] for k in range(dim)]))
        if order == "reversed":
            names = names[::-1]
        elif order.startswith("order"):  # each of the permutations
            names = list(list(itertools.permutations(names))[int(order[5:])])
        self.kw["drift_terms"] = names
        self.count = len(self.ref)

    def reference(self, model_to_iso):
        """Drift functions; wells are put into the isotropic frame."""
        out = []
        for f in self.ref:
            if isinstance(f, tuple):
                w = np.asarray(f[1], dtype=LD)
                wa = model_to_iso(w[None, :2])[0]

                def g(O, A, w=w, wa=wa):
                    d = np.sqrt((A[:, 0] - wa[0]) ** 2 + (A[:, 1] - wa[1]) ** 2)
                    with np.errstate(divide="ignore"):
                        l = np.where(d > 0, np.log(d), LD(-100))
                    return -w[2] * l

                out.append(g)
            else:
                out.append(f)
        return out

    def exec_kw(self, P, shape=None):
        """specified_drift_arrays for the targets."""
        if not self.spec_fns:
            return {}
        arrs = [f(P) for f in self.spec_fns]
        if shape is not None:
            arrs = [a.reshape(shape) for a in arrs]
        arrs = [self.wrap(a) for a in arrs]
        return dict(specified_drift_arrays=arrs)
