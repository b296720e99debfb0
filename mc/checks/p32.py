"""P32: results depend on the arguments only, and calls leave no traces in the process."""
import atexit
import contextlib
import gc
import io
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import traceback
import warnings

import numpy as np

from .. import data, lib
from ..drifts import Drift
from ..engine import Space
from .p01 import ANISO

NEEDS_EXT = True
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of histories of the process (all ordered pairs of uses that differ in one argument or are unrelated, by way of ending the first use; one use after all others) and of its surroundings; every use is executed in a forked pristine process, the oracle is the same use in a process that did nothing before"
ASSUMPTIONS = [
    "results are compared with a tolerance of 1e-7 (1e-5 for fitted variograms)",
    "surroundings are those named in SURROUNDINGS and INTERPRETERS",
]


# ------------------------------------------------------------------ uses
def cust(factor):
    """Different functions of the same name."""
    def model(p, d):
        return factor * p[0] * d / (d + p[1]) + p[2]

    return model


def trend(factor):
    def f(*c):
        return factor * c[0] ** 2 - 0.3 * c[-1] * factor

    return f


PARAMS = {
    "linear": [0.4, 0.2], "power": [0.4, 1.3, 0.2], "gaussian": [2.0, 2.5, 0.4], "spherical": [2.0, 5.0, 0.3],
    "exponential": [2.0, 4.0, 0.3], "hole-effect": [2.0, 3.0, 0.4],
}
DEFAULT = dict(data="n9", values="v", model="exponential", params="a", aniso="none", exact=True, pinv="", terms="rl1", request="points-vectorized",
               targets="mixed", window=0, nlags=6, stats=False, weight=False, mask=0, form="list", fn=1.0, scale=1.0)
DEVIATIONS = dict(
    data=["n7", "n12", "moved", "order"], values=["shift", "neg", "zeros", "same sum", "same sum reversed"], fit=["same sum", "same sum reversed", "shift", "neg"],
    model=["linear", "power", "gaussian", "spherical", "hole-effect", "custom", "custom2", "auto", "auto-spherical", "gstools", "gstools2"],
    params=["b", "c"], aniso=["s3a30", "s2", "a45", "s.4a-75"], exact=[False], pinv=["pinv", "pinvh"],
    terms=["", "rl1+fn1", "sp1", "sp2", "pl1", "pl2", "ez1", "rl1+pl1+ez1+sp1+fn1"],
    request=["points-loop", "points-C", "grid-vectorized", "grid-loop", "masked-vectorized", "masked-loop", "grid-C", "masked-C"], targets=["mid", "data", "far"],
    window=[3, 4, 9], cwindow=[4], nlags=[4], stats=[True], weight=[True], mask=[1], form=["dict"], fn=[2.0], scale=[2.0],
)
CLASSES = ["ok", "ok-geo", "uk", "ok3", "uk3"]


def uses(cls):
    """name -> configuration; all that differ from the default in one place."""
    base = cls.split("-")[0]
    out = {"": dict(DEFAULT)}
    for k, vs in DEVIATIONS.items():
        for v in vs:
            g = dict(DEFAULT, **{k: v})
            if k in ("terms", "fn") and not base.startswith("uk"):
                continue
            if base == "uk3" and isinstance(v, str) and ("pl" in v or "ez" in v) and k == "terms":
                continue
            if k == "fn":
                g["terms"] = "rl1+fn1"
            if k == "scale":  # values of the external drift, strength of the wells, specified values
                g["terms"] = {"uk": "pl1+ez1+sp1", "uk3": "sp1"}.get(base, "")
            if k == "mask":
                g["request"] = "masked-loop"
            if k == "cwindow":
                if base != "ok":
                    continue
                g["window"], g["request"] = v, "points-C"
            if k == "window":
                if not base.startswith("ok"):
                    continue
                g["request"] = "points-loop"
            if k == "request" and v.endswith("-C") and base != "ok":
                continue
            if k == "aniso" and cls == "ok-geo":
                continue
            if k == "stats" and cls not in ("ok", "ok-geo"):
                continue
            if cls == "ok-geo" and v in ("power", "gaussian", "hole-effect"):
                continue
            if k in ("nlags", "weight"):
                g["model"] = "auto"
            if k == "fit":  # other values, fitted automatically
                g["model"], g["values"] = "auto-linear", v
            out["%s=%s" % (k, v)] = g
    return out


RECYCLE = {}  # arrays that are used again and again


def cell(name, a, how):
    """The array, or a recycled one that now holds its values."""
    a = np.array(a, dtype=float)
    if how != "recycled":
        return a
    b = RECYCLE.get((name, a.shape))
    if b is None:
        RECYCLE[(name, a.shape)] = b = a
    b[...] = a
    return b


class Use:
    """One use of a kriging class; go() may be repeated."""

    def __init__(self, cls, g, how="fresh"):
        self.cls, self.g, self.how = cls, g, how
        base = self.base = cls.split("-")[0]
        dim = lib.dim_of(base)
        X = data.coords(g["data"] if g["data"] not in ("moved", "order") else "n9", dim)
        if g["values"].startswith("same sum"):  # exact numbers: sums do not depend on the order
            Z = np.round(data.values("v", len(X)) * 8) / 8
            Z = Z[::-1].copy() if g["values"].endswith("reversed") else Z
        else:
            Z = data.values(g["values"], len(X))
        if g["data"] == "order":
            X, Z = X[::-1].copy(), Z[::-1].copy()
        if g["data"] == "moved":
            X[2] += 0.4
        P = data.targets(data.coords("n9", dim), g["targets"])
        if cls == "ok-geo":
            X, P = X * 20 - 60, np.clip(P * 20 - 60, -89, 300)
            P[:, 1] = np.clip(P[:, 1], -89, 89)
        self.style, backend = g["request"].split("-")
        kw = dict(nlags=g["nlags"], weight=g["weight"], exact_values=g["exact"])
        model = g["model"]
        L = 30.0 if cls == "ok-geo" else 1.0
        if model.startswith("custom"):
            kw.update(variogram_model="custom", variogram_function=cust(1.0 if model == "custom" else 1.8), variogram_parameters=[1.5, 2.0 * L, 0.2])
        elif model.startswith("auto"):
            kw.update(variogram_model=model[5:] or "exponential")
        elif model.startswith("gstools"):
            import gstools as gs

            d = dict(latlon=True) if cls == "ok-geo" else dict(dim=dim, anis=[0.6] * (dim - 1), angles=[0.3] * (1 if dim == 2 else 3))
            kw.update(variogram_model=gs.Exponential(var=1.3 if model == "gstools" else 0.7, len_scale=0.8 if cls == "ok-geo" else 2.0, nugget=0.2, **d))
        else:
            p = list(PARAMS[model])
            f = {"a": 1.0, "b": 1.7, "c": 0.6}[g["params"]]
            p[0] *= f
            if len(p) == 3 and model != "power":
                p[1] *= f * L
            if g["form"] == "dict":
                p = {"linear": lambda: dict(slope=p[0], nugget=p[1]), "power": lambda: dict(scale=p[0], exponent=p[1], nugget=p[2])}.get(model, lambda: dict(psill=p[0], range=p[1], nugget=p[2]))()
            kw.update(variogram_model=model, variogram_parameters=p)
        sc, an = ANISO[g["aniso"]]
        if cls == "ok-geo":
            kw["coordinates_type"] = "geographic"
        else:
            kw.update(lib.aniso_kwargs(dim, None if sc is None else sc[: dim - 1], None if an is None else an[: 1 if dim == 2 else 3]))
        if g["pinv"]:
            kw.update(pseudo_inv=True, pseudo_inv_type=g["pinv"])
        if g["stats"]:
            kw["enable_statistics"] = True
        ek = dict(backend=backend)
        if g["window"]:
            ek["n_closest_points"] = g["window"]
        if self.style == "points":
            ax, G, shape = list(P.T.copy()), P, None
        else:
            ax = [P[: 4 - i, i].copy() for i in range(dim)]
            G, shape = lib.grid_points(ax)
        if base.startswith("uk") and g["terms"]:
            t = {s[:2]: int(s[2:]) for s in g["terms"].split("+")}
            D = Drift(dim, t, X, G)
            d = dict(D.kw)
            if "functional_drift" in d:
                d["functional_drift"] = [trend(g["fn"])]
            e = D.exec_kw(G, shape)
            for a in ("external_drift", "external_drift_x", "external_drift_y", "point_drift"):
                if a in d:
                    d[a] = cell(a, d[a], how)
            if "external_drift" in d:
                d["external_drift"][1:3] *= g["scale"]
            if "point_drift" in d and t.get("pl") == 2:
                d["point_drift"][0, 2] *= g["scale"]
            if "specified_drift" in d:
                f = g["scale"] + 0.0
                d["specified_drift"] = [cell("sp%d" % i, np.asarray(a) ** 2 if f != 1 else a, how) for i, a in enumerate(d["specified_drift"])]
                e["specified_drift_arrays"] = [cell("sa%d" % i, np.asarray(a) ** 2 if f != 1 else a, how) for i, a in enumerate(e["specified_drift_arrays"])]
            kw.update(d)
            ek.update(e)
        if self.style == "masked":
            m = (np.arange(len(G)) % 3 == 1) if g["mask"] == 0 else (np.arange(len(G)) % 4 == 2)
            ek["mask"] = m.reshape(shape)
        self.X = [cell("x%d" % i, X[:, i], how) for i in range(dim)]
        self.Z = cell("z", Z, how)
        self.axes = [cell("p%d" % i, a, how) for i, a in enumerate(ax)]
        self.kw, self.ek = kw, ek
        self.k = None
        self.tol = 1e-5 if model.startswith("auto") else 1e-7

    def go(self):
        if self.k is None:
            self.k = lib.classes()[self.base](*self.X, self.Z, **self.kw)
        k = self.k
        z, s = k.execute(self.style, *self.axes, **self.ek)
        out = [np.asarray(np.ma.getdata(z), float), np.asarray(np.ma.getdata(s), float)]
        if isinstance(z, np.ma.MaskedArray):
            m = np.ma.getmaskarray(z)
            out = [a[~m] for a in out] + [m.astype(float)]
        out += [np.asarray(k.lags, float), np.asarray(k.semivariance, float), np.asarray(k.variogram_model_parameters, float) if k.variogram_model_parameters is not None else np.zeros(0)]
        for n in ("delta", "sigma", "epsilon"):
            v = getattr(k, n)
            if v is not None:
                out.append(np.asarray(v, float))
        return out


class Other:
    """Uses of the remaining parts of the library."""

    tol = 1e-5

    def __init__(self, name, how="fresh"):
        self.name, self.how, self.first = name, how, None

    def go(self):
        with contextlib.redirect_stdout(io.StringIO()) if self.name.startswith(("krige", "rk", "ck")) else contextlib.nullcontext():
            return getattr(self, self.name.split("-")[0])(*self.name.split("-")[1:])

    def krige(self, method, change=""):
        from pykrige.compat import Krige

        dim = 3 if method.endswith("3d") else 2
        X = data.coords("n12", dim)
        y = data.values("v", 12) + (np.arange(12) if change == "y" else 0)
        if self.first is None:
            kw = dict(method=method, variogram_model="exponential", variogram_parameters=[2.0, 4.0 if change != "range" else 2.0, 0.3], n_closest_points=5 if change != "window" else 7)
            self.first = Krige(**kw)
            self.first.fit(cell("kx", X, self.how), cell("ky", y, self.how))
        return [np.asarray(self.first.predict(cell("kp", data.targets(X, "mixed"), self.how)), float)]

    def rk(self, method, change=""):
        from pykrige.rk import RegressionKriging
        from sklearn.linear_model import LinearRegression

        dim = 3 if method.endswith("3d") else 2
        X = data.coords("n12", dim)
        y = data.values("v", 12) + (np.arange(12) ** 2 if change == "y" else 0)
        P = data.targets(X, "mixed")
        f = lambda A: np.stack([A[:, 0] ** 2, A[:, 1]], 1)
        if self.first is None:
            self.first = RegressionKriging(LinearRegression(), method=method, variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.3], n_closest_points=5)
            self.first.fit(cell("rp", f(X), self.how), cell("kx", X, self.how), cell("ky", y, self.how))
        return [np.asarray(self.first.predict(f(P), cell("kp", P, self.how)), float)]

    def ck(self, method, change=""):
        from pykrige.ck import ClassificationKriging
        from sklearn.naive_bayes import GaussianNB

        dim = 3 if method.endswith("3d") else 2
        X = data.coords("n40", dim)
        y = np.arange(40) % (3 if change != "classes" else 4)
        P = data.targets(X, "mixed")
        f = lambda A: np.stack([A[:, 0] ** 2, A[:, 1]], 1)
        if self.first is None:
            self.first = ClassificationKriging(GaussianNB(), method=method, variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.3], n_closest_points=5)
            self.first.fit(f(X), cell("kx", X, self.how), y)
        return [np.asarray(self.first.predict(f(P), cell("kp", P, self.how)), float)]

    def file(self, kind, change=""):
        from pykrige import kriging_tools as kt

        d = tempfile.mkdtemp(prefix="mc-p32-")
        try:
            n = {"shape": 6, "wide": 1200}.get(change, 4)
            x, y = np.arange(n) * 0.5, np.arange(3) * 0.5
            z = np.sin(np.arange(3 * n)).reshape(3, n) * (1 if change != "values" else 7)
            m = np.ma.array(z, mask=np.arange(3 * n).reshape(3, n) % 5 == (1 if change != "mask" else 2))
            p = os.path.join(d, "g")
            nd = -999.0 if change != "nodata" else -1.0
            if kind == "zmap":
                kt.write_zmap_grid(x, y, m, filename=p, no_data=nd)
                r = kt.read_zmap_grid(p)
                text = [l for l in open(p).read().split("\n") if not l.startswith("!")]
            else:
                kt.write_asc_grid(x, y, m, filename=p, no_data=nd, style=int(kind))
                r = kt.read_asc_grid(p)
                text = open(p).read().split("\n")
            self.text = text
            return [np.asarray(v, float) for v in r[:3]] + [np.array([float(len("\n".join(text)))]), np.frombuffer("\n".join(text[4:]).encode(), np.uint8).astype(float)]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def functions(self, change=""):
        from pykrige import core, variogram_models as vm

        d = np.linspace(0, 7, 9) * (1 if change == "" else 1.3)
        out = [f([1.5, 3.0 if change == "" else 2.0, 0.2], d) for f in (vm.power_variogram_model, vm.gaussian_variogram_model, vm.spherical_variogram_model, vm.exponential_variogram_model, vm.hole_effect_variogram_model)]
        out.append(vm.linear_variogram_model([2.0, 0.3], d))
        out.append(core.great_circle_distance(d * 20, d * 5, 10.0, -20.0 if change == "" else 30.0))
        return [np.asarray(v, float) for v in out]

    def show(self, change=""):
        """Verbose and plotting uses."""
        import matplotlib.pyplot as plt

        X, Z = data.coords("n9", 2), data.values("v", 9)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            k = lib.make("ok", X, Z, "exponential", [2.0, 4.0, 0.3], verbose=True, enable_plotting=True, enable_statistics=True)
            k.print_statistics()
            k.plot_epsilon_residuals()
            k.switch_verbose()
        plt.close("all")
        z, s = lib.run_points(k, data.targets(X, "mixed"))
        return [z, s]

    def rejected(self, what=""):
        """Uses that end with an error."""
        X, Z = data.coords("n9", 2), data.values("v", 9)
        k = lib.make("ok", X, Z, "exponential", [2.0, 4.0, 0.3])
        try:
            if what == "model":
                k.update_variogram_model("nonsense")
            elif what == "style":
                k.execute("nonsense", X[:, 0], X[:, 1])
            elif what == "callback":
                def bad(p, d):
                    raise RuntimeError("bad")
                lib.make("ok", X, Z, "custom", [1.0], variogram_function=bad)
            elif what == "singular":
                XX = X.copy()
                XX[1] = XX[0]
                lib.run_points(lib.make("ok", XX, Z, "linear", [1.0, 0.0]), X + 0.1, backend="vectorized")
            elif what == "plot":
                lib.make("ok", X, Z, "linear", [1.0], verbose=True)
        except Exception:
            pass
        z, s = lib.run_points(k, data.targets(X, "mixed"))
        return [z, s]


OTHERS = ["krige-%s%s" % (m, c) for m in ("ordinary", "universal", "ordinary3d", "universal3d") for c in ("", "-y", "-range", "-window")] \
    + ["rk-%s%s" % (m, c) for m in ("ordinary", "universal3d") for c in ("", "-y")] + ["ck-%s%s" % (m, c) for m in ("ordinary", "universal3d") for c in ("", "-classes")] \
    + ["file-%s%s" % (k, c) for k in ("zmap", "1", "2") for c in ("", "-shape", "-values", "-mask", "-nodata", "-wide")] + ["functions", "functions-b", "show"] \
    + ["rejected-%s" % w for w in ("model", "style", "callback", "singular", "plot")]


PLAIN = [o for o in OTHERS if o.count("-") == (0 if o == "show" else 1) and o != "functions-b"] + ["functions"]


def make(name, how="fresh"):
    """A use by name: class:deviation or a name of OTHERS."""
    if ":" in name:
        cls, dev = name.split(":", 1)
        return Use(cls, uses(cls)[dev], how)
    return Other(name, how)


def names():
    return ["%s:%s" % (c, d) for c in CLASSES for d in uses(c)] + OTHERS


# ------------------------------------------------------------------ processes
def forked(fn):
    """The result of a function in a forked process."""
    return start(fn)()


def start(fn):
    """Forks; the returned function waits for the result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("error", "%s: %s (%s)" % (type(e).__name__, str(e)[:300], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:])))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)

    def result():
        with os.fdopen(r, "rb") as f:
            b = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not b:
            return ("error", "the process ended with status %d" % st)
        return pickle.loads(b)

    return result


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def preload():
    """Only imports: nothing of the library is used in this process."""
    import gstools  # noqa
    import matplotlib.pyplot  # noqa
    import pykrige.ck  # noqa
    import pykrige.lib.cok  # noqa
    import pykrige.rk  # noqa
    import sklearn.linear_model  # noqa
    import sklearn.naive_bayes  # noqa

    if not gc.get_freeze_count():
        gc.collect()
        gc.freeze()  # forked processes need not go through these


ALONE = {}


def prepare():
    """Results of all uses in processes that do nothing else."""
    preload()
    L = [n for n in names() if n not in ALONE]
    parts = [L[i::8] for i in range(8)]
    todo = [start(lambda: {n: forked(lambda: quiet(lambda: make(n).go())) for n in part}) for part in parts if part]
    for t in todo:
        st, r = t()
        if st == "ok":
            ALONE.update(r)


def alone(c, name, how="fresh"):
    if name not in ALONE:
        preload()
        ALONE[name] = forked(lambda: quiet(lambda: make(name).go()))
    r = ALONE[name]
    c.true(r[0] == "ok", "%s alone: %s" % (name, r[1]))
    return r[1] if r[0] == "ok" else None


def equal(c, what, got, want, tol):
    c.true(len(got) == len(want), "%s: %d results instead of %d" % (what, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        if np.shape(a) != np.shape(b):
            c.fail("%s: result %d has shape %s instead of %s" % (what, i, np.shape(a), np.shape(b)))
        else:
            c.close("%s: result %d" % (what, i), a, b, tol * (1 + np.abs(np.nan_to_num(b)).max() if np.size(b) else 1))


def pair(c, cfg):
    """A use after another one."""
    p, q, mode = cfg["first"], cfg["then"], cfg["mode"]
    preload()
    want, wp = alone(c, q), alone(c, p)
    if want is None or wp is None:
        return

    def run():
        if mode == "recycled":
            a = make(p, "recycled")
            ra = a.go()
            del a
            gc.collect()
            return make(q, "recycled").go(), ra
        a = make(p)
        ra = a.go()
        if mode == "ended":
            del a
            gc.collect()
            return make(q).go(), ra
        b = make(q)
        rb = b.go()
        return rb, a.go()  # still alive, and used again

    st, r = forked(lambda: quiet(run))
    c.impl_runs += 2
    c.true(st == "ok", "%s after %s: %s" % (q, p, r))
    if st != "ok":
        return
    equal(c, "%s after %s" % (q, p), r[0], want, make_tol(q))
    equal(c, "%s around %s" % (p, q), r[1], wp, make_tol(p))
    c.out(*want)


def make_tol(name):
    if ":" in name and "model=auto" not in name and "fit=" not in name and "nlags" not in name and "weight" not in name:
        return 1e-7
    return 1e-5


MIXED = []


def walk(c, cfg):
    """A use before and after every other one, in one process."""
    f, mode = cfg["first"], cfg["mode"]
    L = MIXED if cfg["among"] == "mixed" else ["%s:%s" % (cfg["among"], d) for d in uses(cfg["among"])]
    seq = [n for t in L for n in (f, t)] + [f]
    want = {n: alone(c, n) for n in set(seq)}

    def run():
        out, keep = [], {}
        for n in seq:
            u = keep.get(n) or make(n, "recycled" if mode == "recycled" else "fresh")
            if mode == "alive":
                keep[n] = u
            out.append(u.go())
        return out

    st, r = forked(lambda: quiet(run))
    c.impl_runs += len(seq)
    c.true(st == "ok", "walk around %s: %s" % (f, r))
    if st != "ok":
        return
    for i, n in enumerate(seq):
        if want[n] is not None:
            equal(c, "%s (use %d, after %s)" % (n, i, seq[i - 1] if i else "nothing"), r[i], want[n], make_tol(n))
    c.out(*want[f])


def chain(c, cfg):
    """All uses one after another, beginning at some point."""
    L = names()
    i = cfg["start"]
    L = L[i:] + L[:i]
    if cfg["order"] == "reversed":
        L = L[::-1]
    want = {n: alone(c, n) for n in L}

    def run():
        out = {}
        keep = []
        for n in L:
            u = make(n, "recycled" if cfg["mode"] == "recycled" else "fresh")
            out[n] = u.go()
            if cfg["mode"] == "alive":
                keep.append(u)
        return out

    st, r = forked(lambda: quiet(run))
    c.true(st == "ok", "chain: %s" % (r,))
    if st != "ok":
        return
    for n in L:
        if want[n] is not None:
            equal(c, n, r[n], want[n], make_tol(n))
        c.impl_runs += 1
    c.out(*want[L[-1]])


# --------------------------------------------------------------- surroundings
def _filters(kind):
    warnings.simplefilter(kind)


class Broken:
    """An output that must not be used."""

    encoding = "ascii"

    def write(self, s):
        raise OSError("broken output: %r" % s)

    def flush(self):
        pass


def _called(kind, flag):
    pass


def _out(v):
    sys.stdout = v


LOCALE = []  # directory with a locale that groups digits and has decimal commas


def german_locale():
    if not LOCALE:
        d = tempfile.mkdtemp(prefix="mc-p32-")
        me = os.getpid()
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == me else None)
        try:
            rc = subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(d, "de_DE.UTF-8")], capture_output=True).returncode
        except OSError:
            rc = 1
        LOCALE.append(d if rc == 0 or os.path.isdir(os.path.join(d, "de_DE.UTF-8")) else None)
    return LOCALE[0]


def _german():
    import locale

    os.environ["LOCPATH"] = german_locale()
    locale.setlocale(locale.LC_ALL, "de_DE.UTF-8")


SURROUNDINGS = {
    "german": _german,
    "random 0": lambda: (np.random.seed(0), random.seed(0)),
    "random 1": lambda: (np.random.seed(12345), random.seed(1)),
    "errors ignored": lambda: np.seterr(all="ignore"),
    "errors warned": lambda: np.seterr(all="warn"),
    "errors called": lambda: (np.seterrcall(_called), np.seterr(divide="call", over="call", under="ignore", invalid="call")),
    "warnings ignored": lambda: _filters("ignore"),
    "warnings always": lambda: _filters("always"),
    "print 1 digit": lambda: np.set_printoptions(precision=1, threshold=3, edgeitems=1, linewidth=20, suppress=True),
    "print legacy": lambda: np.set_printoptions(legacy="1.13"),
    "other directory": lambda: os.chdir("/"),
    "no output": lambda: _out(None),
    "broken output": lambda: _out(Broken()),
    "no garbage collection": lambda: gc.disable(),
    "small buffer": lambda: np.setbufsize(1024),
    "time zone": lambda: os.environ.update(TZ="Pacific/Auckland"),
    "home": lambda: os.environ.update(HOME="/nonexistent", TMPDIR="/nonexistent"),
    "thread": None,
    "forked": None,
}


def state():
    """Global state that calls must leave alone."""
    import decimal
    import locale
    import logging

    r = np.random.get_state()
    return dict(
        errors=np.geterr(), errcall=repr(np.geterrcall()), random=(r[0], r[1].tobytes(), r[2:]), pyrandom=random.getstate(), filters=[(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters],
        printing=repr(np.get_printoptions()), cwd=os.getcwd(), environ=dict(os.environ), path=list(sys.path), buffer=np.getbufsize(),
        stdout=id(sys.stdout), stderr=id(sys.stderr), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
        locale=locale.setlocale(locale.LC_ALL), threads=sorted(t.name for t in threading.enumerate()), decimal=repr(decimal.getcontext()), gc=gc.isenabled(),
        files=sorted(os.listdir(".")), descriptors=sorted(os.listdir("/proc/self/fd")), logging=(logging.root.level, len(logging.root.handlers)), umask=_umask(),
        hook=(id(sys.excepthook), id(sys.displayhook)), trace=(sys.gettrace(), sys.getprofile()))


def changes(a, b):
    return {k: (str(a[k])[:200], str(b[k])[:200]) for k in a if a[k] != b[k]}


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def surroundings(c, cfg):
    name, kind = cfg["use"], cfg["in"]
    want = alone(c, name)
    if want is None:
        return
    if kind == "german" and german_locale() is None:
        return c.skip("no localedef")
    if kind == "broken output" and (name.startswith(("show", "krige", "rk", "ck")) or name == "rejected-plot"):
        return c.skip("prints")

    def run():
        d = tempfile.mkdtemp(prefix="mc-p32-")
        try:
            return inner(d)
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def inner(d):
        os.chdir(d)
        if kind == "thread":
            out = []

            def body():
                try:
                    out.append(quiet(lambda: make(name).go()))
                except BaseException as e:
                    out.append(e)
            t = threading.Thread(target=body)
            t.start()
            t.join()
            if isinstance(out[0], BaseException):
                raise out[0]
            return out[0], {}
        if kind == "forked":
            s, r = forked(lambda: quiet(lambda: make(name).go()))
            if s != "ok":
                raise RuntimeError(r)
            return r, {}
        u = make(name)
        first = state()
        quiet(lambda: make(name).go())  # loads what is loaded on demand
        first = changes(first, state())
        SURROUNDINGS[kind]()
        if kind == "other directory":
            os.chdir(d)
            os.mkdir("sub")
            os.chdir("sub")
        elif kind != "home":
            os.chdir(d)
        if kind in ("home",) and name.startswith("file"):
            os.environ.pop("TMPDIR")
            tempfile.tempdir = "/tmp"
        a = state()
        # the filters stay as they are, but nothing is shown
        show = warnings._showwarnmsg_impl
        warnings._showwarnmsg_impl = lambda m: None
        try:
            r = u.go()
        finally:
            warnings._showwarnmsg_impl = show
        b = state()
        return r, dict(first, **changes(a, b))

    st, r = forked(run)
    c.impl_runs += 1
    c.true(st == "ok", "%s with %s: %s" % (name, kind, r))
    if st != "ok":
        return
    equal(c, "%s with %s" % (name, kind), r[0], want, make_tol(name))
    for k, (x, y) in r[1].items():
        c.fail("%s changes the %s of the process: %s becomes %s" % (name, k, x, y))
    c.comparisons += 20
    c.out(*want)


INTERPRETERS = {
    "hash 1": ([], dict(PYTHONHASHSEED="1")),
    "hash 2": ([], dict(PYTHONHASHSEED="2")),
    "hash 77": ([], dict(PYTHONHASHSEED="77")),
    "optimized": (["-O"], {}),
    "no docstrings": (["-OO"], {}),
    "development": (["-X", "dev"], {}),
    "C locale": ([], dict(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")),
    "utf8": (["-X", "utf8"], {}),
    "one thread": ([], dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")),
    "four threads": ([], dict(OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="4")),
    "no assertions, bytes": (["-O", "-b"], {}),
}

MAIN = """
import sys, pickle, os
sys.path[:0] = %r
import warnings
warnings.simplefilter("ignore")
from mc.checks import p32
p32.serve(%r)
"""


def serve(L):
    """Body of another interpreter: every use in a process of its own."""
    import hashlib  # noqa

    preload()
    out = {n: forked(lambda: quiet(lambda: make(n).go())) for n in L}
    sys.stdout.buffer.write(b"BEGIN" + pickle.dumps(out))
    sys.stdout.flush()


def interpreters(c, cfg):
    flags, env = INTERPRETERS[cfg["in"]]
    L = names()
    import pykrige

    place = os.path.dirname(os.path.dirname(os.path.abspath(pykrige.__file__)))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable] + flags + ["-c", MAIN % ([place, root], L)], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", **env), capture_output=True, cwd="/")
    c.impl_runs += len(L)
    i = p.stdout.find(b"BEGIN")
    c.true(p.returncode == 0 and i >= 0, "interpreter %s: %s" % (cfg["in"], p.stderr[-400:]))
    if i < 0:
        return
    out = pickle.loads(p.stdout[i + 5 :])
    for n in L:
        want = alone(c, n)
        st, r = out[n]
        c.true(st == "ok", "%s in interpreter %s: %s" % (n, cfg["in"], r))
        if st == "ok" and want is not None:
            equal(c, "%s in interpreter %s" % (n, cfg["in"]), r, want, make_tol(n))
    c.out(cfg["in"], *want)


def spaces(tier):
    q = tier == "quick"
    prepare()
    german_locale()
    out = []
    for cls in CLASSES:
        mine = ["%s:%s" % (cls, d) for d in uses(cls)]
        out.append(Space("pairs of " + cls, pair, dict(first=mine, then=mine, mode=["ended", "recycled", "alive"]),
                         valid=lambda v: not q or (v["first"].endswith(":") or v["then"].endswith(":")) and v["mode"] != "ended"))
        out.append(Space("walks of " + cls, walk, dict(first=mine, mode=["recycled"] if q else ["ended", "recycled", "alive"], among=[cls])))
    few = ["%s:%s" % (c, d) for c in CLASSES for d in ("", "request=points-loop", "model=auto", "values=neg", "model=custom") if d in uses(c)]
    MIXED[:] = few + OTHERS
    out += [
        Space("pairs of classes", pair, dict(first=few, then=few, mode=["ended", "recycled", "alive"]),
              valid=lambda v: not q or v["mode"] == "recycled" and v["first"].endswith(":") and v["then"].endswith(":")),
        Space("pairs of others", pair, dict(first=OTHERS, then=OTHERS, mode=["ended", "recycled", "alive"]),
              valid=lambda v: not q or v["first"].split("-")[:2] == v["then"].split("-")[:2] and v["mode"] != "ended"),
        Space("others and classes", pair, dict(first=OTHERS + few, then=OTHERS + few, mode=["alive", "ended"]),
              valid=lambda v: ((":" in v["first"]) != (":" in v["then"])) and (not q or v["mode"] == "alive" and v["first"] in PLAIN and v["then"].endswith(":"))),
        Space("mixed walks", walk, dict(first=few + OTHERS, mode=["recycled"] if q else ["ended", "recycled", "alive"], among=["mixed"])),
        Space("chains", chain, dict(start=[0, 77, 150] if q else list(range(0, len(names()), 5)), order=["forward", "reversed"], mode=["ended", "recycled", "alive"])),
        Space("surroundings", surroundings, {"use": names(), "in": list(SURROUNDINGS)}, valid=lambda v: not q or v["use"].endswith(":") or v["use"] in PLAIN or ":" in v["use"] and v["in"] in ("random 1", "errors called", "broken output") or v["use"].endswith("-wide") and v["in"] == "german"),
        Space("interpreters", interpreters, {"in": list(INTERPRETERS), "uses": ["all"]}, valid=lambda v: not q or v["in"] not in ("development", "utf8", "hash 77", "no docstrings")),
    ]
    return out
