"""P34: arguments left out, passed by name, or passed by position mean the same."""
import contextlib
import io
import os
import tempfile
import warnings

import numpy as np

from .. import data, lib
from .. import objects as ob
from ..drifts import Drift, f_quad
from ..engine import Space
from .p08 import PLACES

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all optional arguments of all public callables over several settings of the other arguments, left out, given as documented, by name and by position, on the real code"
ASSUMPTIONS = [
    "order and defaults of arguments are those of the documentation (and signatures) of the release",
    "effects are what a user observes: variogram, parameters, statistics, predictions, printed text, number of figures, written files, or the kind of error",
]
NOTE = "the number of calls whose outcome is changed by another value than the default is reported (non-vacuity)"

ANISO2 = [("anisotropy_scaling", 1.0), ("anisotropy_angle", 0.0)]
ANISO3 = [("anisotropy_scaling_y", 1.0), ("anisotropy_scaling_z", 1.0), ("anisotropy_angle_x", 0.0), ("anisotropy_angle_y", 0.0), ("anisotropy_angle_z", 0.0)]
HEAD = [("variogram_model", "linear"), ("variogram_parameters", None), ("variogram_function", None), ("nlags", 6), ("weight", False)]
FLAGS = [("verbose", False), ("enable_plotting", False)]
TAIL = [("exact_values", True), ("pseudo_inv", False), ("pseudo_inv_type", "pinv")]
DRIFT2 = [(a, None) for a in ("drift_terms", "point_drift", "external_drift", "external_drift_x", "external_drift_y", "specified_drift", "functional_drift")]
DRIFT3 = [(a, None) for a in ("drift_terms", "specified_drift", "functional_drift")]
SK = [("verbose", False), ("exact_values", True), ("pseudo_inv", False), ("pseudo_inv_type", "pinv"), ("variogram_parameters", None), ("variogram_function", None),
      ("anisotropy_scaling", (1.0, 1.0)), ("anisotropy_angle", (0.0, 0.0, 0.0)), ("enable_statistics", False), ("coordinates_type", "euclidean"),
      ("drift_terms", None), ("point_drift", None), ("ext_drift_grid", (None, None, None)), ("functional_drift", None)]

# optional arguments in their order, with their defaults
SIGNATURE = {
    "ok": HEAD + ANISO2 + FLAGS + [("enable_statistics", False), ("coordinates_type", "euclidean")] + TAIL,
    "uk": HEAD + ANISO2 + DRIFT2 + FLAGS + TAIL,
    "ok3": HEAD + ANISO3 + FLAGS + TAIL,
    "uk3": HEAD + ANISO3 + DRIFT3 + FLAGS + TAIL,
    "krige": [("method", "ordinary"), ("variogram_model", "linear"), ("nlags", 6), ("weight", False), ("n_closest_points", 10)] + SK,
    "rk": [("regression_model", "SVR"), ("method", "ordinary"), ("variogram_model", "linear"), ("n_closest_points", 10), ("nlags", 6), ("weight", False)] + SK,
    "ck": [("classification_model", "SVC"), ("method", "ordinary"), ("variogram_model", "linear"), ("n_closest_points", 10), ("nlags", 6), ("weight", False)] + SK,
    "asc": [("filename", "output.asc"), ("no_data", -999.0), ("style", 1)],
    "zmap": [("filename", "output.zmap"), ("no_data", -999.0), ("coord_sys", "<null>")],
    "read": [("footer", 0)],
}
for _c, _a in (("ok", ANISO2), ("uk", ANISO2), ("ok3", ANISO3), ("uk3", ANISO3)):
    # the model is required
    SIGNATURE["update-" + _c] = HEAD[1:] + _a
    SIGNATURE["execute-" + _c] = [("mask", None), ("backend", "vectorized"), ("n_closest_points" if _c[0] == "o" else "specified_drift_arrays", None)]
# order of the wrapped update is that of the constructor
CALLS = list(SIGNATURE)


def other(call, dim):
    """name -> a value that is not the default."""
    o = dict(variogram_model="exponential", nlags=4, weight=True, verbose=True, enable_plotting=True, enable_statistics=True,
             exact_values=False, pseudo_inv=True, pseudo_inv_type="pinvh", anisotropy_scaling=2.5, anisotropy_angle=35.0,
             anisotropy_scaling_y=2.5, anisotropy_scaling_z=0.7, anisotropy_angle_x=35.0, anisotropy_angle_y=-20.0, anisotropy_angle_z=60.0)
    o["variogram_parameters"] = [1.9, 3.0, 0.3]
    if call in ("krige", "rk", "ck"):
        o.update(anisotropy_scaling=(2.5, 0.7), anisotropy_angle=(35.0, -20.0, 60.0), n_closest_points=4)
        del o["enable_plotting"]
    return o


def with_drift(cls, X):
    t = dict(rl=1, pl=1, ez=1, sp=1, fn=1) if cls == "uk" else dict(rl=1, sp=1, fn=1)
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    return Drift(X.shape[1], t, X, np.array([lo - 0.5 * w, lo + 1.5 * w])).kw


def dim_of(call):
    return 3 if call.endswith("3") else 2


def coordinates(call, base):
    if base.endswith("geo"):
        return np.array(PLACES["spread"] + [[30.0, 30.0]])
    return data.coords("n9", dim_of(call)) + 0.25


def bases(call):
    """Settings of the arguments, by name."""
    dim = dim_of(call)
    kind = call.split("-")[0]
    o = other(call, dim)
    if kind in ("asc", "zmap", "read"):
        return {"none": {}, "all": {"asc": dict(filename="b.grd", no_data=-1.5, style=2), "zmap": dict(filename="b.grd", no_data=-1.5, coord_sys="UTM"), "read": dict(footer=2)}[kind]}
    if kind == "execute":
        return {"none": {}, "masked": dict(mask="mask"), "loop": dict(backend="loop"), "masked-loop": dict(mask="mask", backend="loop"),
                **({"window": dict(backend="loop", n_closest_points=4), "masked-window": dict(mask="mask", backend="loop", n_closest_points=4)} if call[8] == "o" else {"drift": dict(specified_drift_arrays="spec"), "masked-drift": dict(mask="mask", backend="loop", specified_drift_arrays="spec")}),
                **({"compiled": dict(backend="C", n_closest_points=5)} if call == "execute-ok" else {})}
    names = [n for n, d in SIGNATURE[call]]
    out = {"none": {}}
    full = {n: o[n] for n in names if n in o}
    auto = {n: v for n, v in full.items() if n != "variogram_parameters"}
    quiet = {n: v for n, v in full.items() if n not in ("verbose", "enable_plotting", "enable_statistics")}
    out["all"] = full
    out["automatic"] = auto
    out["quiet"] = quiet
    cus = dict(quiet, variogram_model="custom", variogram_parameters=[1.5, 3.0, 0.2], variogram_function=ob.custom_a)
    if kind == "update":
        cus.pop("variogram_model")
    out["custom"] = cus
    if call in ("uk", "uk3"):
        kw = with_drift(call, coordinates(call, ""))
        out["drift"] = dict(quiet, **kw)
        out["drift-only"] = dict(kw)
    if call in ("ok", "krige"):
        out["geo"] = {n: v for n, v in dict(auto, coordinates_type="geographic").items() if "anisotropy" not in n}
    if call in ("krige", "rk", "ck"):
        out["universal"] = dict(quiet, method="universal", drift_terms=["regional_linear", "functional"], functional_drift=[f_quad])
        X = coordinates(call, "")
        d = Drift(2, dict(pl=1, ez=1), X, np.array([X.min(axis=0) - 3, X.max(axis=0) + 3])).kw
        out["grids"] = dict(method="universal", drift_terms=["point_log", "external_Z"], point_drift=d["point_drift"],
                            ext_drift_grid=(d["external_drift"], d["external_drift_x"], d["external_drift_y"]))
        out["3D"] = dict(quiet, method="ordinary3d")
        out["universal-3D"] = dict(quiet, method="universal3d", drift_terms=["regional_linear"])
        if call == "rk":
            for b in list(out):
                out[b + "+model"] = dict(out[b], regression_model="Linear")
        if call == "ck":
            for b in list(out):
                out[b + "+model"] = dict(out[b], classification_model="NB")
    return out


def model(name):
    from sklearn.linear_model import LinearRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.svm import SVC, SVR

    return dict(SVR=SVR, SVC=SVC, Linear=LinearRegression, NB=GaussianNB)[name]()


def observed(call, base, pos, kw):
    """The outcome of a call with these optional arguments by position and by name."""
    import matplotlib.pyplot as plt

    plt.close("all")
    out = io.StringIO()
    X = coordinates(call, base.partition("+")[0])
    dim = X.shape[1]
    Z = data.values("v", len(X))
    kind, _, cls = call.partition("-")
    pos, kw = list(pos), dict(kw)
    o = {}
    try:
        with contextlib.redirect_stdout(out):
            if kind in ("ok", "uk", "ok3", "uk3"):
                k = lib.classes()[kind](*[c.copy() for c in X.T], Z.copy(), *pos, **kw)
                D = "specified_drift" in kw and kw["specified_drift"] is not None or any(isinstance(v, list) and len(v) and isinstance(v[0], np.ndarray) for v in pos)
                o.update(state(k, X, D))
            elif kind == "update":
                k = lib.make(cls, X, Z, model="power", params=[0.6, 1.2, 0.1], scaling=[1.7, 1.4][: dim - 1], angles=[10.0, 20.0, 30.0][: 1 if dim == 2 else 3])
                m = "custom" if base == "custom" else "exponential"
                k.update_variogram_model(m, *pos, **kw)
                o.update(state(k, X, False))
            elif kind == "execute":
                o.update(execute(cls, X, Z, base, pos, kw))
            elif kind in ("krige", "rk", "ck"):
                o.update(wrapped(kind, base, X, Z, pos, kw))
            else:
                o.update(files(kind, pos, kw))
    except Exception as e:
        return dict(error=type(e).__name__)
    o["printed"] = out.getvalue() if kind not in ("asc", "zmap", "read") else ""
    o["figures"] = str(len(plt.get_fignums()))
    plt.close("all")
    return o


def state(k, X, drift):
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    P = lo + np.array([[0.3, 0.6, 0.2], [0.8, 0.1, 0.7], [0.45, 0.95, 0.5]])[:, : X.shape[1]] * w
    P = np.concatenate([P, X[2:3]])
    st = [np.nan if v is None else float(v) for v in k.get_statistics()]
    o = dict(lags=np.array(k.lags, float), semivariance=np.array(k.semivariance, float), parameters=np.array([float(v) for v in k.variogram_model_parameters]),
             model=str(k.variogram_model), statistics=np.array(st))
    z, s = lib.run_points(k, P, **(dict(specified_drift_arrays=[ob.spec(P)]) if drift else {}))
    o["estimate"], o["variance"] = np.array(z), np.array(s)
    return o


def execute(cls, X, Z, base, pos, kw):
    dim = X.shape[1]
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    axes = [lo[i] + np.array([0.2, 0.9, 0.5])[: 3 - i % 2] * w[i] for i in range(dim)]
    G, shape = lib.grid_points(axes)
    values = {"mask": (np.arange(len(G)) % 3 == 1).reshape(shape), "spec": [ob.spec(G).reshape(shape)]}
    pos = [values[v] if isinstance(v, str) and v in values else v for v in pos]
    kw = {n: values[v] if isinstance(v, str) and v in values else v for n, v in kw.items()}
    extra = {}
    if "drift" in base:
        t = dict(drift_terms=["specified"], specified_drift=[ob.spec(X)])
        extra = t
    k = lib.make(cls, X, Z, model="exponential", params=[1.9, 3.0, 0.3], scaling=[1.7, 1.4][: dim - 1], **extra)
    o = {}
    for style in ("masked",) if "masked" in base else ("grid", "masked"):
        try:
            z, s = k.execute(style, *[a.copy() for a in axes], *pos, **kw)
        except (ValueError, IOError) as e:
            o[style] = type(e).__name__
            continue
        m = np.ma.getmaskarray(z)
        o[style + " mask"] = m.astype(float)
        o[style], o[style + " variance"] = np.array(np.ma.getdata(z)[~m]), np.array(np.ma.getdata(s)[~m])
    return o


def wrapped(kind, base, X, Z, pos, kw):
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging

    if "3D" in base:
        X = data.coords("n9", 3) + 0.25
        Z = data.values("v", len(X))
    names = ("SVR", "SVC", "Linear", "NB")
    pos = [model(v) if isinstance(v, str) and v in names else v for v in pos]
    kw = {n: model(v) if isinstance(v, str) and v in names else v for n, v in kw.items()}
    P = np.stack([X[:, 0] ** 2, np.sin(X[:, 1])], axis=1)
    lab = np.arange(len(X)) * 7 % 3
    Q, PQ = X[:4] + 0.3, P[:4] + 0.1
    n = X.shape[1]
    if len(X) <= 10:
        # room for the default of n_closest_points
        more = X + 0.37 * (1 + np.arange(n))
        X, Z = np.concatenate([X, more]), np.concatenate([Z, Z[::-1] + 0.5])
        P = np.stack([X[:, 0] ** 2, np.sin(X[:, 1])], axis=1)
        lab = np.arange(len(X)) * 7 % 3
    o = {}
    if kind == "krige":
        m = Krige(*pos, **kw)
        m.fit(X, Z)
        o["prediction"] = np.array(m.predict(Q))
        if "universal" not in base and "grids" not in base:
            pts = dict(zip(["xpoints", "ypoints", "zpoints"], Q.T.copy()))
            o["window"] = np.array(m.execute(pts, backend="loop")[0])
        kr = m.model
        if hasattr(kr, "get_statistics"):
            o["statistics"] = np.array([np.nan if v is None else float(v) for v in kr.get_statistics()])
            o["parameters"] = np.array([float(v) for v in kr.variogram_model_parameters])
    else:
        C = RegressionKriging if kind == "rk" else ClassificationKriging
        m = C(*pos, **kw)
        m.fit(P, X, Z if kind == "rk" else lab)
        o["prediction"] = np.array(m.predict(PQ, Q)).astype(float)
        o["residual"] = np.array(m.krige_residual(Q)).astype(float)
    return o


def files(kind, pos, kw):
    import pykrige.kriging_tools as kt

    x, y = np.arange(4) * 2.0 + 1, np.arange(3) * 2.0 - 5
    z = np.ma.array(np.arange(12.0).reshape(3, 4) - 4, mask=np.arange(12).reshape(3, 4) % 5 == 0)
    here = os.getcwd()
    o = {}
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            if kind == "read":
                kt.write_asc_grid(x, y, z, filename="t")
                text = open("t").read()
                with open("t", "w") as f:
                    f.write(text.rstrip("\n") + "".join("\n%d %d %d %d" % (i, i, i, i) for i in range(sum(pos) + sum(kw.values()))) + "\n")
                r = kt.read_asc_grid("t", *pos, **kw)
                o["grid"] = np.concatenate([np.ravel(np.asarray(v, float)) for v in r[:3]] + [[float(v) for v in np.ravel(r[3])], [float(r[4])]])
            else:
                (kt.write_asc_grid if kind == "asc" else kt.write_zmap_grid)(x, y, z, *pos, **kw)
                for n in sorted(os.listdir(".")):
                    # the zmap header has the time of creation
                    o["file " + n] = "\n".join(t for t in open(n).read().split("\n") if "TIME" not in t and "DATE" not in t)
        finally:
            os.chdir(here)
    return o


def equal(c, what, got, want):
    c.true(sorted(got) == sorted(want), "%s: %s, otherwise %s" % (what, got.get("error", sorted(got)), want.get("error", sorted(want))))
    for n in want:
        if n not in got:
            continue
        g, w = got[n], want[n]
        if isinstance(w, str) or isinstance(g, str):
            c.true(isinstance(g, str) and isinstance(w, str) and g == w, "%s: %s is %r, otherwise %r" % (what, n, g, w))
        else:
            c.close("%s: %s" % (what, n), g, w, 1e-9 * max(1e-6, float(np.nanmax(np.abs(w))) if w.size and not np.isnan(w).all() else 1.0))


def differ(a, b):
    if sorted(a) != sorted(b):
        return True
    return any(not (a[n] == b[n] if isinstance(a[n], str) or isinstance(b[n], str) else a[n].shape == b[n].shape and np.array_equal(a[n], b[n], equal_nan=True)) for n in a)


_SEEN = {}


def seen(call, base, pos, kw):
    key = (call, base, len(pos), tuple(kw), repr([v for v in list(pos) + list(kw.values())])) if not any(callable(v) or isinstance(v, (np.ndarray, list, tuple)) for v in list(pos) + list(kw.values())) else None
    if key is None:
        return observed(call, base, pos, kw)
    if key not in _SEEN:
        _SEEN[key] = observed(call, base, pos, kw)
    return _SEEN[key]


def argument(c, cfg):
    """One argument: left out, and given as its default."""
    call, base, name = cfg["call"], cfg["base"], cfg["argument"]
    if base not in bases(call) or name not in dict(SIGNATURE[call]):
        return c.skip("no such argument")
    B = bases(call)[base]
    default = dict(SIGNATURE[call])[name]
    without = {n: v for n, v in B.items() if n != name}
    a = seen(call, base, (), without)
    b = seen(call, base, (), dict(without, **{name: default}))
    equal(c, "%s (%s): %s left out instead of %r" % (call, base, name, default), a, b)
    if name in B:
        c.count("other values than the default")
        if differ(seen(call, base, (), B), a):
            c.count("other values with another outcome")
    c.out(*[v for n, v in sorted(a.items())])


def positions(c, cfg):
    """The first arguments by position."""
    call, base, n = cfg["call"], cfg["base"], cfg["n"]
    if base not in bases(call) or n > len(SIGNATURE[call]):
        return c.skip("no such argument")
    B = bases(call)[base]
    S = SIGNATURE[call]
    want = seen(call, base, (), B)
    # (the default classifier has no probabilities)
    c.true("error" not in want or call == "ck" and "model" not in base, "%s (%s): %s" % (call, base, want.get("error")))
    given = dict(S)
    given.update(B)
    pos = [given[m] for m, d in S[:n]]
    rest = {m: v for m, v in B.items() if m not in [q for q, d in S[:n]]}
    equal(c, "%s (%s): first %d arguments by position" % (call, base, n), observed(call, base, pos, rest), want)
    c.out(*[v for m, v in sorted(want.items())])


def required(c, cfg):
    """Coordinates and values by position and by name."""
    cls, n = cfg["cls"], cfg["n"]
    X = data.coords("n9", lib.dim_of(cls)) + 0.25
    Z = data.values("v", len(X))
    dim = X.shape[1]
    names = ["x", "y", "z"] if dim == 2 else ["x", "y", "z", "val"]
    if n > len(names):
        return c.skip("no such argument")
    vals = [X[:, i].copy() for i in range(dim)] + [Z]
    C = lib.classes()[cls]
    kw = dict(variogram_model="exponential", variogram_parameters=[1.9, 3.0, 0.3])
    want = state(C(*vals, **kw), X, False)
    k = c.ok("construct", lambda: C(*vals[:n], **dict(zip(names[n:], vals[n:])), **kw))
    equal(c, "%s with %d required arguments by position" % (cls, n), state(k, X, False), want)
    P = X[:4] + 0.2
    if cfg["m"] <= dim + 1:
        pn = ["style", "xpoints", "ypoints", "zpoints"][: dim + 1]
        pv = ["points"] + [P[:, i].copy() for i in range(dim)]
        m = cfg["m"]
        z, s = c.ok("execute", lambda: k.execute(*pv[:m], **dict(zip(pn[m:], pv[m:]))))
        w, v = k.execute(*pv)
        c.close("estimate", z, w, 1e-9)
        c.close("variance", s, v, 1e-9)
        c.out(z, s)
    # the model of an update, by name
    k.update_variogram_model(variogram_model="linear")
    k2 = C(*vals, variogram_model="linear", **(dict(enable_statistics=True) if cls == "ok" else {}))
    equal(c, "update by name", state(k, X, False), state(k2, X, False))


RULE = "the smallest number of arguments whose position or default matters"


def spaces(tier):
    args = []
    for s in SIGNATURE.values():
        for n, d in s:
            if n not in args:
                args.append(n)
    base = []
    for call in CALLS:
        for b in bases(call):
            if b not in base:
                base.append(b)
    many = max(len(s) for s in SIGNATURE.values())
    ok = lambda g: g["base"] in bases(g["call"])
    pairs = {call: set(bases(call)) for call in CALLS}
    has = {call: dict(SIGNATURE[call]) for call in CALLS}
    return [
        Space("argument", argument, dict(call=CALLS, base=base, argument=args), valid=lambda g: g["base"] in pairs[g["call"]] and g["argument"] in has[g["call"]]),
        Space("positions", positions, dict(call=CALLS, base=base, n=list(range(1, many + 1))), valid=lambda g: g["base"] in pairs[g["call"]] and g["n"] <= len(SIGNATURE[g["call"]])),
        Space("required", required, dict(cls=["ok", "uk", "ok3", "uk3"], n=[0, 1, 2, 3, 4], m=[0, 1, 2, 3, 4])),
    ]
