"""Objects under test for the history explorers: settings, requests, observations."""
import hashlib

import numpy as np

from . import data, lib
from .drifts import Drift, f_quad

CLASSES = ["ok", "ok-geo", "uk", "uk3", "ok3", "uk-all", "uk3-all"]


def base_of(cls):
    return cls.split("-")[0]


def custom_a(p, d):
    return p[0] * (1 - np.exp(-d / p[1])) + p[2]


def custom_b(p, d):
    return p[0] * np.sqrt(d) + p[1]


def gst(name, dim):
    import gstools as gs

    if name == "exp":
        return gs.Exponential(dim=dim, var=1.3, len_scale=2.1, anis=[0.5] * (dim - 1) if dim > 1 else 1.0,
                              angles=[0.4] if dim == 2 else [0.4, 0.2, -0.3], nugget=0.15)
    if name == "sph":
        return gs.Spherical(dim=dim, var=0.8, len_scale=4.0, nugget=0.3)
    if name == "latlon":
        return gs.Exponential(latlon=True, var=1.3, len_scale=0.9, nugget=0.15)
    if name == "wrong":
        return gs.Exponential(dim=5 - dim, var=1.0, len_scale=1.0)
    raise KeyError(name)


def settings(cls):
    """name -> keyword arguments of a variogram setting (constructor form)."""
    dim = lib.dim_of(base_of(cls))
    L = 6.0 if cls != "ok-geo" else 90.0
    an1 = dict(scaling=[2.5, 0.7][: dim - 1], angles=[35.0, -20.0, 60.0][: 1 if dim == 2 else 3])
    an2 = dict(scaling=[2.5, 0.7][: dim - 1])
    an3 = dict(angles=[-50.0, 15.0, 10.0][: 1 if dim == 2 else 3])
    s = {
        "lin": dict(model="linear", params=[0.7 / L * 3, 0.2]),
        "exp-an": dict(model="exponential", params=[1.9, 0.6 * L, 0.3], **an1),
        "sph-auto": dict(model="spherical", nlags=4, weight=True),
        "pow-dict": dict(model="power", params=dict(scale=0.6, exponent=1.2, nugget=0.1)),
        "cus-a": dict(model="custom", params=[1.5, 0.5 * L, 0.2], variogram_function=custom_a),
        "cus-b": dict(model="custom", params=[0.8, 0.1], variogram_function=custom_b, **an1),
        "gau-sc": dict(model="gaussian", params=[2.0, 0.5 * L, 0.2], **an2),
        "lin-auto-rot": dict(model="linear", nlags=5, **an3),
        "gst": dict(model=gst("latlon" if cls == "ok-geo" else "exp", dim)),
        "gst-iso": dict(model=gst("latlon" if cls == "ok-geo" else "sph", dim)),
    }
    return s


def data_of(cls):
    if cls == "ok-geo":
        from .checks.p08 import PLACES

        X = np.array(PLACES["spread"] + [[30.0, 30.0]])
    else:
        X = data.coords("n9", lib.dim_of(base_of(cls))) + 0.25
    return X, data.values("v", len(X))


def drift_kwargs(cls, X=None, P=None):
    if not cls.endswith("-all"):
        return Drift(2, dict(rl=1), data_of(cls)[0], data_of(cls)[0]).kw if base_of(cls) in ("uk", "uk3") else {}
    X = data_of(cls)[0]
    dim = X.shape[1]
    t = dict(rl=1, pl=1, ez=1, sp=1, fn=1) if dim == 2 else dict(rl=1, sp=1, fn=1)
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    box = np.array([lo - 0.5 * w, lo + 1.5 * w])
    return Drift(dim, t, X, box).kw


def spec(P):
    return 0.05 * P[:, 0] ** 2 + np.cos(P[:, 1])


def construct(cls, s, **more):
    X, Z = data_of(cls)
    kw = dict(s)
    kw.update(drift_kwargs(cls))
    kw.update(more)
    if cls == "ok-geo":
        kw["coordinates_type"] = "geographic"
        kw.pop("scaling", None)
        kw.pop("angles", None)
    return lib.make(base_of(cls), X, Z, **kw)


def update(cls, k, s, ignored=False):
    """ignored: anisotropy is passed on for geographic coordinates, too (and ignored there)."""
    u = dict(s)
    model = u.pop("model")
    if "params" in u:
        u["variogram_parameters"] = u.pop("params")
    dim = lib.dim_of(base_of(cls))
    sc, an = u.pop("scaling", None), u.pop("angles", None)
    if cls != "ok-geo" or ignored:
        u.update(lib.aniso_kwargs(dim, sc, an))
    k.update_variogram_model(model, **u)


def requests(cls):
    """name -> function(k) that executes a request."""
    X, Z = data_of(cls)
    dim = X.shape[1]
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    P = lo + np.array([[0.3, 0.6, 0.2], [0.8, 0.1, 0.7], [0.45, 0.95, 0.5]])[:, :dim] * w
    P = np.concatenate([P, X[2:3]])
    axes = [lo[i] + np.array([0.2, 0.9, 0.5])[: 3 - i % 2] * w[i] for i in range(dim)]
    G, shape = lib.grid_points(axes)
    mask = (np.arange(len(G)) % 3 == 1).reshape(shape)
    sp = cls.endswith("-all")
    ep = (lambda: dict(specified_drift_arrays=[spec(P)])) if sp else dict
    eg = (lambda: dict(specified_drift_arrays=[spec(G).reshape(shape)])) if sp else dict
    out = {
        "points": lambda k: lib.run_points(k, P, **ep()),
        "loop": lambda k: lib.run_points(k, P, backend="loop", **ep()),
        "grid": lambda k: k.execute("grid", *[a.copy() for a in axes], **eg()),
        "masked": lambda k: k.execute("masked", *[a.copy() for a in axes], mask=mask.copy(), **eg()),
        "masked-loop": lambda k: k.execute("masked", *[a.copy() for a in axes], mask=mask.copy(), backend="loop", **eg()),
    }
    if base_of(cls) in ("ok", "ok3"):
        out["window"] = lambda k: lib.run_points(k, P, backend="loop", n_closest_points=4)
    return out


def observe(cls, k, names=None):
    """Everything a user sees: parameters, statistics, predictions."""
    o = {}
    o["lags"] = np.array(k.lags, dtype=float)
    o["semivariance"] = np.array(k.semivariance, dtype=float)
    o["parameters"] = np.array([float(v) for v in k.variogram_model_parameters])
    o["model"] = str(k.variogram_model)
    st = k.get_statistics()
    o["statistics"] = np.array([np.nan if v is None else float(v) for v in st])
    e = k.get_epsilon_residuals()
    o["epsilon"] = np.array([np.nan]) if e is None else np.array(e, dtype=float)
    for a in ("delta", "sigma"):
        v = getattr(k, a)
        o[a] = np.array([np.nan]) if v is None else np.array(v, dtype=float)
    if hasattr(k, "get_variogram_points"):
        o["variogram points"] = np.array(k.get_variogram_points()[1], dtype=float)
    for n, f in requests(cls).items():
        if names is None or n in names:
            z, s = f(k)
            o["z:" + n] = np.ma.filled(np.ma.masked_invalid(z).astype(float), -9e99) if isinstance(z, np.ma.MaskedArray) else np.array(z)
            o["s:" + n] = np.ma.filled(np.ma.masked_invalid(s).astype(float), -9e99) if isinstance(s, np.ma.MaskedArray) else np.array(s)
    return o


def compare(c, what, got, want, exact=False):
    """Observations must agree (bitwise or up to rounding)."""
    for key in want:
        if key not in got:
            c.fail("%s: %s missing" % (what, key))
            continue
        g, w = got[key], want[key]
        if isinstance(w, str) or exact:
            c.same("%s: %s" % (what, key), g, w)
        else:
            scale = np.nanmax(np.abs(np.where(np.abs(w) > 1e90, 0, w))) if np.size(w) and not np.isnan(w).all() else 1.0
            c.close("%s: %s" % (what, key), g, w, 1e-8 * max(scale, 1e-6) + 1e-12)


def _feed(h, v, depth=0):
    if depth > 6:
        return
    if isinstance(v, np.ndarray):
        h.update(str(v.dtype).encode() + str(v.shape).encode())
        if v.dtype == object:
            for x in v.ravel():
                _feed(h, x, depth + 1)
        else:
            h.update(np.ascontiguousarray(np.ma.getdata(v)).tobytes())
            if isinstance(v, np.ma.MaskedArray):
                h.update(np.ma.getmaskarray(v).tobytes())
    elif isinstance(v, (list, tuple)):
        h.update(b"[%d" % len(v))
        for x in v:
            _feed(h, x, depth + 1)
    elif isinstance(v, dict):
        for key in sorted(v, key=str):
            h.update(str(key).encode())
            _feed(h, v[key], depth + 1)
    elif isinstance(v, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        h.update(repr(v).encode())
    elif callable(v):
        h.update(getattr(v, "__qualname__", type(v).__name__).encode())
    else:
        h.update(type(v).__name__.encode())
        d = getattr(v, "__dict__", None)
        if d:
            _feed(h, d, depth + 1)


def digest(k):
    """Digest of the whole state of an object (used to merge states only)."""
    h = hashlib.blake2b(digest_size=12)
    _feed(h, k.__dict__)
    return h.hexdigest()


class Boom(Exception):
    """Raised by a user callback."""


def raising(f, n):
    """A callback that fails at its n-th call (never for n=0)."""
    calls = [0]

    def g(*a):
        calls[0] += 1
        if calls[0] == n:
            raise Boom("callback")
        return f(*a)

    g.calls = calls
    return g


def bad_updates(cls):
    """name -> function(k): calls of update_variogram_model that must fail."""
    dim = lib.dim_of(base_of(cls))
    L = 6.0 if cls != "ok-geo" else 90.0
    if cls == "ok-geo":
        an = {}
    else:
        an = lib.aniso_kwargs(dim, [3.0, 0.5][: dim - 1], [70.0, 10.0, -5.0][: 1 if dim == 2 else 3])
    u = {
        "unknown model": dict(variogram_model="lineal", **an),
        "model none": dict(variogram_model=None, **an),
        "short list": dict(variogram_model="exponential", variogram_parameters=[1.0, 2.0], **an),
        "long list": dict(variogram_model="linear", variogram_parameters=[1.0, 2.0, 3.0], **an),
        "missing key": dict(variogram_model="power", variogram_parameters=dict(scale=1.0, exponent=1.2), **an),
        "missing sill": dict(variogram_model="gaussian", variogram_parameters=dict(range=L, nugget=0.1), **an),
        "bad container": dict(variogram_model="linear", variogram_parameters="1,2", **an),
        "custom without function": dict(variogram_model="custom", variogram_parameters=[1.0, L, 0.1], **an),
        "custom without parameters": dict(variogram_model="custom", variogram_function=custom_a, **an),
        "custom not callable": dict(variogram_model="custom", variogram_parameters=[1.0], variogram_function=3, **an),
        "custom dictionary": dict(variogram_model="custom", variogram_parameters=dict(a=1), variogram_function=custom_a, **an),
        "custom failing": dict(variogram_model="custom", variogram_parameters=[1.0, L, 0.1],
                               variogram_function=raising(custom_a, 1), **an),
        "custom failing late": dict(variogram_model="custom", variogram_parameters=[1.0, L, 0.1],
                                    variogram_function=raising(custom_a, 4), **an),
        "custom singular": dict(variogram_model="custom", variogram_parameters=[0.0],
                                variogram_function=lambda p, d: 0.0 * d, **an),
        "text parameters": dict(variogram_model="linear", variogram_parameters=["a", "b"], **an),
        "no lags": dict(variogram_model="spherical", nlags=0, **an),
        "text lags": dict(variogram_model="linear", nlags="six", **an),
        "text anisotropy": dict(variogram_model="linear", variogram_parameters=[1.0, 0.1],
                                **{("anisotropy_scaling" if dim == 2 else "anisotropy_scaling_z"): "two"}),
        "gst dimension": dict(variogram_model=gst("wrong", dim), **an),
    }
    if cls != "ok-geo":
        u["gst latlon"] = dict(variogram_model=gst("latlon", 2), **an)
    if cls == "ok-geo":
        u.pop("text anisotropy")
    return {n: (lambda k, kw=kw: k.update_variogram_model(**_fresh(kw))) for n, kw in u.items()}


def _fresh(kw):
    kw = dict(kw)
    f = kw.get("variogram_function")
    if hasattr(f, "calls"):
        f.calls[0] = 0
    return kw


def bad_runs(cls):
    """name -> function(k): calls of execute that must fail."""
    X, Z = data_of(cls)
    dim = X.shape[1]
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    axes = [lo[i] + np.array([0.2, 0.9, 0.5])[: 3 - i % 2] * w[i] for i in range(dim)]
    shape = tuple(len(a) for a in axes[::-1])
    P = lo + np.array([[0.3, 0.6, 0.2], [0.8, 0.1, 0.7]])[:, :dim] * w
    pts = [P[:, i] for i in range(dim)]
    sp = cls.endswith("-all")
    ep = dict(specified_drift_arrays=[spec(P)]) if sp else {}
    G, _ = lib.grid_points(axes)
    eg = dict(specified_drift_arrays=[spec(G).reshape(shape)]) if sp else {}
    r = {
        "unknown style": lambda k: k.execute("gird", *axes, **eg),
        "unknown backend": lambda k: k.execute("points", *pts, backend="cuda", **ep),
        "masked without mask": lambda k: k.execute("masked", *axes, **eg),
        "mask shape": lambda k: k.execute("masked", *axes, mask=np.zeros(tuple(n + 1 for n in shape), bool), **eg),
        "point lengths": lambda k: k.execute("points", pts[0], pts[1][:1], *pts[2:], **ep),
        "text points": lambda k: k.execute("points", "abc", *pts[1:], **ep),
        "missing argument": lambda k: k.execute("points", pts[0]),
    }
    if base_of(cls) in ("ok", "ok3"):
        for n in (0, 1, -2, len(X) + 1):
            r["window %d" % n] = lambda k, n=n: k.execute("points", *pts, backend="loop", n_closest_points=n)
        r["window backend"] = lambda k: k.execute("points", *pts, backend="vectorized", n_closest_points=3)
        r["window unknown backend"] = lambda k: k.execute("points", *pts, backend="x", n_closest_points=3)
    if sp:
        r["drift missing"] = lambda k: k.execute("points", *pts)
        r["drift not a list"] = lambda k: k.execute("points", *pts, specified_drift_arrays=spec(P))
        r["drift too many"] = lambda k: k.execute("points", *pts, specified_drift_arrays=[spec(P), spec(P)])
        r["drift length"] = lambda k: k.execute("points", *pts, specified_drift_arrays=[spec(P)[:1]])
        r["drift shape"] = lambda k: k.execute("grid", *axes, specified_drift_arrays=[spec(G)])
        if dim == 2:
            far = [p + 100 * w[i] for i, p in enumerate(pts)]
            r["outside of the external drift"] = lambda k: k.execute("points", *far, **ep)
            r["outside, loop"] = lambda k: k.execute("points", *far, backend="loop", **ep)
    return r
