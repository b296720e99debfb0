"""The size axis: numbers of data points and of targets around powers of two.

Everything else is fixed to well-conditioned systems, so a plain double
precision reference suffices.
"""
import numpy as np

from . import data, lib, ref
from .drifts import Drift

TARGETS = [1, 2, 3, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000,
           1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5001, 8191, 8192, 8193, 10000, 10001, 16383,
           16384, 16385, 32769, 65535, 65536, 65537]
MORE = [100001, 131071, 131072, 131073, 262145]
POINTS = [2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200,
          201, 255, 256, 257]
MANY = [399, 400, 401, 499, 500, 501, 511, 512, 513]
HUGE = [999, 1000, 1001, 1023, 1024, 1025]


def kron(n, dim, shift=0.0):
    """Low-discrepancy points in the unit cube; no two of them are close."""
    g = {2: 1.32471795724474602596, 3: 1.22074408460575947536}[dim]
    a = np.array([g ** -(i + 1) for i in range(dim)])
    return (0.5 + shift + np.arange(1, n + 1)[:, None] * a) % 1.0


def field(n, dim, geographic=False):
    U = kron(n, dim)
    if geographic:
        return U * np.array([360.0, 160.0]) + np.array([-180.0, -80.0])
    return U * np.array([20.0, 30.0, 15.0])[:dim]


def values(n):
    return 3.0 * np.sin(np.arange(n) * 1.7) + 0.1 * (np.arange(n) % 11)


def split(m, dim):
    """Axis lengths of a grid of about m nodes (at least m where possible)."""
    if dim == 2:
        a = max(1, int(np.floor(np.sqrt(m))))
        return [a, max(1, -(-m // a))]
    a = max(1, int(round(m ** (1 / 3))))
    b = max(1, int(np.sqrt(m / a)))
    return [a, b, max(1, -(-m // (a * b)))]


def grid(axes):
    if len(axes) == 2:
        y, x = np.meshgrid(axes[1], axes[0], indexing="ij")
        return np.stack([x.ravel(), y.ravel()], axis=1), (len(axes[1]), len(axes[0]))
    z, y, x = np.meshgrid(axes[2], axes[1], axes[0], indexing="ij")
    return np.stack([x.ravel(), y.ravel(), z.ravel()], axis=1), (len(axes[2]), len(axes[1]), len(axes[0]))


def dist(A, B, geographic):
    if geographic:
        return np.asarray(ref.sphere(A, B), dtype=float)
    d2 = np.zeros((len(A), len(B)))
    for k in range(A.shape[1]):
        d2 += (A[:, k][:, None] - B[:, k][None, :]) ** 2
    return np.sqrt(d2)


def plain(X, Z, model, p, P, geographic=False, drifts=(), chunk=20000):
    """Double precision kriging; drifts are functions of coordinates."""
    n = len(Z)
    gam = lambda d: np.asarray(ref.vario(model, p, d), dtype=float)
    q = len(drifts)
    A = np.zeros((n + q + 1, n + q + 1))
    A[:n, :n] = -gam(dist(X, X, geographic))
    A[np.arange(n), np.arange(n)] = 0.0
    for j, f in enumerate(drifts):
        A[:n, n + j] = A[n + j, :n] = f(X)
    A[:n, n + q] = A[n + q, :n] = 1.0
    z, s = [], []
    for i in range(0, len(P), chunk):
        Q = P[i : i + chunk]
        D = dist(Q, X, geographic)
        B = np.ones((n + q + 1, len(Q)))
        B[:n] = np.where(D <= 1e-10, 0.0, -gam(D)).T
        for j, f in enumerate(drifts):
            B[n + j] = f(Q)
        W = np.linalg.solve(A, B)
        z.append(Z @ W[:n])
        s.append(-(W * B).sum(axis=0))
    return np.concatenate(z), np.concatenate(s)


def spec(P):
    return 0.05 * P[:, 0] ** 2 + np.cos(P[:, 1])


def linear_drift(*x):
    return 0.1 * x[0] * x[1]


def case(c, cfg):
    """cfg: cls, n, m, request."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    n, m = cfg["n"], cfg["m"]
    X, Z = field(n, dim, geographic), values(n)
    model, p = cfg.get("model", "exponential"), [1.7, 40.0 if geographic else 8.0, cfg.get("nugget", 0.3)]
    lst = [p[0] + p[2], p[1], p[2]]
    style, backend = cfg["request"].split("-")
    kw, drifts = {}, []
    if geographic:
        kw["coordinates_type"] = "geographic"
    spec_kw = lambda P, shape=None: {}
    if base.startswith("uk") and n > 8:
        kw.update(drift_terms=["regional_linear", "specified", "functional"], specified_drift=[spec(X)],
                  functional_drift=[linear_drift])
        drifts = [lambda Q, i=i: Q[:, i] for i in range(dim)] + [spec, lambda Q: linear_drift(*Q.T)]
        spec_kw = lambda P, shape=None: dict(specified_drift_arrays=[spec(P) if shape is None else spec(P).reshape(shape)])
    k = c.ok("construct", lambda: lib.make(base, X, Z, model=model, params=lst, **kw))
    lo, w = X.min(axis=0), np.maximum(np.ptp(X, axis=0), 1.0)
    u = slice(None)
    if style == "points":
        P = lo + w * (1.1 * kron(m, dim, 0.3) - 0.05)
        if m > 2:
            P[[0, m // 2, m - 1]] = X[[0, n // 2, n - 1]]
        if geographic:
            P[:, 1] = np.clip(P[:, 1], -90, 90)
        z, s = c.ok("execute", lambda: lib.run_points(k, P, backend=backend, **spec_kw(P)))
        shape = (m,)
    else:
        axes = [lo[i] + w[i] * (0.01 + 0.97 * np.arange(e) / e) for i, e in enumerate(split(m, dim))]
        P, shape = grid(axes)
        kk = spec_kw(P, shape)
        if style == "masked":
            mask = (np.arange(len(P)) % 5 == 1).reshape(shape)
            kk["mask"] = mask
            u = ~mask.ravel()
        z, s = c.ok("execute", lambda: k.execute(style, *axes, backend=backend, **kk))
    if np.shape(z) != shape or np.shape(s) != shape:
        return c.fail("shape %s/%s instead of %s" % (np.shape(z), np.shape(s), shape))
    rz, rs = plain(X, Z, model, p, P[u], geographic, drifts)
    t = 1e-7 if model == "exponential" else 1e-6
    c.close("estimate", np.ma.getdata(z).ravel()[u], rz, t)
    c.close("variance", np.ma.getdata(s).ravel()[u], rs, t)
    c.out(float(len(rz)), n, rz[:3], rs[-3:])


def window(c, cfg):
    """Moving windows; cfg: cls, n, m, k, backend."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    n, m, kn = cfg["n"], cfg["m"], cfg["k"]
    X, Z = field(n, dim, geographic), values(n)
    p = [1.7, 40.0 if geographic else 8.0, 0.3]
    kw = dict(coordinates_type="geographic") if geographic else {}
    k = c.ok("construct", lambda: lib.make(base, X, Z, model="exponential", params=[p[0] + p[2], p[1], p[2]], **kw))
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    P = lo + w * (1.1 * kron(m, dim, 0.3) - 0.05)
    P[[0, m // 2, m - 1]] = X[[0, n // 2, n - 1]]
    z, s = c.ok("execute", lambda: lib.run_points(k, P, backend=cfg["backend"], n_closest_points=kn))
    gam = lambda d: np.asarray(ref.vario("exponential", p, d), dtype=float)
    XX = dist(X, X, geographic)
    for i in range(0, m, 500):
        D = dist(P[i : i + 500], X, geographic)
        o = np.argsort(D, axis=1, kind="stable")
        sel = o[:, :kn]
        b = len(D)
        if kn < n:
            r = np.take_along_axis(D, o[:, kn - 1 : kn + 1], axis=1)
            sure = r[:, 1] - r[:, 0] > 1e-9 * (1 + r[:, 1])
        else:
            sure = np.ones(b, bool)
        c.count("ambiguous windows", int((~sure).sum()))
        A = np.ones((b, kn + 1, kn + 1))
        A[:, :kn, :kn] = -gam(XX[sel[:, :, None], sel[:, None, :]])
        A[:, np.arange(kn + 1), np.arange(kn + 1)] = 0.0
        d = np.take_along_axis(D, sel, axis=1)
        B = np.ones((b, kn + 1))
        B[:, :kn] = np.where(d <= 1e-10, 0.0, -gam(d))
        W = np.linalg.solve(A, B[:, :, None])[:, :, 0]
        c.close("estimate", z[i : i + 500][sure], (W[:, :kn] * Z[sel]).sum(axis=1)[sure], 1e-7)
        c.close("variance", s[i : i + 500][sure], -(W * B).sum(axis=1)[sure], 1e-7)
    c.out(float(m), z[:3], s[-3:])


SHAPES2 = [(1, 4097), (4097, 1), (2, 2049), (2049, 2), (3, 1025), (1025, 3), (64, 64), (63, 65), (65, 63), (100, 100), (128, 33), (33, 128),
           (257, 16), (16, 257), (500, 10), (10, 501), (256, 256), (255, 257), (1000, 66)]
SHAPES3 = [(1, 1, 2049), (2049, 1, 1), (1, 2049, 1), (16, 16, 16), (17, 16, 15), (15, 17, 16), (2, 3, 513), (513, 2, 3), (3, 513, 2), (33, 1, 65),
           (65, 33, 1), (1, 65, 33), (40, 41, 42)]


def modes(c, cfg):
    """One large grid as grid, points, chunks of points and masked; cfg: cls, shape (axis lengths), backend."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    n = 12
    X, Z = field(n, dim, geographic), values(n)
    kw, drifts = {}, []
    if geographic:
        kw["coordinates_type"] = "geographic"
    if base.startswith("uk"):
        kw.update(drift_terms=["regional_linear", "specified"], specified_drift=[spec(X)])
        drifts = [lambda Q, i=i: Q[:, i] for i in range(dim)] + [spec]
    r = 40.0 if geographic else 8.0
    k = c.ok("construct", lambda: lib.make(base, X, Z, model="exponential", params=[2.0, r, 0.3], **kw))
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    axes = [lo[i] + w[i] * (0.01 + 0.97 * ((np.arange(e) * (e // 2 * 2 - 1) + i) % e) / e) for i, e in enumerate(cfg["shape"])]
    P, shape = grid(axes)
    b = dict(backend=cfg["backend"])
    e = (lambda A: dict(specified_drift_arrays=[A])) if drifts else (lambda A: {})
    S = spec(P)
    want = plain(X, Z, "exponential", [1.7, r, 0.3], P, geographic, drifts)

    def see(what, got, sel, sh):
        for name, a, b in zip(("estimate", "variance"), got, want):
            if np.shape(a) != sh:
                c.fail("%s: shape %s instead of %s" % (what, np.shape(a), sh))
                continue
            a = np.ma.getdata(a).ravel()
            c.close("%s of %s" % (name, what), a if sel is None else a[sel], b if sel is None else b[sel], 1e-7)

    see("grid", c.ok("grid", lambda: k.execute("grid", *axes, **b, **e(S.reshape(shape)))), None, shape)
    see("points", c.ok("points", lambda: lib.run_points(k, P, **b, **e(S))), None, (len(P),))
    m = len(P) // 3 + 1
    parts = [c.ok("points", lambda: lib.run_points(k, P[i : i + m], **b, **e(S[i : i + m]))) for i in range(0, len(P), m)]
    see("points in parts", [np.concatenate([p[j] for p in parts]) for j in (0, 1)], None, (len(P),))
    i = np.arange(len(P))
    for name, mask in (("few", i % 97 == 5), ("most", i % 97 != 5), ("first half", i < len(P) // 2), ("last", i == len(P) - 1), ("none", i < 0)):
        got = c.ok("masked", lambda: k.execute("masked", *axes, mask=mask.reshape(shape).copy(), **b, **e(S.reshape(shape))))
        for a in got:
            c.same("mask '%s'" % name, np.ma.getmaskarray(a), mask.reshape(shape))
        see("masked '%s'" % name, got, ~mask, shape)
    if len(set(shape)) == dim:
        mask = i % 7 == 2
        t = mask.reshape(shape).T.copy()
        got = c.ok("masked", lambda: k.execute("masked", *axes, mask=t, **b, **e(S.reshape(shape))))
        see("transposed mask", got, ~mask, shape)
    c.out(want[0][:5], want[1][-5:], shape)


def hits(c, cfg):
    """Every one of many data points is a target; cfg: cls, n, backend, window, style."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    n = cfg["n"]
    X, Z = field(n, dim, geographic), values(n)
    kw = {}
    if geographic:
        kw["coordinates_type"] = "geographic"
    elif cfg["aniso"]:
        kw.update(scaling=[2.0, 0.6][: dim - 1], angles=[25.0, 40.0, -70.0][: 1 if dim == 2 else 3])
    if base.startswith("uk"):
        kw["drift_terms"] = ["regional_linear"]
    k = c.ok("construct", lambda: lib.make(base, X, Z, model="exponential", params=[2.0, 40.0 if geographic else 8.0, 0.3], **kw))
    b = dict(backend=cfg["backend"])
    if cfg["window"]:
        b["n_closest_points"] = cfg["window"]
    z, s = c.ok("points", lambda: lib.run_points(k, X, **b))
    c.close("value at the data points", z, Z, 1e-8)
    c.close("variance at the data points", s, np.zeros(n), 1e-8)
    o = np.argsort((np.arange(n) * 7919) % n if n % 7919 else np.arange(n), kind="stable")
    z, s = c.ok("points", lambda: lib.run_points(k, X[o], **b))
    c.close("value at the data points in another order", z, Z[o], 1e-8)
    c.out(z[:5], n)


def valid_hits(v):
    b = v["cls"].split("-")[0]
    if v["backend"] == "C" and b != "ok":
        return False
    if v["window"] and (not b.startswith("ok") or v["backend"] == "vectorized" or v["window"] > v["n"]):
        return False
    return not (v["aniso"] and v["cls"] == "ok-geo") and (v["n"] > 4 or b.startswith("ok"))


def backends(c, cfg):
    """Backends on many points; cfg: cls, n, m, window, model, pinv."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    n, m = cfg["n"], cfg["m"]
    X, Z = field(n, dim, geographic), values(n)
    kw = dict(coordinates_type="geographic") if geographic else {}
    if base.startswith("uk"):
        kw["drift_terms"] = ["regional_linear"]
    if cfg["pinv"]:
        kw.update(pseudo_inv=True, pseudo_inv_type=cfg["pinv"])
    r = 40.0 if geographic else 8.0
    p = {"exponential": [2.0, r, 0.3], "spherical": [2.0, r, 0.3], "linear": [0.4, 0.3], "power": [0.4, 1.3, 0.3], "gaussian": [2.0, r / 4, 0.6]}[cfg["model"]]
    k = c.ok("construct", lambda: lib.make(base, X, Z, model=cfg["model"], params=p, **kw))
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    P = lo + w * (1.1 * kron(m, dim, 0.3) - 0.05)
    P[[0, m // 2, m - 1]] = X[[0, n // 2, n - 1]]
    if geographic:
        P[:, 1] = np.clip(P[:, 1], -90, 90)
    more = dict(n_closest_points=cfg["window"]) if cfg["window"] else {}
    out = {}
    for b in (["vectorized"] if not cfg["window"] else []) + ["loop"] + (["C"] if base == "ok" else []):
        out[b] = c.ok(b, lambda: lib.run_points(k, P, backend=b, **more))
    first = list(out)[0]
    for b in list(out)[1:]:
        c.close("estimate of %s and %s" % (first, b), out[b][0], out[first][0], 1e-7)
        c.close("variance of %s and %s" % (first, b), out[b][1], out[first][1], 1e-7)
    c.out(out[first][0][:5], float(n), float(m))


def valid_backends(v):
    b = v["cls"].split("-")[0]
    if v["window"] and (not b.startswith("ok") or v["window"] > v["n"] or b != "ok"):
        return False
    if v["cls"] == "ok-geo" and v["model"] in ("power", "gaussian", "linear"):
        return False
    return v["n"] > 5 or b.startswith("ok")
