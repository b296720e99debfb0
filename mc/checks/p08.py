"""P08: geographic coordinates follow the sphere."""
import itertools

import numpy as np

from .. import data, lib, ref, sizes
from ..engine import Space
from .p01 import custom, setup

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of placements on the sphere against an extended-precision spherical reference model"
ASSUMPTIONS = [
    "cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
    "great-circle distances are trusted to 1e-12 degrees plus the error of the arctangent formula",
]

LONS = [0.0, -180.0, 180.0, 179.9999, -179.5, 90.0, -90.0, 360.0, 540.0, -270.0, 1e-7, 45.3, 200.0, -0.0]
LATS = [0.0, 90.0, -90.0, 89.999999, -45.0, 60.25, -1e-7, -89.5]


def distance(c, cfg):
    """All triples starting at one point of the lattice."""
    from pykrige.core import great_circle_distance as gcd

    pts = np.array(list(itertools.product(LONS, LATS)))
    p = np.array([LONS[cfg["lon"]], LATS[cfg["lat"]]])
    kind = cfg["form"]
    a = pts.copy()
    if kind == "broadcast":
        d = gcd(np.full(len(pts), p[0]), np.full(len(pts), p[1]), a[:, 0], a[:, 1])
    elif kind == "scalar":
        d = np.array([float(gcd(p[0], p[1], q[0], q[1])) for q in a])
    elif kind == "grid":
        d = gcd(np.full((2, len(pts) // 2), p[0]), np.full((2, len(pts) // 2), p[1]),
                a[:, 0].reshape(2, -1), a[:, 1].reshape(2, -1)).ravel()
    elif kind == "column":
        d = gcd(np.array([[p[0]]]), np.array([[p[1]]]), a[:, 0][None, :], a[:, 1][None, :]).ravel()
    elif kind == "integer":
        a = np.round(a).astype(int)
        p = np.round(p)
        d = gcd(np.full(len(pts), int(p[0])), np.full(len(pts), int(p[1])), a[:, 0], a[:, 1])
    else:
        raise KeyError(kind)
    c.impl_runs += 1
    want = ref.sphere(p[None, :], a)[0].astype(float)
    # degrees to radians costs rounding of the size of the argument
    tol = 1e-11 + 4e-16 * (np.abs(a[:, 0]) + abs(p[0]))
    c.close("distance", d, want, tol)
    back = gcd(a[:, 0], a[:, 1], np.full(len(pts), p[0]), np.full(len(pts), p[1]))
    c.close("symmetry", back, d, 1e-11)
    same = (a == p).all(axis=1)
    c.same("distance to itself", d[same], np.zeros(same.sum()))
    c.true(bool(np.all((d >= 0) & (d <= 180 + 1e-12))), "distance out of [0, 180]")
    # triangle inequality over all pairs
    D = gcd(a[:, 0][:, None], a[:, 1][:, None], a[:, 0][None, :], a[:, 1][None, :])
    c.true(bool(np.all(d[:, None] <= d[None, :] + D + 1e-10)), "triangle inequality")
    c.count("triples", D.size)
    c.out(d)


def many(c, cfg):
    """Distances of large arrays."""
    from pykrige.core import great_circle_distance as gcd

    a = sizes.field(cfg["rows"] * cfg["cols"], 2, True)
    p = np.array([[LONS[cfg["lon"]], LATS[cfg["lat"]]], [31.0, -40.0]])
    a = a.reshape(cfg["rows"], cfg["cols"], 2)
    for q in p:
        d = c.ok("call", lambda: gcd(a[:, :, 0].copy(), a[:, :, 1].copy(), q[0], q[1]))
        want = ref.sphere(q[None, :], a.reshape(-1, 2))[0].astype(float).reshape(d.shape)
        c.close("distance", d, want, 1e-11 + 4e-16 * (360 + abs(q[0])))
    if cfg["rows"] > 1 and cfg["cols"] > 1:  # rows against columns
        u, v = a[:, :1], a[:1, :]
        d = c.ok("call", lambda: gcd(u[:, :, 0], u[:, :, 1], v[:, :, 0], v[:, :, 1]))
        c.close("distance", d, ref.sphere(u[:, 0], v[0]).astype(float), 2e-11)
    c.out(d.ravel()[:4], cfg["rows"], cfg["cols"])


def chord(c, cfg):
    from pykrige.core import euclid3_to_great_circle as conv

    deg = np.array([0.0, 1e-6, 0.001, 1.0, 30.0, 60.0, 90.0, 120.0, 179.0, 179.999, 180.0])
    e = 2 * np.sin(np.deg2rad(deg) / 2)
    if cfg["over"]:
        e = np.append(e, [2.0 + 1e-15, 2.0000000001])
        deg = np.append(deg, [180.0, 180.0])
    if cfg["form"] == "array":
        arg = e.copy()
        got = c.ok("convert", lambda: conv(arg))
        c.same("argument", arg, e)
    elif cfg["form"] == "matrix":
        arg = np.outer(np.ones(3), e)
        got = c.ok("convert", lambda: conv(arg))
        c.same("argument", arg, np.outer(np.ones(3), e))
        c.true(got.shape == arg.shape, "shape")
        got = got[1]
    elif cfg["form"] == "scalar":
        got = np.array([float(c.ok("convert", lambda: conv(float(v)))) for v in e])
    elif cfg["form"] == "readonly":
        arg = e.copy()
        arg.flags.writeable = False
        got = c.ok("convert", lambda: conv(arg))
    # acos is steep at its ends
    tol = 1e-9 + 1e-6 * (e < 1e-3) + 3e-6 * (e > 1.9999999)
    c.close("angle", got, deg, tol)
    c.out(got)


PLACES = {
    "spread": [[10.0, 5], [75, -30], [150, 40], [-120, 60], [-60, -50], [-20, 20], [100, 75], [200, -10]],
    "dateline": [[179.0, 10], [-178.5, 12], [175.0, 5], [-170.0, 20], [160, -10], [-179.5, 8], [182, -3]],
    "greenwich": [[0.5, 51], [359.0, 52], [-2.0, 50], [3.0, 49], [1.5, 53], [-0.5, 48]],
    "npole": [[0.0, 89], [90, 88.5], [180, 87], [-90, 86], [45, 80], [-135, 82.5], [10, 89.9]],
    "spole": [[0.0, -89], [90, -88.5], [180, -87], [-90, -86], [45, -80], [10, -90]],
    "antipodes": [[0.0, 0], [180, 0], [90, 45], [-90, -45], [10, 80], [-170, -80]],
    "local": [[13.30, 52.4], [13.41, 52.52], [13.55, 52.47], [13.2, 52.6], [13.37, 52.66]],
    "equator": [[0.0, 0], [30, 0], [75, 0], [140, 0], [-160, 0], [-60, 0]],
    "two": [[-179.0, 0], [178.0, 3]],
}
TARGETS = {
    "general": [[12.0, 7], [-179.99, 9], [179.99, 11], [0.0, 89.99], [33, -90], [-75, 61], [0.1, 51.5], [300, 12]],
    "data": "data",
    "data-shifted": "data+360",
    "antipodal": "antipodal",
    "poles": [[0.0, 90.0], [120.0, 90.0], [-45.0, -90.0], [10.0, -90.0]],
    "seam": [[180.0, 1.0], [-180.0, 1.0], [540.0, 1.0], [-540.0, 1.0]],
}


def targets(name, X):
    t = TARGETS[name]
    if t == "data":
        return X[:4].copy()
    if t == "data+360":
        return X[:4] + np.array([[360.0, 0], [-360.0, 0], [720.0, 0], [-720.0, 0]])[: len(X[:4])]
    if t == "antipodal":
        return np.stack([X[:4, 0] + 180.0, -X[:4, 1]], axis=1)
    return np.array(t)


SHIFT = {"0": 0.0, "360": 360.0, "-360": -360.0, "mixed": "mixed", "rot17": 17.25, "rot-200": -200.0, "rot180": 180.0}


def krig(c, cfg):
    X = np.array(PLACES[cfg["place"]], dtype=float)
    n = len(X)
    Z = data.values("v", n)
    P = targets(cfg["targets"], X)
    L = {"local": 0.5}.get(cfg["place"], 60.0)
    if cfg["model"] == "custom":
        kw, rm, rp = dict(model="custom", params=[1.0, 20.0, 0.02, 0.1], variogram_function=custom), custom, [1.0, 20.0, 0.02, 0.1]
    else:
        lst, rp = data.model_params(cfg["model"], "nug" if cfg["params"] == "auto" else cfg["params"], L)
        kw, rm = dict(model=cfg["model"], params=lst), cfg["model"]
    if cfg["params"] == "auto":
        kw.pop("params")
    Xs, Ps = X.copy(), P.copy()
    sh = SHIFT[cfg["shift"]]
    if sh == "mixed":
        Xs[:, 0] += 360.0 * (np.arange(n) % 3 - 1)
        Ps[:, 0] -= 360.0 * (np.arange(len(P)) % 2)
    else:
        Xs[:, 0] += sh
        Ps[:, 0] += sh
        if abs(sh) == 360 and cfg["only"] == "data":
            Ps = P.copy()
        if abs(sh) == 360 and cfg["only"] == "targets":
            Xs = X.copy()
    ex = dict(coordinates_type="geographic", exact_values=cfg["exact"])
    if cfg["stats"]:
        ex["enable_statistics"] = True
    if cfg["aniso"]:
        ex.update(anisotropy_scaling=3.0, anisotropy_angle=40.0)  # ignored with a warning
    k = c.ok("construct", lambda: lib.make("ok", Xs, Z, **kw, nlags=cfg["nlags"], **ex))
    if cfg["update"]:
        u = dict(kw)
        u.pop("model")
        if "params" in u:
            u["variogram_parameters"] = u.pop("params")
        c.ok("update", lambda: k.update_variogram_model("linear", variogram_parameters=[1.0, 0.0]))
        c.ok("update", lambda: k.update_variogram_model(kw["model"], nlags=cfg["nlags"], **u))
    # lags and semivariances of spherical distances
    lags, sv, edge, w = ref.experimental(X, Z, cfg["nlags"], geographic=True)
    if edge > 1e-7 * max(w, 1e-3):
        c.close("lags", k.lags, lags, 1e-8)
        c.close("semivariance", k.semivariance, sv, 1e-8)
    else:
        c.count("binning not compared: a distance on a bin edge")
    if cfg["params"] == "auto":
        rp = [float(v) for v in k.variogram_model_parameters]
    m = ref.Model(X, Z, rm, rp, geographic=True, exact=cfg["exact"])
    nw = {"all": None, "2": 2, "4": min(4, n)}[cfg["window"]]
    r = m.predict(P, k=nw)
    cond = np.broadcast_to(np.asarray(r.cond, dtype=float), r.z.shape)
    u = cond < 1e11
    if not u.any():
        return c.skip("ill-conditioned")
    style, backend = cfg["request"].split("-")
    wk = {} if nw is None else dict(n_closest_points=nw)
    if style == "points":
        z, s = c.ok("execute", lambda: lib.run_points(k, Ps, backend=backend, **wk))
    else:
        G, shape = lib.grid_points([Ps[:3, 0], Ps[:4, 1]])
        Go, _ = lib.grid_points([P[:3, 0], P[:4, 1]])
        mk = dict(mask=np.zeros(shape, bool)) if style == "masked" else {}
        z, s = c.ok("execute", lambda: k.execute(style, Ps[:3, 0], Ps[:4, 1], backend=backend, **wk, **mk))
        r = m.predict(Go, k=nw)
        cond = np.broadcast_to(np.asarray(r.cond, dtype=float), r.z.shape)
        u = cond < 1e11
        if not u.any():
            return c.skip("ill-conditioned")
    z, s = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
    # distances are rounded like the shifted longitudes
    amp = 1e3
    d = m.dist(P if style == "points" else Go, m.XA).astype(float)
    # near-coincidence is a matter of rounding there
    steep = (d.min(axis=1) < 1e-9) & (abs(sh if sh != "mixed" else 360.0) % 360 != 0)
    u = u & ~steep
    tz, ts = amp * r.tz, amp * r.tss
    if cfg["model"] == "power":
        tz, ts = tz + 1e-6 * np.abs(Z).max(), ts + 1e-6 * np.abs(r.ss).max()
    c.close("estimate", z[u], r.z[u], tz[u])
    c.close("variance", s[u], r.ss[u], ts[u])
    if cfg["stats"]:
        dl, sg = [], []
        for i in range(1, n):
            q = ref.Model(X[:i], Z[:i], rm, rp, geographic=True).predict(X[i : i + 1])
            dl.append(Z[i] - q.z[0])
            sg.append(np.sqrt(max(q.ss[0], 0)))
        c.close("delta", k.delta, dl, 1e-6 * np.abs(Z).max())
        c.close("sigma", k.sigma, sg, 1e-6 * np.max(sg))
    c.out(z[u], s[u])


def valid(cfg):
    if cfg["request"].endswith("C") and cfg["model"] in ("custom", "hole-effect"):
        return False
    if cfg["window"] != "all" and cfg["request"].endswith("vectorized"):
        return False
    if cfg["params"] == "auto" and (cfg["model"] == "custom" or cfg["place"] in ("two", "local")):
        return False
    if cfg["stats"] and cfg["params"] == "auto":
        return False
    if cfg["stats"] and cfg["model"] in ("power", "gaussian", "hole-effect"):
        return False  # no valid models on the sphere (negative variances)
    if cfg["stats"] and cfg["update"]:
        return False  # see P13, P17
    if cfg["window"] == "4" and cfg["place"] == "two":
        return False
    if cfg["place"] == "two" and cfg["nlags"] != 6:
        return False
    if cfg["only"] != "both" and cfg["shift"] not in ("360", "-360"):
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    core = dict(place=list(PLACES), targets=list(TARGETS), shift=list(SHIFT))
    dev = dict(
        only=["both", "data", "targets"],
        request=["points-vectorized", "points-loop", "points-C", "grid-vectorized", "grid-loop", "grid-C", "masked-loop"],
        model=["exponential", "linear", "spherical", "power", "gaussian", "hole-effect", "custom"],
        params=["nug", "nonug", "auto", "big"],
        window=["all", "2", "4"],
        exact=[True, False],
        nlags=[6, 3],
        stats=[False, True],
        aniso=[False, True],
        update=[False, True],
    )
    return [
        Space("distance", distance, dict(lon=list(range(len(LONS))), lat=list(range(len(LATS))),
                                         form=["broadcast", "scalar", "grid", "column", "integer"])),
        Space("many distances", many, dict(lon=[0, 3], lat=[0, 5], rows=[1, 2, 3, 16, 17, 64, 255, 256, 257], cols=[1, 2, 16, 31, 64, 65, 127, 128, 255, 256, 257, 513, 1001])),
        Space("chord", chord, dict(form=["array", "matrix", "scalar", "readonly"], over=[False, True])),
        Space("kriging", krig, core, dev, bound=1 if q else 2, valid=valid),
        Space("pairs", krig, dict(place=["spread", "dateline", "npole"], targets=["general", "data"], shift=["0", "mixed", "rot17"]),
              dev, bound=2 if q else 3, valid=valid),
    ]
