"""P18: the pseudo-inverse averages redundant points."""
import itertools

import numpy as np

from .. import data, lib, ref
from ..drifts import Drift
from ..engine import Space
from .p01 import ANISO, request, setup
from .p02 import terms
from .p08 import PLACES

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of all partitions of the data into coinciding points, against a reference model of the averaged data"
ASSUMPTIONS = [
    "data sets whose averaged kriging system has a condition number above 1e8 are not judged (counted as skipped)",
    "the window must not separate coinciding points",
]


def partitions(n):
    """All set partitions as restricted growth strings."""
    out = []

    def rec(p, m):
        if len(p) == n:
            out.append(tuple(p))
            return
        for v in range(m + 1):
            rec(p + [v], max(m, v + 1))

    rec([], 0)
    return out


def group(X, Z):
    seen, V = [], []
    for p, v in zip(map(tuple, X), Z):
        if p not in seen:
            seen.append(p)
            V.append([])
        V[seen.index(p)].append(v)
    return np.array(seen), np.array([np.mean(v) for v in V])


def in_unit(s, unit):
    """The variogram for values in another unit."""
    kw, (rm, rp) = s
    if unit == 1:
        return s

    def scale(p):
        # all parameters but ranges and exponents go with the squared unit
        p = list(p)
        one = {"linear": (0, 1), "power": (0, 2)}.get(kw["model"], (0, 2))
        return [v * unit**2 if i in one else v for i, v in enumerate(p)]

    if kw["model"] == "custom":
        f = kw["variogram_function"]
        g = lambda p, d: unit**2 * f(p, d)
        return dict(kw, variogram_function=g), (g, rp)
    return dict(kw, params=scale(kw["params"])), (rm, scale(rp))


def place(cls, name, dim):
    if cls == "ok-geo":
        return np.array(PLACES[name] if name in PLACES else PLACES["spread"])
    return data.coords(name, dim)


def case(c, cfg):
    cls = cfg["cls"]
    base = cls.split("-")[0]
    geo = cls == "ok-geo"
    dim = lib.dim_of(base)
    part = cfg["part"]
    n = len(part)
    pos = place(cls, cfg["data"], dim)
    if len(pos) < max(part) + 1:
        return c.skip("too few positions")
    X = pos[list(part)]
    unit = cfg["unit"]
    Z = data.values(cfg["values"], n) * unit
    XG, ZG = group(X, Z)
    kw, (rm, rp) = in_unit(setup(cfg["model"], "nonug", pos), unit)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None or geo else sc[: dim - 1]
    an = None if an is None or geo else an[: 1 if dim == 2 else 3]
    P = data.targets(pos, cfg["targets"])
    D, R = None, []
    extra = {}
    center = ref.center_of(X)
    if base.startswith("uk"):
        D = Drift(dim, terms(cfg["terms"]), X, np.concatenate([P, pos]))
        if len(XG) < D.count + 2:
            return c.skip("too many drifts")
        R = D.reference(ref.Model(XG, ZG, "linear", [1.0, 0.0], sc, an, center=center).to_iso)
        extra.update(D.kw)
    if geo:
        extra["coordinates_type"] = "geographic"
    style, backend = cfg["request"].split("-")[:2]
    window = cfg["request"].endswith("window")
    k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, pseudo_inv=True,
                                           pseudo_inv_type=cfg["type"], exact_values=cfg["exact"], **dict(kw, **extra)))
    m = ref.Model(XG, ZG, rm, rp, sc, an, geographic=geo, center=center, drifts=R)
    if len(ZG) == 1:
        # everything coincides: the mean value, variance 2 gamma
        G, z, s, mask = request(c, k, base, style, backend, P, dict(n_closest_points=n) if window else {})
        d = m.dist(m.to_iso(G), m.XA)[:, 0]
        g = np.where(d <= ref.COINCIDE, 0, m.gamma(d)).astype(float)
        u = slice(None) if mask is None else ~mask
        c.close("estimate", z[u], np.full(len(G), ZG[0])[u], 1e-7 * unit)
        c.close("variance", s[u], (2 * g)[u], 1e-7 * (unit**2 + g[u]))
        return c.out(z[u], s[u])
    req = {}
    if D is not None:
        axes = None
        req = D.exec_kw(P) if style == "points" else {}
        if style != "points":
            A = [P[: 4 - i, i].copy() for i in range(dim)]
            Gp, shape = lib.grid_points(A)
            req = D.exec_kw(Gp, shape)
    if window:
        # windows of w points that do not separate coinciding points
        w = cfg["window"]
        w = n if w == "all" else n - 2
        if w < 2:
            return c.skip("window too small")
        req = dict(n_closest_points=w)
    G, z, s, mask = request(c, k, base, style, backend, P, req)
    u = np.ones(len(G), bool) if mask is None else ~mask
    if window and w < n:
        full = ref.Model(X, Z, rm, rp, sc, an, geographic=geo, center=center)
        dist = full.dist(full.to_iso(G), full.XA)
        for i in np.flatnonzero(u):
            o = np.argsort(dist[i], kind="stable")
            if dist[i][o[w]] - dist[i][o[w - 1]] <= 1e-9 * (1 + dist[i][o[w]]):
                c.count("ambiguous window")
                continue
            xs, zs = group(X[np.sort(o[:w])], Z[np.sort(o[:w])])
            if len(zs) < 2:
                continue
            q = ref.Model(xs, zs, rm, rp, sc, an, geographic=geo, center=center).predict(G[i : i + 1])
            if not q.cond < 1e8:
                c.skip("ill-conditioned window")
                continue
            c.close("window estimate", z[i], q.z[0], 10 * q.tz[0])
            c.close("window variance", s[i], q.ss[0], 10 * q.tss[0])
        return c.out(z[u], s[u])
    r = m.predict(G)
    if not r.cond < 1e8:
        return c.skip("ill-conditioned")
    c.close("estimate", z[u], r.z[u], 10 * r.tz[u])
    c.close("variance", s[u], r.ss[u], 10 * r.tss[u])
    c.out(z[u], s[u])


def neutral(c, cfg):
    """Without coinciding points nothing changes (any nugget)."""
    cls = cfg["cls"]
    base = cls.split("-")[0]
    geo = cls == "ok-geo"
    dim = lib.dim_of(base)
    X = place(cls, cfg["data"], dim)
    Z = data.values("v", len(X))
    kw, (rm, rp) = setup(cfg["model"], cfg["params"], X)
    extra = {}
    if base.startswith("uk"):
        extra = dict(drift_terms=["regional_linear"])
    if geo:
        extra["coordinates_type"] = "geographic"
    P = data.targets(X, "mixed")
    style, backend = cfg["request"].split("-")[:2]
    req = dict(n_closest_points=min(4, len(X))) if cfg["request"].endswith("window") else {}
    a = c.ok("construct", lambda: lib.make(base, X, Z, exact_values=cfg["exact"], **dict(kw, **extra)))
    b = c.ok("construct", lambda: lib.make(base, X, Z, pseudo_inv=True, pseudo_inv_type=cfg["type"], exact_values=cfg["exact"], **dict(kw, **extra)))
    R = [lambda O, A, k=k: A[:, k] for k in range(dim)] if base.startswith("uk") else []
    if len(X) < len(R) + 2:
        return c.skip("too many drifts")
    r = ref.Model(X, Z, rm, rp, geographic=geo, exact=cfg["exact"], drifts=R).predict(P)
    if not r.cond < 1e10:
        return c.skip("ill-conditioned")
    G, z1, s1, m = request(c, a, base, style, backend, P, req)
    G, z2, s2, m = request(c, b, base, style, backend, P, req)
    u = slice(None) if m is None else ~m
    f = 1e-9 + 1e-13 * r.cond
    c.close("estimate", z2[u], z1[u], f * (1 + np.abs(z1[u]).max()))
    c.close("variance", s2[u], s1[u], f * (1 + np.abs(s1[u]).max()))
    c.out(z2[u], s2[u])


def types(c, cfg):
    X, Z = data.coords("n5", lib.dim_of(cfg["cls"])), data.values("v", 5)
    f = lambda: lib.make(cfg["cls"], X, Z, params=[1.0, 0.0], pseudo_inv=cfg["on"], pseudo_inv_type=cfg["type"])
    if cfg["type"] in ("pinv", "pinvh"):
        k = c.ok("construct", f)
        z, s = lib.run_points(k, X[:2] + 0.1)
        c.out(z, s)
    else:
        c.raises("pseudo_inv_type=%r" % (cfg["type"],), f, (ValueError, TypeError))


REQ = ["points-vectorized", "points-loop", "points-C", "grid-vectorized", "masked-loop", "masked-C", "points-loop-window", "points-C-window", "masked-loop-window"]


def valid(g):
    base = g["cls"].split("-")[0]
    if "-C" in g["request"] and (base != "ok" or g["model"] in ("custom", "hole-effect")):
        return False
    if g["request"].endswith("window") and base not in ("ok", "ok3"):
        return False
    if g["cls"] == "ok-geo" and g["model"] in ("power", "gaussian", "hole-effect"):
        return False
    if g["type"] == "pinv2" and False:
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    cl = ["ok", "ok-geo", "uk", "ok3", "uk3"]
    models = list(ref.MODELS) + ["custom"]
    parts = partitions(5)
    more = [p for p in partitions(6) if max(p) >= 2] if not q else [(0, 1, 2, 3, 4, 5, 0), (0, 1, 2, 0, 1, 2, 3), (0, 0, 1, 2, 3, 4, 5, 6), (3, 1, 4, 1, 5, 0, 2, 6, 5, 3)]
    dev = dict(
        values=["v", "shift", "large", "small", "const", "neg"],
        aniso=["none", "s3a30", "s.4a-75"],
        targets=["mid", "data", "far", "mixed"],
        exact=[True, False],
        unit=[1.0, 1e-5, 1e4, 1e-9, 1e6],
        terms=["rl1", "sp1", "fn1"],
        window=["all", "part"],
    )
    d2 = dict(dev)
    large = []
    for n in (16, 17, 33, 65) if q else (16, 17, 31, 33, 64, 65, 100, 129):
        large += [tuple(i % (n // 2 + 1) for i in range(n)), tuple(min(i, n - 3) for i in range(n)), tuple(i * i % (n - 2) for i in range(n)), tuple(range(n))]
    return [
        Space("sizes", case, dict(cls=cl, part=large, request=REQ, data=["k129"], model=["exponential", "spherical", "linear"], type=["pinv", "pinvh"]),
              {k: v[:1] for k, v in dev.items()}, valid=lambda g: g["cls"] != "ok-geo" and valid(g)),
        Space("partitions", case, dict(cls=cl, part=parts, request=REQ, data=["n7"], model=["linear", "exponential"] if q else models, type=["pinv", "pinvh"]),
              dev, bound=0 if q else 1, valid=valid),
        Space("variants", case, dict(cls=cl, part=more, request=REQ, data=["n7", "n9", "off7"] if not q else ["n7", "n9"],
                                     model=models if q else models[:1] + models[3:5], type=["pinv", "pinvh"]), dev, bound=1,
              valid=lambda g: valid(g) and (not q or (g["data"] == "n7" or g["request"] == "points-vectorized"))),
        Space("neutral", neutral, dict(cls=cl, request=REQ, data=["n7", "n3", "n12", "reg9", "close8", "closer8"], model=models, type=["pinv", "pinvh"]),
              dict(params=["nug", "nonug", "big"], exact=[True, False]), bound=1, valid=valid),
        Space("types", types, dict(cls=["ok", "uk", "ok3", "uk3"], on=[True, False], type=["pinv", "pinvh", "pinv3", "", None, 1, "PINV"])),
    ]
