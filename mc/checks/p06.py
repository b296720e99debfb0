"""P06: the moving window uses exactly the k closest data points."""
import itertools

import numpy as np

from .. import data, lib, ref, sizes
from ..engine import Space
from .p01 import ANISO, setup
from .p03 import geo

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of window sizes and targets; the admissible windows are enumerated and solved by a reference model"
ASSUMPTIONS = [
    "windows whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
    "among equally distant points any choice is accepted; targets with more than 40 admissible windows are skipped",
]


def coords(name, geographic, dim):
    if name == "grid16":
        X = np.array([[i, j, (i * 2 + j) % 3] for i in range(4) for j in range(4)], float)[:, :dim]
        return geo("n9")[:0].reshape(0, 2) if geographic and False else (X * 20 - 30 if geographic else X)
    if name == "dateline":
        return np.array([[179.0, 10], [-178.5, 12], [175.0, 5], [-170.0, 20], [160, -10], [-179.5, 8], [90.0, 0], [0.0, 0]])
    if name == "poles":
        return np.array([[0.0, 85], [90, 86], [180, 84], [-90, 83], [45, 70], [-135, 72.5], [10, -88], [200, -87]])
    return geo(name) if geographic else data.coords(name, dim)


def goal(name, X, geographic):
    if geographic:
        if name == "wrap":
            return np.array([[180.0, 9], [-180.0, 11], [181, 12], [-182.5, 4], [0.5, 89], [180, 90], [359.0, 1]])
        P = data.targets(X, name)
        P[:, 1] = np.clip(P[:, 1], -90, 90)
        return P
    if name == "wrap":
        name = "near"
    return data.targets(X, name)


def admissible(D, k):
    """All windows of k points that are closest up to rounding."""
    o = np.argsort(D, kind="stable")
    r = D[o[k - 1]]
    tol = 1e-9 * (1 + r)
    sure = [i for i in o if D[i] < r - tol]
    tied = [i for i in o if abs(D[i] - r) <= tol]
    return sure, list(itertools.combinations(tied, k - len(sure)))


def case(c, cfg):
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    X = coords(cfg["data"], geographic, dim)
    n = len(X)
    Z = data.values(cfg["values"], n)
    kw, (rm, rp) = setup(cfg["model"], cfg["params"], X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    extra = dict(coordinates_type="geographic") if geographic else {}
    if cfg["pinv"] != "off":
        extra.update(pseudo_inv=True, pseudo_inv_type=cfg["pinv"])
    kr = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, exact_values=cfg["exact"], **kw, **extra))
    style, backend = cfg["request"].split("-")
    P = goal(cfg["targets"], X, geographic)
    axes = None
    mask = None
    if style != "points":
        axes = [P[: 3 + i, i].copy() for i in range(dim)]
        P, shape = lib.grid_points(axes)
        if style == "masked":
            mask = (np.arange(len(P)) % 4 == 1).reshape(shape)

    def run(k):
        if axes is None:
            return lib.run_points(kr, P, backend=backend, n_closest_points=k)
        kk = {} if mask is None else dict(mask=mask)
        return kr.execute(style, *axes, backend=backend, n_closest_points=k, **kk)

    for k in (1, 0, -1, n + 1, n + 7):
        c.raises("window of %d of %d points" % (k, n), lambda: run(k), ValueError)
    m = ref.Model(X, Z, rm, rp, sc, an, exact=cfg["exact"], geographic=geographic)
    PA = m.to_iso(P)
    D = m.dist(PA, m.XA)
    ks = {"2": [2], "3": [min(3, n)], "mid": [max(2, n // 2)], "n-1": [max(2, n - 1)], "n": [n],
          "every": list(range(2, n + 1))}[cfg["k"]]
    for k in ks:
        preds = []
        singular = False
        for i in range(len(P)):
            sure, combos = admissible(D[i].astype(float), k)
            if len(combos) > 40:
                preds.append(None)
                c.count("too many admissible windows")
                continue
            alt = [m._solve(P[i : i + 1], PA[i : i + 1], D[i : i + 1], np.sort(np.array(list(sure) + list(w))), None)
                   for w in combos]
            if not all(q.usable for q in alt):
                singular = True
                preds.append(None)
                continue
            c.count("windows", len(alt))
            if len(alt) > 1:
                c.count("targets with ties")
            preds.append(alt)
        try:
            c.impl_runs += 1
            z, s = run(k)
        except np.linalg.LinAlgError:
            if singular:
                c.skip("ill-conditioned")
                continue
            raise
        z, s = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
        if len(z) != len(P):
            c.fail("%d results for %d targets" % (len(z), len(P)))
            return
        for i, alt in enumerate(preds):
            if alt is None or mask is not None and mask.ravel()[i]:
                continue
            okk = any(abs(z[i] - q.z[0]) <= q.tz[0] and abs(s[i] - q.ss[0]) <= q.tss[0] for q in alt)
            c.true(okk, "k=%d target %s: %.12g/%.12g instead of %s" % (
                k, P[i].tolist(), z[i], s[i], [(float(q.z[0]), float(q.ss[0])) for q in alt[:3]]))
        c.out(z, s)


def large(c, cfg):
    """More points than fit into one leaf of a search tree, many targets."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    X = data._rand(cfg["n"], dim, 19)
    if cfg["shape"] == "clustered":
        X = X**3
    if geographic:
        X = X * np.array([360.0, 170.0]) + np.array([-180.0, -85.0])
    else:
        X = X * np.array([20.0, 30.0, 15.0])[:dim]
    Z = data.values("v", len(X))
    kw, (rm, rp) = setup("exponential", "nug", X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None or geographic else sc[: dim - 1]
    an = None if an is None or geographic else an[: 1 if dim == 2 else 3]
    extra = dict(coordinates_type="geographic") if geographic else {}
    kr = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, **dict(kw, **extra)))
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    P = np.concatenate([lo + w * data._rand(cfg["targets"], dim, 43), X[::17]])
    m = ref.Model(X, Z, rm, rp, sc, an, geographic=geographic)
    PA = m.to_iso(P)
    D = np.asarray(m.dist(PA, m.XA), dtype=float)
    k = cfg["k"]
    z, s = c.ok("execute", lambda: lib.run_points(kr, P, backend=cfg["backend"], n_closest_points=k))
    o = np.argsort(D, axis=1, kind="stable")
    for i in range(len(P)):
        if k < len(X) and D[i, o[i, k]] - D[i, o[i, k - 1]] <= 1e-9 * (1 + D[i, o[i, k]]):
            c.count("ambiguous window")
            continue
        r = m._solve(P[i : i + 1], PA[i : i + 1], D[i : i + 1], np.sort(o[i, :k]), None)
        if not r.usable:
            c.count("ill-conditioned window")
            continue
        c.close("estimate at target %d" % i, z[i : i + 1], r.z, r.tz)
        c.close("variance at target %d" % i, s[i : i + 1], r.ss, r.tss)
    c.out(z, s)


def balanced(m, A, B, i, j):
    """The place between data points i and j that is equally far from both."""
    lo, hi = 0.0, 1.0
    for _ in range(60):
        t = (lo + hi) / 2
        d = m.dist(m.to_iso((A + t * (B - A))[None, :]), m.XA)[0]
        if d[i] < d[j]:
            lo = t
        else:
            hi = t
    return t


def nearly(c, cfg):
    """Targets that are almost equally far from two data points."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    X = coords(cfg["data"], geographic, dim)
    Z = data.values("v", len(X))
    kw, (rm, rp) = setup(cfg["model"], "nonug", X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    extra = dict(coordinates_type="geographic") if geographic else {}
    kr = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, **kw, **extra))
    m = ref.Model(X, Z, rm, rp, sc, an, geographic=geographic)
    P, rank = [], []
    for i, j in itertools.combinations(range(len(X)), 2):
        if geographic and (abs(X[i, 0] - X[j, 0]) > 120 or max(abs(X[i, 1]), abs(X[j, 1])) > 80):
            continue
        t = balanced(m, X[i], X[j], i, j)
        for e in cfg["off"]:
            for side in (-e, e):
                p = X[i] + (t + side) * (X[j] - X[i])
                P.append(p)
    P = np.array(P)
    PA = m.to_iso(P)
    D = m.dist(PA, m.XA)
    for k in range(2, len(X)):
        # the k-th and the next point are the nearly tied ones
        o = np.sort(D, axis=1)
        at = np.flatnonzero(o[:, k] - o[:, k - 1] < 0.05 * o[:, k])
        if not len(at):
            continue
        z, s = c.ok("execute", lambda: lib.run_points(kr, P[at], backend=cfg["backend"], n_closest_points=k))
        for r, i in enumerate(at):
            sure, combos = admissible(D[i].astype(float), k)
            if len(combos) > 1:
                c.count("targets with ties")
                continue
            q = m._solve(P[i : i + 1], PA[i : i + 1], D[i : i + 1], np.sort(np.array(list(sure) + list(combos[0]))), None)
            if not q.usable:
                c.count("ill-conditioned window")
                continue
            c.count("windows next to a tie")
            c.close("k=%d estimate at %s" % (k, P[i].tolist()), z[r : r + 1], q.z, q.tz)
            c.close("k=%d variance at %s" % (k, P[i].tolist()), s[r : r + 1], q.ss, q.tss)
        c.out(z, s)


def valid(cfg):
    if cfg["cls"] != "ok" and cfg["request"].endswith("-C") and cfg["cls"] != "ok-geo":
        return False
    if cfg["request"].endswith("-C") and cfg["model"] in ("custom", "hole-effect"):
        return False
    if cfg["cls"] == "ok-geo":
        if cfg["aniso"] != "none" or cfg["data"] in ("utm7", "tiny7", "reg9"):
            return False
    elif cfg["data"] in ("dateline", "poles"):
        return False
    if cfg["data"] == "utm7" and cfg["aniso"] in ("s3a30", "s.4a-75"):
        return cfg["targets"] not in ("data", "mixed", "dups")
    if cfg["data"] == "reg9" and cfg["aniso"] in ("s3a30", "s.4a-75"):
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    core = dict(
        cls=["ok", "ok3", "ok-geo"],
        data=["n7", "n12", "n3", "n2", "reg9", "utm7", "tiny7", "dateline", "poles", "grid16"] + ([] if q else ["n40", "off7", "neg7", "n9", "flat30"]),
        request=["points-loop", "points-C"],
    )
    dev = dict(
        k=["every", "2", "3", "mid", "n-1", "n"],
        targets=["mid", "mixed", "one", "far", "data", "near", "dups", "wrap"],
        model=["linear", "exponential", "spherical", "power", "gaussian", "hole-effect", "custom"],
        params=["nug", "nonug", "big", "small", "int"],
        values=["v", "shift", "large"],
        aniso=["none", "s3a30", "s2", "s.4a-75"],
        exact=[True, False],
        pinv=["off", "pinv", "pinvh"],
    )
    core2 = dict(core, request=["grid-loop", "masked-loop", "grid-C", "masked-C"])
    core2["data"] = ["n7", "grid16", "dateline"]
    return [
        Space("windows", case, core, dev, bound=1 if q else 2, valid=valid),
        Space("search", large, dict(cls=["ok", "ok3", "ok-geo"], n=[100] if q else [17, 33, 100, 400], shape=["even", "clustered"],
                                    aniso=["none", "s3a30"], k=[2, 5, 17] if q else [2, 3, 5, 9, 17], backend=["loop", "C"],
                                    targets=[150 if q else 400]),
              valid=lambda g: not (g["cls"] == "ok3" and g["backend"] == "C" or g["cls"] == "ok-geo" and g["aniso"] != "none")),
        Space("near ties", nearly, dict(cls=["ok", "ok3", "ok-geo"], data=["n7", "n9", "dateline"] + ([] if q else ["n12", "off7", "neg7", "big7"]), backend=["loop", "C"],
                                        model=["linear", "exponential"], off=[[1e-2, 1e-4], [1e-5, 1e-6], [1e-7, 3e-8]]),
              dict(aniso=["none", "s3a30", "s.4a-75"]), bound=1,
              valid=lambda g: not (g["cls"] == "ok3" and g["backend"] == "C" or (g["cls"] == "ok-geo") != (g["data"] == "dateline" or g["data"] == "n9" and g["cls"] == "ok-geo")
                                   or g["cls"] == "ok-geo" and g["aniso"] != "none")),
        Space("grids", case, core2, dev, bound=1 if q else 2, valid=valid),
        Space("sizes", sizes.window, dict(cls=["ok", "ok3", "ok-geo"], n=[17, 33, 65, 129, 257] + ([] if q else [513, 1025]),
                                          k=[2, 3, 7, 8, 10, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100],
                                          m=[300] if q else [300, 4097], backend=["loop", "C"]),
              valid=lambda g: g["k"] <= g["n"] and not (g["cls"] == "ok3" and (g["backend"] == "C" or g["n"] > 257))),
        Space("numbers of targets", sizes.window, dict(cls=["ok", "ok3", "ok-geo"], n=[33], k=[5], m=[m for m in sizes.TARGETS if m > 2 and (m < 9000 or not q)],
                                                       backend=["loop", "C"]), valid=lambda g: not (g["cls"] == "ok3" and g["backend"] == "C")),
    ]
