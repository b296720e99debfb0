"""P05: exactness at data points follows exact_values."""
import numpy as np

from .. import data, lib, ref, sizes
from ..drifts import Drift
from ..engine import Space
from .p01 import ANISO, setup
from .p02 import terms
from .p03 import geo

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of coinciding and near-coinciding targets against the exact solution"
ASSUMPTIONS = [
    "cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
    "targets closer than 1e-10 to a data point coincide with it (documented cut-off)",
]


def case(c, cfg):
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    X = geo(cfg["data"]) if geographic else data.coords(cfg["data"], dim)
    n = len(X)
    Z = data.values(cfg["values"], n)
    kw, (rm, rp) = setup(cfg["model"], cfg["params"], X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None or geographic else sc[: dim - 1]
    an = None if an is None or geographic else an[: 1 if dim == 2 else 3]
    style, backend = cfg["request"].split("-")
    lo, w = X.min(axis=0), np.maximum(np.ptp(X, axis=0), 1e-3 * data.span(X))
    other = lo + np.array([[0.33, 0.41, 0.56], [0.71, 0.12, 0.23], [0.05, 0.93, 0.8]])[:, :dim] * w
    ids = np.arange(n) if n <= 12 else np.array([0, 1, n // 2, n - 1])
    rk = dict(backend=backend)
    if cfg["window"] != "all":
        rk["n_closest_points"] = {"2": 2, "4": min(4, n), "n": n}[cfg["window"]]
    D, R = None, []
    P = np.concatenate([X[ids], other])
    if style != "points":
        # a grid through three data points (and the rest in between)
        sel = ids[[0, len(ids) // 2, len(ids) - 1]] if len(ids) > 2 else ids
        axes = [np.concatenate([X[sel, i], other[:1, i]]) for i in range(dim)]
        P, shape = lib.grid_points(axes)
    if base.startswith("uk"):
        D = Drift(dim, terms(cfg["terms"]), X, P)
        if D.count + 1 > n:
            return c.skip("too many drifts")
        R = D.reference(ref.Model(X, Z, "linear", [1.0, 0.0], sc, an).to_iso)
    extra = dict(coordinates_type="geographic") if geographic else {}
    if D is not None:
        extra.update(D.kw)
    if cfg["pinv"] != "off":
        extra.update(pseudo_inv=True, pseudo_inv_type=cfg["pinv"])
    res = {}
    mask = np.arange(len(P)) % 4 == 2
    if cfg["mask"] != "every":
        at_data = np.array([(p == X).all(axis=1).any() for p in P])
        mask = {"off": ~at_data, "on": at_data, "first": np.arange(len(P)) == 0, "most": np.arange(len(P)) != np.argmax(at_data)}[cfg["mask"]]
    for exact in (True, False):
        k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, exact_values=exact, **kw, **extra))
        m = ref.Model(X, Z, rm, rp, sc, an, exact=exact, drifts=R, geographic=geographic)
        if style == "points":
            e = D.exec_kw(P) if D is not None else {}
            f = lambda: lib.run_points(k, P, **rk, **e)
        else:
            e = D.exec_kw(P, shape) if D is not None else {}
            if style == "masked":
                e = dict(e, mask=mask.reshape(shape))
            f = lambda: k.execute(style, *axes, **rk, **e)
        r = m.predict(P, k=rk.get("n_closest_points"))
        cond = np.broadcast_to(np.asarray(r.cond, dtype=float), r.z.shape).copy()
        u = cond < 1e11
        if not u.any():
            return c.skip("ill-conditioned")
        try:
            z, s = f()
        except np.linalg.LinAlgError:
            if not u.all():
                return c.skip("ill-conditioned")
            raise
        z, s = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
        if style == "masked":
            u &= ~mask
        d = m.dist(m.to_iso(P), m.XA).astype(float)
        hit = d.min(axis=1) <= 1e-10
        near = np.argmin(d, axis=1)
        if exact:
            h = u & hit
            c.count("coinciding targets", int(h.sum()))
            c.close("estimate at data points", z[h], Z[near[h]], r.tz[h])
            c.close("variance at data points", s[h], np.zeros(h.sum()), r.tss[h])
        c.close("estimate, exact_values=%s" % exact, z[u], r.z[u], r.tz[u])
        c.close("variance, exact_values=%s" % exact, s[u], r.ss[u], r.tss[u])
        res[exact] = (z, s, u, hit, r)
        c.out(z[u], s[u])
    z1, s1, u1, hit, r = res[True]
    z0, s0, u0, _, r0 = res[False]
    both = u1 & u0
    nug = float(rp[-1])
    if cfg["model"] in ref.MODELS or cfg["model"] == "custom":
        sel = both if nug == 0 else both & ~hit
        c.close("targets off the data do not depend on exact_values", z0[sel], z1[sel], 2 * r.tz[sel])
        c.close("their variance does not", s0[sel], s1[sel], 2 * r.tss[sel])


def close(c, cfg):
    """Targets that are very close to a data point: within the cut-off of 1e-10
    they coincide with it, outside they do not, whatever the size of the domain."""
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    X = geo("n7") if geographic else data.coords("n7", dim) * cfg["zoom"]
    Z = data.values("v", len(X))
    kw, (rm, rp) = setup(cfg["model"], cfg["params"], X)
    sc, an = ANISO[cfg["aniso"]]
    sc, an = (None, None) if sc is None else (sc[: dim - 1], an[: 1 if dim == 2 else 3])
    e = cfg["off"] * np.array([0.6, -0.8, 0.0])[:dim]
    P = np.concatenate([X[:3] + e, X.mean(axis=0)[None], X[4:6] - e])
    # rounding of the coordinates
    ulp = 8e-16 * float(np.abs(X).max()) * (1 if sc is None else 3)
    R, extra = [], {}
    if base.startswith("uk"):
        extra = dict(drift_terms=["regional_linear"])
        R = [lambda O, A, k=k: A[:, k] for k in range(dim)]
    if geographic:
        extra = dict(coordinates_type="geographic")
    m = ref.Model(X, Z, rm, rp, sc, an, exact=cfg["exact"], drifts=R, geographic=geographic)
    d = m.dist(m.to_iso(P), m.XA).astype(float)
    if (np.abs(d - 1e-10) < 3 * ulp + (1e-11 if sc is None and not geographic else 5e-11)).any() or geographic and cfg["off"] < 1e-7:
        return c.skip("at the cut-off")
    backend, _, win = cfg["backend"].partition("-")
    rk = dict(backend=backend)
    if win:
        rk["n_closest_points"] = 5
    k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, exact_values=cfg["exact"], **kw, **extra))
    z, s = c.ok("execute", lambda: lib.run_points(k, P, **rk))
    r = m.predict(P, k=5 if win else None)
    if not np.all(np.asarray(r.cond, dtype=float) < 1e11):
        return c.skip("ill-conditioned")
    if rp[-1] == 0:
        # without nugget the distance itself matters, down to its rounding
        t = np.abs(m.gamma(np.array([ulp, cfg["off"] + ulp, cfg["off"]]))).astype(float)
        r.tz, r.tss = r.tz + 20 * np.abs(Z).max() * t.max() / abs(rp[0]), r.tss + 20 * t.max()
    c.close("estimate", z, r.z, r.tz)
    c.close("variance", s, r.ss, r.tss)
    c.count("coinciding targets", int((d.min(axis=1) <= 1e-10).sum()))
    c.out(z, s)


def batch(c, cfg):
    """Data points at every position of requests of every size: the rounding of
    adjusted coordinates depends on both."""
    base = cfg["cls"]
    dim = lib.dim_of(base)
    X = data.coords("n24k", dim)
    Z = data.values("v", len(X))
    kw, (rm, rp) = setup(cfg["model"], "nug", X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    R, extra = [], {}
    if base.startswith("uk"):
        extra = dict(drift_terms=["regional_linear"])
        R = [lambda O, A, k=k: A[:, k] for k in range(dim)]
    off = X.min(axis=0) + np.ptp(X, axis=0) * data._rand(48, dim, 67)
    k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, **dict(kw, **extra)))
    r = ref.Model(X, Z, rm, rp, sc, an, drifts=R).predict(off)
    if not r.usable:
        return c.skip("ill-conditioned")
    b = "C" if cfg["backend"] == "C" else cfg["backend"].split("-")[0]
    rk = dict(backend=b)
    win = cfg["backend"].endswith("window")
    if win:
        rk["n_closest_points"] = 6
    zs = []
    for pos in range(cfg["size"]):
        for i in range(len(X)):
            P = off[: cfg["size"]].copy()
            P[pos] = X[i]
            z, s = c.ok("execute", lambda: lib.run_points(k, P, **rk))
            c.close("estimate at data point %d, position %d" % (i, pos), z[pos], Z[i], 1e-6 * (1 + abs(Z).max()))
            c.close("variance at data point %d, position %d" % (i, pos), s[pos], 0.0, 1e-6)
            if not win:
                o = np.arange(cfg["size"]) != pos
                c.close("estimates elsewhere", z[o], r.z[: cfg["size"]][o], r.tz[: cfg["size"]][o])
                c.close("variances elsewhere", s[o], r.ss[: cfg["size"]][o], r.tss[: cfg["size"]][o])
        zs.append(z)
    c.out(*zs)


def batch_valid(g):
    w = g["backend"].endswith("window")
    if g["cls"] != "ok" and (g["backend"].startswith("C")):
        return False
    return not (w and g["cls"].startswith("uk"))


def close_valid(g):
    if not batch_valid(dict(cls=g["cls"] if g["cls"] != "ok-geo" else "ok", backend=g["backend"])):
        return False
    return not (g["cls"] == "ok-geo" and (g["aniso"] != "none" or g["zoom"] != 1))


TERMS = ["rl1", "", "pl1", "ez1", "sp1", "fn2", "rl1+pl1+ez1+sp1+fn1"]


def valid(cfg):
    uk = cfg["cls"].startswith("uk")
    if cfg["mask"] != "every" and not cfg["request"].startswith("masked"):
        return False
    if not uk and cfg["terms"] != "rl1" or uk and cfg["window"] != "all":
        return False
    if cfg["cls"] == "uk3" and ("pl" in cfg["terms"] or "ez" in cfg["terms"]):
        return False
    if cfg["cls"] == "uk3" and cfg["data"] == "reg9":
        return False
    if cfg["request"].endswith("C") and (cfg["cls"] not in ("ok", "ok-geo") or cfg["model"] in ("custom", "hole-effect")):
        return False
    if cfg["window"] != "all" and cfg["request"].endswith("vectorized"):
        return False
    if cfg["cls"] == "ok-geo" and (cfg["aniso"] != "none" or cfg["data"] in ("utm7", "tiny7", "big7", "neg7")):
        return False
    if cfg["data"] == "utm7" and cfg["aniso"] != "none":
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    core = dict(
        cls=["ok", "ok3", "uk", "uk3", "ok-geo"],
        model=list(ref.MODELS) + ["custom"],
        data=["n7", "n5", "reg9", "utm7", "tiny7", "big7"] + ([] if q else ["neg7", "n12", "n40", "off7", "n3", "n2", "n9"]),
    )
    dev = dict(
        request=["points-vectorized", "points-loop", "grid-vectorized", "grid-loop", "masked-vectorized",
                 "masked-loop", "points-C", "grid-C", "masked-C"],
        window=["all", "2", "4", "n"],
        params=["nug", "nonug", "big", "small", "int", "steep"],
        values=["v", "shift", "large", "const", "zeros"],
        aniso=["none", "s3a30", "s2", "s.4a-75"],
        terms=TERMS,
        pinv=["off", "pinv", "pinvh"],
        mask=["every", "off", "on", "first", "most"],
    )
    return [
        Space("coincide", case, core, dev, bound=1 if q else 2, valid=valid),
        Space("batches", batch, dict(cls=["ok", "ok3", "uk", "uk3"], aniso=["s3a30", "s.4a-75"] if q else list(ANISO),
                                     backend=["vectorized", "loop", "C", "loop-window", "C-window"],
                                     size=[1, 2, 3, 4, 7, 8] if q else list(range(1, 19)) + [31, 32, 33],
                                     model=["spherical"] if q else ["spherical", "linear"]), valid=batch_valid),
        Space("numbers of data", sizes.hits, dict(cls=["ok", "ok3", "uk", "uk3", "ok-geo"], n=sizes.POINTS + (sizes.MANY if not q else []), backend=["vectorized", "loop", "C"], window=[0, 8, 32], aniso=[False, True]),
              valid=sizes.valid_hits),
        Space("close", close, dict(cls=["ok", "ok3", "uk", "uk3", "ok-geo"], zoom=[1.0, 1e3, 1e5, 1e-3], backend=["vectorized", "loop", "C", "loop-window", "C-window"],
                                   off=[1e-12, 1e-11, 3e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4], exact=[True, False]),
              dict(aniso=["none", "s3a30"], params=["nug", "nonug", "big"], model=["exponential", "spherical", "linear"]), bound=1, valid=close_valid),
        Space("pairs", case, dict(core, data=["n7"]), dev, bound=2 if q else 3, valid=valid),
    ]
