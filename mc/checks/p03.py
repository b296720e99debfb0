"""P03: all backends compute the same thing or reject the request."""
import numpy as np

from .. import data, lib, ref, sizes
from ..drifts import Drift
from ..engine import Space
from .p01 import ANISO, setup
from .p02 import terms

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of requests, differential over all backends of the implementation"
ASSUMPTIONS = [
    "cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
    "targets whose k-th and (k+1)-th neighbour are equally far are not compared (the window is ambiguous)",
]
REJECT = (ValueError, NotImplementedError, TypeError, KeyError)


def geo(name):
    """Longitude/latitude data."""
    X = data.coords(name, 2)
    lo, w = X.min(axis=0), np.maximum(np.ptp(X, axis=0), 1e-9)
    return (X - lo) / w * np.array([300.0, 120.0]) + np.array([20.0, -55.0])


def ask(c, k, cfg, backend, P, D=None):
    """The request of a case for one backend: ('ok', z, s) or ('rejected', type)."""
    dim = P.shape[1]
    kw = dict(backend=backend)
    if cfg.get("window"):
        n = cfg["n"]
        kw["n_closest_points"] = {"2": 2, "3": min(3, n), "n-1": max(2, n - 1), "n": n}[cfg["window"]]
    if cfg["style"] == "points":
        if D is not None:
            kw.update(D.exec_kw(P))
        run = lambda: lib.run_points(k, P, **kw)
        mask = None
    else:
        axes = [P[: 4 - i, i].copy() for i in range(dim)]
        G, shape = lib.grid_points(axes)
        if D is not None:
            kw.update(D.exec_kw(G, shape))
        if cfg["style"] == "masked":
            kw["mask"] = (np.arange(len(G)) % 3 == 1).reshape(shape)
        run = lambda: k.execute(cfg["style"], *axes, **kw)
    c.impl_runs += 1
    try:
        z, s = run()
    except REJECT as e:
        return "rejected", e, None
    if cfg["style"] == "masked":
        u = ~kw["mask"]
        return "ok", np.ma.getdata(z)[u], np.ma.getdata(s)[u]
    return "ok", np.ma.getdata(z), np.ma.getdata(s)


def flat(cfg, P):
    if cfg["style"] == "points":
        return P
    G, shape = lib.grid_points([P[: 4 - i, i] for i in range(P.shape[1])])
    if cfg["style"] == "masked":
        return G[np.arange(len(G)) % 3 != 1]
    return G


def case(c, cfg):
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    X = geo(cfg["data"]) if geographic else data.coords(cfg["data"], dim)
    Z = data.values(cfg["values"], len(X))
    P = data.targets(X, cfg["targets"])
    if geographic:
        P[:, 1] = np.clip(P[:, 1], -90, 90)
    kw, (rm, rp) = setup(cfg["model"], cfg["params"], X)
    sc, an = ANISO[cfg["aniso"]]
    if geographic:
        sc = an = None
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    G = flat(cfg, P)
    D = None
    R = []
    if base.startswith("uk"):
        T = P if cfg["style"] == "points" else lib.grid_points([P[: 4 - i, i] for i in range(dim)])[0]
        D = Drift(dim, terms(cfg["terms"]), X, T)
        if D.count + 1 > len(X):
            return c.skip("too many drifts")
        R = D.reference(ref.Model(X, Z, "linear", [1.0, 0.0], sc, an).to_iso)
    extra = dict(coordinates_type="geographic") if geographic else {}
    if D is not None:
        extra.update(D.kw)
    if cfg["pinv"] != "off":
        extra.update(pseudo_inv=True, pseudo_inv_type=cfg["pinv"])
    k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an,
                                           exact_values=cfg["exact"], **kw, **extra))
    m = ref.Model(X, Z, rm, rp, sc, an, exact=cfg["exact"], drifts=R, geographic=geographic)
    nw = None
    if cfg["window"] != "none":
        nw = {"2": 2, "3": min(3, len(Z)), "n-1": max(2, len(Z) - 1), "n": len(Z)}[cfg["window"]]
    r = m.predict(G, k=nw)
    cond = np.broadcast_to(np.asarray(r.cond, dtype=float), r.z.shape)
    u = cond < 1e11
    rq = dict(cfg, n=len(Z), window=None if cfg["window"] == "none" else cfg["window"])
    res = {b: ask(c, k, rq, b, P, D) for b in ("loop", "vectorized", "C")}
    for b in ("numba", "c", "", None) if cfg["data"] == "n7" else ("numba",):
        c.raises("unknown backend %r" % (b,), lambda: _raise(ask(c, k, rq, b, P, D)), REJECT)
    if not u.any() or not u.all() and any(isinstance(r[1], np.linalg.LinAlgError) for r in res.values()):
        return c.skip("ill-conditioned")
    if res["loop"][0] != "ok":
        c.fail("the loop backend rejects a valid request: %r" % (res["loop"][1],))
        return
    if nw is None and res["vectorized"][0] != "ok":
        c.fail("the vectorized backend rejects a valid request: %r" % (res["vectorized"][1],))
        return
    if base == "ok" and cfg["model"] not in ("custom", "cubic", "hole-effect") and res["C"][0] != "ok":
        c.fail("the C backend rejects a valid request: %r" % (res["C"][1],))
        return
    z0, s0 = res["loop"][1].ravel(), res["loop"][2].ravel()
    c.out(z0[u], s0[u])
    for b in ("vectorized", "C"):
        if res[b][0] == "ok":
            c.count("compared with loop: " + b)
            c.close("estimate of %s and loop" % b, res[b][1].ravel()[u], z0[u], 2 * r.tz[u])
            c.close("variance of %s and loop" % b, res[b][2].ravel()[u], s0[u], 2 * r.tss[u])
        else:
            c.count("rejected: " + b)
    must = []
    if nw is not None and base in ("ok", "ok3"):
        must.append("vectorized")
    if base != "ok" or cfg["model"] in ("custom", "cubic"):
        must.append("C")
    for b in must:
        c.true(res[b][0] == "rejected", "backend %s accepts a request it does not support" % b)


def _raise(r):
    if r[0] == "rejected":
        raise r[1]
    return r


def valid(cfg):
    if cfg["cls"].startswith("uk"):
        if cfg["window"] != "none":
            return False
    elif cfg["terms"] != TERMS[0]:
        return False
    if cfg["cls"] == "uk3" and ("pl" in cfg["terms"] or "ez" in cfg["terms"]):
        return False
    if cfg["cls"] == "ok-geo":
        if cfg["aniso"] != "none" or cfg["data"] in ("utm7", "tiny7", "big7", "off7", "neg7", "line5", "vert5"):
            return False
        if cfg["targets"] == "far":
            return False
    if cfg["targets"] == "many" and cfg["style"] != "points":
        return False
    if cfg["targets"] == "hair" and (cfg["style"] != "points" or cfg["data"] in ("utm7", "tiny7", "big7", "off7")):
        return False
    if cfg["data"] == "utm7" and cfg["aniso"] in ("s3a30", "s.4a-75", "a45"):
        return cfg["targets"] not in ("data", "mixed", "many", "dups")
    if cfg["data"] == "dup9" and cfg["params"] == "nonug":
        return False  # singular, see P18
    if cfg["data"] == "n40" and cfg["targets"] == "many" and cfg["window"] != "none":
        return False
    return True


TERMS = ["rl1", "", "pl1", "pl3", "ez1", "sp1", "sp2", "fn1", "fn2", "rl1+pl2+ez1+sp1+fn1", "rl1+sp1+fn1"]


def spaces(tier):
    q = tier == "quick"
    core = dict(
        cls=["ok", "ok3", "ok-geo", "uk", "uk3"],
        model=list(ref.MODELS) + ["custom", "cubic"],
        data=["n7", "n3", "n12", "utm7", "reg9", "dup9"] + ([] if q else ["off7", "tiny7", "big7", "n40"]),
    )
    dev = dict(
        style=["points", "grid", "masked"],
        window=["none", "2", "3", "n-1", "n"],
        terms=TERMS,
        targets=["mixed", "mid", "one", "far", "data", "near", "dups", "many", "hair"],
        params=["nug", "nonug", "big", "small", "steep", "int"],
        values=["v", "shift", "large", "neg"],
        aniso=list(ANISO),
        exact=[True, False],
        pinv=["off", "pinv", "pinvh"],
    )
    pair = dict(core, data=["n7"] if q else ["n7", "n12", "n40"])
    return [
        Space("backends", case, core, dev, bound=1 if q else 2, valid=valid),
        Space("pairs", case, pair, dev, bound=2 if q else 3, valid=valid),
        Space("sizes", sizes.backends, dict(cls=["ok", "ok3", "ok-geo", "uk", "uk3"], n=[6, 17, 33, 65, 129] + ([] if q else [200, 257]), m=[3, 64, 257, 1001] + ([] if q else [4097, 16385]),
                                            window=[0, 3, 12, 33, 65], model=["exponential", "spherical", "linear", "power"] if q else ["exponential", "spherical", "linear", "power", "gaussian"], pinv=["", "pinv"]), valid=sizes.valid_backends),
    ]
