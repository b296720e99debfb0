"""P17: fit statistics follow their definition."""
import itertools

import numpy as np

from .. import data, lib, ref, sizes
from ..drifts import Drift
from ..engine import Space
from .p01 import ANISO, setup
from .p08 import PLACES

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of data sets, orders, models and frames; the sequence of kriging systems is solved by an extended-precision reference model"
ASSUMPTIONS = [
    "data sets whose kriging systems have a condition number above 1e9, or a kriging variance near zero (1e-13 to 1e-7; to 2e-10 for values in small units), are not judged (counted as skipped)",
    "no more than two data points coincide",
]


def sequential(X, Z, rm, rp, sc, an, geo, average):
    """(delta, sigma, tolerances) of each point kriged from the preceding ones.

    average: coinciding preceding points are replaced by their mean value."""
    center = ref.center_of(X)
    out = []
    for i in range(1, len(Z)):
        Y, V = X[:i], Z[:i]
        if average:
            groups = {}
            for p, v in zip(map(tuple, Y), V):
                groups.setdefault(p, []).append(v)
            Y = np.array(list(groups))
            V = np.array([np.mean(v) for v in groups.values()])
        if len(V) == 1:
            # one point: the estimate is its value, the variance 2 gamma
            m = ref.Model(Y, V, rm, rp, sc, an, geographic=geo, center=center)
            d = m.dist(m.to_iso(X[i : i + 1]), m.XA)[0, 0]
            g = float(m.gamma(np.array([d]))[0]) if d > ref.COINCIDE else 0.0
            out.append((float(Z[i] - V[0]), 2 * g, 1e-10 * (1 + abs(float(V[0]))), 1e-10 * g + 1e-9 * g))
            continue
        r = ref.Model(Y, V, rm, rp, sc, an, geographic=geo, center=center).predict(X[i : i + 1])
        if not r.cond < 1e9:
            return None
        out.append((float(Z[i] - r.z[0]), float(r.ss[0]), float(r.tz[0]), float(r.tss[0])))
    return out


def values_of(c, k, via):
    acc = k.get_statistics()
    c.true(len(acc) == 3, "get_statistics has %d entries" % len(acc))
    c.same("Q1", acc[0], k.Q1)
    c.same("Q2", acc[1], k.Q2)
    c.same("cR", acc[2], k.cR)
    e = k.get_epsilon_residuals()
    c.same("epsilon", e, k.epsilon)
    return np.array(k.delta, float), np.array(k.sigma, float), np.array(e, float), acc


def judge(c, k, seq, via="construct", unit=1.0):
    delta, sigma, eps, (q1, q2, cr) = values_of(c, k, via)
    near = 1e-7 if unit >= 1 else 2e-10
    if any(-near < s < near and abs(s) > 1e-13 for _, s, _, _ in seq):
        return c.skip("variance near zero")
    if any(s < 0 for _, s, _, _ in seq if abs(s) > near):
        return c.skip("negative variance")
    keep = [t for t in seq if t[1] > near]
    if not keep:
        return c.skip("no residuals")
    wd = np.array([t[0] for t in keep])
    ws = np.sqrt(np.array([t[1] for t in keep]))
    td = np.array([t[2] for t in keep])
    ts = np.array([t[3] for t in keep]) / ws + 1e-12 * unit
    ok = c.close("delta", delta, wd, td) and c.close("sigma", sigma, ws, ts)
    if not ok:
        return
    we = wd / ws
    te = td / ws + np.abs(we) * ts / ws + 1e-12
    c.close("epsilon", eps, we, te * 2)
    n = len(keep)
    c.close("Q1", q1, abs(np.sum(we)) / n, np.sum(te) / n * 2 + 1e-12)
    c.close("Q2", q2, np.sum(we**2) / n, np.sum((2 * np.abs(we) + te) * te) / n * 2 + 1e-12)
    gm = np.exp(np.mean(np.log(ws**2)))
    q = np.sum(we**2) / n
    c.close("cR", cr, q * gm, 4 * gm * (np.sum((2 * np.abs(we) + te) * te) / n + q * np.mean(ts / ws)) + q * gm * 1e-10)
    c.out(delta, sigma, eps, [q1, q2, cr])
    c.count("residuals", n)


def make(c, cls, X, Z, kw, sc, an, via, geo=False, pinv=None, exact=True):
    extra = {}
    if pinv:
        extra = dict(pseudo_inv=True, pseudo_inv_type=pinv)
    base = cls.split("-")[0]
    if cls == "uk-all":
        d = Drift(2, dict(rl=1, pl=1, sp=1, fn=1), X, X)
        extra.update(d.kw)
    elif base in ("uk", "uk3"):
        extra.update(drift_terms=["regional_linear"])
    if geo:
        extra["coordinates_type"] = "geographic"
        sc = an = None
    if exact is not True:
        extra["exact_values"] = False
    if via == "construct":
        st = dict(enable_statistics=True) if base == "ok" else {}
        return c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, **dict(kw, **dict(extra, **st))))
    k = c.ok("construct", lambda: lib.make(base, X, Z, model="linear", params=[1.0, 0.5], **extra))
    u = {n: v for n, v in kw.items() if n not in ("model", "params")}
    if kw.get("params") is not None:
        u["variogram_parameters"] = kw["params"]
    if not geo:
        u.update(lib.aniso_kwargs(X.shape[1], sc, an))
    c.ok("update", lambda: k.update_variogram_model(kw["model"], **u))
    return k


def case(c, cfg):
    cls = cfg["cls"]
    geo = cls == "ok-geo"
    dim = lib.dim_of(cls.split("-")[0])
    if geo:
        X = np.array(PLACES[cfg["data"]] if cfg["data"] in PLACES else PLACES["spread"])
    else:
        X = data.coords(cfg["data"], dim)
    if len(X) > 15 and cfg["data"][0] != "k":
        X = X[:15]
    if geo and cfg["data"][0] == "k":
        X = sizes.field(int(cfg["data"][1:]), 2, True)
    if cfg["order"] == "reversed":
        X = X[::-1].copy()
    elif cfg["order"] == "rotated":
        X = np.roll(X, 2, axis=0)
    Z = data.values(cfg["values"], len(X))
    kw, (rm, rp) = setup(cfg["model"], cfg["params"], X)
    unit = cfg["unit"]
    if unit != 1:  # the values are given in another unit
        Z = Z * unit
        at = dict(linear=[0, 1], custom=[0, 2, 3]).get(cfg["model"], [0, 2])
        kw["params"], rp = ([v * unit**2 if i in at else v for i, v in enumerate(p)] for p in (kw["params"], rp))
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    k = make(c, cls, X, Z, kw, sc, an, cfg["via"], geo, cfg["pinv"], cfg["exact"])
    seq = sequential(X, Z, rm, rp, None if geo else sc, None if geo else an, geo, False)
    if seq is None:
        return c.skip("ill-conditioned")
    judge(c, k, seq, unit=unit)


def auto(c, cfg):
    """Fitted parameters: the statistics are those of the fitted model."""
    cls = cfg["cls"]
    geo = cls == "ok-geo"
    dim = lib.dim_of(cls.split("-")[0])
    X = np.array(PLACES["spread"]) if geo else data.coords(cfg["data"], dim)[:12]
    Z = data.values("v", len(X))
    k = make(c, cls, X, Z, dict(model=cfg["model"], weight=cfg["weight"]), None, None, cfg["via"], geo)
    rp = [float(v) for v in k.variogram_model_parameters]
    seq = sequential(X, Z, cfg["model"], rp, None, None, geo, False)
    if seq is None:
        return c.skip("ill-conditioned")
    judge(c, k, seq)


def order(c, cfg):
    """All orders of five points."""
    cls = cfg["cls"]
    dim = lib.dim_of(cls)
    X = data.coords("n5", dim)[list(cfg["perm"])]
    Z = data.values("v", 5)[list(cfg["perm"])]
    kw, (rm, rp) = setup(cfg["model"], "nug", X)
    k = make(c, cls, X, Z, kw, None, None, "construct")
    judge(c, k, sequential(X, Z, rm, rp, None, None, False, False))


def duplicates(c, cfg):
    """Repeated data points: residuals of zero error are left out."""
    cls = cfg["cls"]
    geo = cls == "ok-geo"
    dim = lib.dim_of(cls.split("-")[0])
    X = np.array(PLACES["spread"])[:6] if geo else data.coords("n7", dim)[:6]
    Z = data.values("v", 6)
    i, j = cfg["pair"]
    X = X.copy()
    X[j] = X[i]
    kw, (rm, rp) = setup(cfg["model"], "nonug" if cfg["pinv"] else "nug", X)
    k = make(c, cls, X, Z, kw, None, None, cfg["via"], geo, cfg["pinv"])
    seq = sequential(X, Z, rm, rp, None, None, geo, bool(cfg["pinv"]))
    if seq is None:
        return c.skip("ill-conditioned")
    judge(c, k, seq)


def absent(c, cfg):
    """Without enable_statistics nothing is computed, an update computes them."""
    X, Z = data.coords("n7", 2), data.values("v", 7)
    kw, (rm, rp) = setup(cfg["model"], "nug", X)
    k = lib.make("ok", X, Z, **kw)
    c.true(k.get_statistics() == (None, None, None), "statistics %r without enable_statistics" % (k.get_statistics(),))
    c.true(k.get_epsilon_residuals() is None, "epsilon without enable_statistics")
    u = {n: v for n, v in kw.items() if n not in ("model", "params")}
    k.update_variogram_model(kw["model"], kw["params"], **u)
    judge(c, k, sequential(X, Z, rm, rp, None, None, False, False))


def spaces(tier):
    q = tier == "quick"
    cl = ["ok", "ok-geo", "uk", "uk-all", "ok3", "uk3"]
    models = list(ref.MODELS) + ["custom"]
    geo_bad = ("power", "gaussian", "hole-effect")
    v = lambda g: g["cls"] != "ok-geo" or g["model"] not in geo_bad
    dev = dict(
        data=["n7", "n2", "n3", "n5", "n9", "off7", "tiny7", "big7", "reg9", "line5", "n12"],
        values=["v", "shift", "small", "large", "const", "neg"],
        params=["nug", "nonug", "big", "small", "steep", "int"],
        aniso=list(ANISO),
        via=["construct", "update"],
        order=["given", "reversed", "rotated"],
        pinv=[None, "pinv", "pinvh"],
        exact=[True, False],
        unit=[1.0, 1e-4, 1e3],
    )
    pairs = list(itertools.combinations(range(6), 2))
    return [
        Space("sequence", case, dict(cls=cl, model=models), dev, bound=1 if q else 3, valid=v),
        Space("sizes", case, dict(cls=cl, model=["exponential", "spherical", "linear"], data=["k%d" % n for n in [15, 16, 17, 32, 33] + ([] if q else [63, 64, 65, 100, 129])]),
              dict({k: v[:1] for k, v in dev.items() if k != "data"}, via=dev["via"], aniso=["none", "s3a30"]), bound=1, valid=v),
        # the product of the variances leaves the range of floating point numbers
        Space("units", case, dict(cls=cl, model=["exponential", "spherical"], data=["k65"] if q else ["k33", "k65", "k100"], unit=[1e-4, 1e3] if q else [1e-4, 3e-4, 1e2, 1e3]),
              dict({k: v[:1] for k, v in dev.items() if k not in ("data", "unit")}, via=dev["via"]), bound=1, valid=v),
        Space("orders", order, dict(cls=["ok", "ok3"] if q else ["ok", "uk", "ok3", "uk3"], model=["linear", "spherical"] if q else models,
                                    perm=list(itertools.permutations(range(5))))),
        Space("duplicates", duplicates, dict(cls=cl, model=["linear", "exponential", "spherical"] if q else models[:-1], pair=pairs,
                                             pinv=[None, "pinv", "pinvh"], via=["construct", "update"]), valid=lambda g: v(g) and g["cls"] != "uk-all"),
        Space("fitted", auto, dict(cls=cl, model=ref.MODELS, data=["n7", "n12"], weight=[False, True], via=["construct", "update"]), valid=v),
        Space("on request", absent, dict(model=models)),
    ]
