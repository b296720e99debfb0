"""P02: universal kriging honours every requested drift term."""
import numpy as np

from .. import data, lib, ref, sizes
from ..drifts import CALLS, FORMS, Drift
from ..engine import Space
from .p01 import ANISO, setup

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of drift-term combinations with bounded deviations against an extended-precision reference model"
ASSUMPTIONS = ["cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)"]


def terms(t):
    return {k[:2]: int(k[2:]) for k in t.split("+") if k}


def request(c, k, D, style, backend, P, spec_t=False):
    dim = P.shape[1]
    if style == "points":
        z, s = c.ok("execute", lambda: lib.run_points(k, P, backend=backend, **D.exec_kw(P)))
        return P, np.asarray(z), np.asarray(s), None
    axes = [P[: 5 - i, i].copy() for i in range(dim)]
    G, shape = lib.grid_points(axes)
    kw = D.exec_kw(G, shape)
    if spec_t and kw:
        kw["specified_drift_arrays"] = [
            np.swapaxes(a, 0, 2).copy() if dim == 3 else a.T.copy() for a in kw["specified_drift_arrays"]
        ]
    mask = None
    if style == "masked":
        mask = (np.arange(len(G)) % 3 == 1).reshape(shape)
        z, s = c.ok("execute", lambda: k.execute("masked", *axes, mask=mask, backend=backend, **kw))
        mask = mask.ravel()
    else:
        z, s = c.ok("execute", lambda: k.execute("grid", *axes, backend=backend, **kw))
    c.true(z.shape == shape and s.shape == shape, "shape %s instead of %s" % (z.shape, shape))
    return G, np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel(), mask


def case(c, cfg):
    cls = cfg["cls"]
    dim = lib.dim_of(cls)
    X = data.coords(cfg["data"], dim)
    P = data.targets(X, cfg["targets"])
    kw, (rm, rp) = setup(cfg["model"], "nug" if cfg["params"] == "auto" else cfg["params"], X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    G = P
    style, backend = cfg["request"].split("-")
    if style != "points":
        G, _ = lib.grid_points([P[: 5 - i, i] for i in range(dim)])
    D = Drift(dim, terms(cfg["terms"]), X, G, cfg["wells"], cfg["order"], cfg["orient"] == "T", cfg["form"], cfg["calls"], cfg["scale"])
    if D.count + 1 > len(X):
        return c.skip("too many drifts")
    probe = ref.Model(X, np.zeros(len(X)), "linear", [1.0, 0.0], sc, an)
    R = D.reference(probe.to_iso)
    if cfg["values"] == "span":
        Z = 2.5 * np.ones(len(X))
        w = []
        for i, f in enumerate(R):
            v = np.asarray(f(probe.X, probe.XA), dtype=float)
            w.append((0.7 - 0.4 * i) / (1.0 if cfg["scale"] == 1.0 else np.abs(v).max()))
            Z = Z + w[-1] * v
    else:
        Z = data.values(cfg["values"], len(X))
    if cfg["params"] == "auto":
        kw.pop("params", None)
    k = c.ok("construct", lambda: lib.make(cls, X, Z, scaling=sc, angles=an,
                                           exact_values=cfg["exact"], **kw, **D.kw))
    if cfg["params"] == "auto":
        rp = [float(v) for v in k.variogram_model_parameters]
    G, z, s, mask = request(c, k, D, style, backend, P, cfg["orient"] == "T")
    m = ref.Model(X, Z, rm, rp, sc, an, exact=cfg["exact"], drifts=R)
    r = m.predict(G)
    if not r.usable:
        return c.skip("ill-conditioned")
    u = slice(None) if mask is None else ~mask
    if cfg["wells"].startswith("beside"):  # the distance to the well is a difference of coordinates
        rel = 1e-14 * np.abs(X).max() / float(cfg["wells"][6:])
        r.tz, r.tss = r.tz + rel * (1 + np.abs(r.z).max()), r.tss + rel * (1 + np.abs(r.ss).max())
    if cfg["scale"] != 1.0:  # badly scaled systems amplify rounding
        r.tz, r.tss = 1e3 * r.tz, 1e3 * r.tss
    c.close("estimate", z[u], r.z[u], r.tz[u])
    c.close("variance", s[u], r.ss[u], r.tss[u])
    if cfg["values"] == "span":
        want = 2.5 * np.ones(len(G))
        GA = m.to_iso(G)
        for i, f in enumerate(R):
            want = want + w[i] * np.asarray(f(np.asarray(G, dtype=np.longdouble), GA), dtype=float)
        c.close("reproduced drift", z[u], want[u], r.tz[u] + 1e-9 * np.abs(want).max())
    c.out(z[u], s[u])


def all_terms(dim, tier):
    out = []
    for rl in (0, 1):
        for pl in ((0, 1, 3) if dim == 2 else (0,)):
            for ez in ((0, 1) if dim == 2 else (0,)):
                for sp in (0, 1, 2):
                    for fn in (0, 1, 2):
                        t = [("rl", rl), ("pl", pl), ("ez", ez), ("sp", sp), ("fn", fn)]
                        out.append("+".join("%s%d" % x for x in t if x[1]))
    return sorted(out, key=lambda s: (s.count("+"), len(s), s))


def valid(cfg):
    if cfg["aniso"] != "none" and cfg["wells"] != "gen":
        return False
    if cfg["wells"] != "gen" and "pl" not in cfg["terms"]:
        return False
    if cfg["wells"] == "target" and cfg["request"].split("-")[0] != "points" and cfg["targets"] == "one":
        return False
    if cfg["orient"] == "T" and "ez" not in cfg["terms"] and "sp" not in cfg["terms"]:
        return False
    if cfg["orient"] == "T" and "sp" in cfg["terms"] and cfg["targets"] == "one":
        return False
    if cfg["form"] != "float" and not set(cfg["terms"].replace("+", "")) & set("pezs"):
        return False
    if cfg["form"] != "float" and cfg["wells"] != "gen":
        return False
    if cfg["calls"] != "function" and "fn" not in cfg["terms"]:
        return False
    if cfg["scale"] != 1.0 and (cfg["form"] != "float" or cfg["terms"] in ("", "rl1")):
        return False
    if cfg["params"] == "auto" and cfg["model"] in ("custom", "cubic"):
        return False
    if cfg["params"] == "auto" and cfg["values"] == "span" and not cfg["terms"]:
        return False  # nothing to fit in constant data
    return True


def spaces(tier):
    dev = dict(
        request=["points-vectorized", "points-loop", "grid-vectorized", "grid-loop",
                 "masked-vectorized", "masked-loop"],
        model=["linear", "exponential", "spherical", "power", "gaussian", "hole-effect", "custom", "cubic"],
        targets=["mixed", "mid", "one", "far", "data", "near", "dups"],
        values=["v", "span", "shift", "large"],
        params=["nug", "nonug", "big", "auto"],
        aniso=list(ANISO),
        wells=["gen", "data", "target", "beside1e-3", "beside1e-5", "beside1e-7", "beside1e-9"],
        form=list(FORMS),
        orient=["N", "T"],
        order=["normal", "reversed"],
        calls=list(CALLS),
        exact=[True, False],
        scale=[1.0, 1e-5, 1e-2, 100.0],
    )
    q = tier == "quick"
    out = []
    for cls in ("uk", "uk3"):
        T = all_terms(lib.dim_of(cls), tier)
        out.append(Space(cls + "-terms", case, dict(cls=[cls], data=["n12", "n40"] if q else ["n12", "n40", "off7", "n9"],
                                                   terms=T), dev, bound=1 if q else 2, valid=valid))
    out.append(Space("uk-pairs", case, dict(cls=["uk"], data=["n12"], terms=[
        "rl1", "pl1", "pl3", "ez1", "sp1", "sp2", "fn1", "fn2", "rl1+pl1+ez1+sp1+fn1"]), dev, bound=2, valid=valid))
    out.append(Space("uk3-pairs", case, dict(cls=["uk3"], data=["n12"], terms=[
        "rl1", "sp1", "sp2", "fn1", "fn2", "rl1+sp1+fn1", ""]), dev, bound=2, valid=valid))
    # every order of the drift terms, and up to six terms of a kind
    for cls, full, every in (("uk", "rl1+pl1+ez1+sp1+fn1", ["pl2", "pl4", "pl5", "pl6", "sp3", "sp4", "fn3", "fn4", "pl2+sp3+fn3", "rl1+pl4+ez1+sp2+fn2", "pl6+ez1+sp4+fn4"]),
                             ("uk3", "rl1+sp1+fn1", ["sp3", "sp4", "fn3", "fn4", "sp3+fn3", "rl1+sp4+fn4"])):
        k = 120 if cls == "uk" else 6
        out.append(Space(cls + "-orders", case, dict(cls=[cls], data=["n12"], terms=[full], order=["order%d" % i for i in range(k)], **{
            a: v[:1] if a != "request" else ["points-vectorized", "points-loop", "grid-vectorized", "masked-loop"] for a, v in dev.items() if a != "order"})))
        out.append(Space(cls + "-many", case, dict(cls=[cls], data=["n40"], terms=every, **{
            a: v[:1] if a not in ("request", "model", "order") else v if a != "model" else v[:2] for a, v in dev.items()})))
    v = lambda g: not (q and g["request"].endswith("loop") and g["m"] > 5000 or q and g["n"] > 150)
    out.append(Space("numbers of targets", sizes.case, dict(cls=["uk", "uk3"], n=[17], m=sizes.TARGETS + ([] if q else sizes.MORE),
                                                            request=dev["request"]), valid=v))
    out.append(Space("numbers of data", sizes.case, dict(cls=["uk", "uk3"], n=sizes.POINTS, m=[37], request=dev["request"]), valid=v))
    out.append(Space("numbers of data (smooth)", sizes.case, dict(cls=["uk", "uk3"], n=sizes.POINTS + ([300, 513] if q else sizes.MANY), m=[37], model=["gaussian", "spherical"], nugget=[1e-3],
                                                                  request=["points-vectorized", "points-loop"]), valid=lambda g: not q or g["n"] <= 150 or g["request"].endswith("vectorized") and g["model"] == "spherical"))
    return out
