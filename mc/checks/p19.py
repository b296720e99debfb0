"""P19: GSTools models act as variogram and anisotropy."""
import numpy as np

from .. import data, lib, ref
from ..drifts import Drift
from ..engine import Space
from .p01 import request
from .p02 import terms
from .p08 import PLACES

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of covariance models, frames and ways to set them, against a reference model whose distances come from GSTools' own isometry"
ASSUMPTIONS = [
    "GSTools' isometrize, variogram and vario_yadrenko are trusted",
    "cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
]

KINDS = ["Exponential", "Spherical", "Gaussian", "Matern", "Stable", "Rational", "Cubic", "Linear", "HyperSpherical", "JBessel"]
FRAMES = {
    "iso": (None, None),
    "anis": ([0.4, 2.5], None),
    "rot": ([0.4, 2.5], [0.7, 0.0, 0.0]),
    "rot-neg": ([3.0, 0.5], [-2.3, 0.0, 0.0]),
    "rot3": ([0.4, 2.5], [0.7, -0.5, 1.1]),
    "rot-y": ([0.4, 2.5], [0.0, 0.9, 0.0]),
    "rot-x": ([0.4, 2.5], [0.0, 0.0, -0.6]),
    "rot-only": (None, [0.9, 0.3, -0.4]),
    "scales": ("list", [0.4, 0.2, 0.1]),
}


def gsmodel(kind, frame, nugget, dim, L, rescale=None):
    import gstools as gs

    kw = dict(var=1.4, nugget=nugget)
    if dim == "latlon":
        kw["latlon"] = True
        kw["len_scale"] = 0.7
    else:
        anis, angles = FRAMES[frame]
        kw["dim"] = dim
        if anis == "list":
            kw["len_scale"] = [0.4 * L, 0.2 * L, 0.9 * L][:dim]
        else:
            kw["len_scale"] = 0.4 * L
            if anis is not None:
                kw["anis"] = anis[: dim - 1] if dim > 1 else 1.0
        if angles is not None and dim > 1:
            kw["angles"] = angles[: 1 if dim == 2 else 3]
    if rescale:
        kw["rescale"] = rescale
    return getattr(gs, kind)(**kw)


def isometric(m, P):
    """Coordinates in which the model is isotropic."""
    return np.asarray(m.isometrize(tuple(np.asarray(P, float).T))).T


def given(cls, X, Z, m, via, extra, dim):
    """The object under test, set up in one of several ways."""
    base = cls.split("-")[0]
    junk = {}
    if via.endswith("+junk"):
        junk = dict(variogram_parameters=[9.0, 0.1, 3.0], variogram_function=lambda p, d: d * 1e3)
        if dim == 2:
            junk.update(anisotropy_scaling=7.0, anisotropy_angle=12.0)
        else:
            junk.update(anisotropy_scaling_y=7.0, anisotropy_scaling_z=0.2, anisotropy_angle_x=12.0)
        if cls == "ok-geo":
            junk = dict(variogram_parameters=[9.0, 0.1, 3.0])
    via = via.split("+")[0]
    if via == "construct":
        return lib.make(base, X, Z, model=m, **dict(extra, **junk))
    if via == "update":
        k = lib.make(base, X, Z, model="linear", params=[1.0, 0.4], **extra)
    elif via == "update-aniso":
        a = {} if cls == "ok-geo" else lib.aniso_kwargs(dim, [5.0, 0.3][: dim - 1], [70.0, 5.0, 8.0][: 1 if dim == 2 else 3])
        k = lib.make(base, X, Z, model="spherical", params=[2.0, 3.0, 0.1], **dict(extra, **a))
    elif via == "update-gst":
        k = lib.make(base, X, Z, model=gsmodel("Exponential", "rot-neg", 0.3, "latlon" if cls == "ok-geo" else dim, 4.0), **extra)
    k.update_variogram_model(m, **junk)
    return k


def case(c, cfg):
    import gstools  # noqa: F401

    cls = cfg["cls"]
    base = cls.split("-")[0]
    geo = cls == "ok-geo"
    dim = lib.dim_of(base)
    X = np.array(PLACES["spread"]) if geo else data.coords(cfg["data"], dim)
    Z = data.values("v", len(X))
    L = data.span(X)
    if cfg["frame"] in ("rot3", "rot-y", "rot-x") and dim == 2:
        return c.skip("3D frame")
    mdim = "latlon" if geo else (1 if cfg["frame"] == "iso" and cfg["dim1"] and dim == 2 else dim)
    m = gsmodel(cfg["kind"], cfg["frame"], cfg["nugget"], mdim, L, cfg["rescale"])
    P = data.targets(X, cfg["targets"]) if not geo else np.concatenate([X[1:2], X[:3] * 0.7 + 5.0])
    D, R, extra = None, [], {}
    if geo:
        extra["coordinates_type"] = "geographic"
    if base.startswith("uk"):
        D = Drift(dim, terms(cfg["terms"]), X, P)
        extra.update(D.kw)
    k = c.ok("set up", lambda: given(cls, X, Z, m, cfg["via"], extra, dim))
    style, backend = cfg["request"].split("-")
    kw = {}
    if D is not None and D.spec_fns:
        if style != "points":
            return c.skip("points only")
        kw = D.exec_kw(P)
    G, z, s, mask = request(c, k, base, style, backend, P, kw)
    if geo:
        gam = lambda p, d: m.vario_yadrenko(np.deg2rad(d))
        r = ref.Model(X, Z, gam, [], geographic=True).predict(G)
    else:
        gam = lambda p, d: m.variogram(d)
        if mdim == 1:
            iso = lambda Q: np.asarray(Q, float)
        else:
            iso = lambda Q: isometric(m, Q)
        XI, GI = iso(X), iso(G)
        if D is not None:
            # the drifts are functions of the original or (regional linear) of any linear frame
            if cfg["terms"] == "rl1":
                R = [lambda O, A, i=i: A[:, i] for i in range(dim)]
            else:
                R = [(f(X), f(G)) for f in D.spec_fns]
                # tuple drifts carry their target values separately
                drift_at = [b for a, b in R]
                R = [(a,) for a, b in R]
                r = ref.Model(XI, Z, gam, [], drifts=R).predict(GI, drift_at)
        if D is None or cfg["terms"] == "rl1":
            r = ref.Model(XI, Z, gam, [], drifts=R).predict(GI)
    if not r.usable:
        return c.skip("ill-conditioned")
    u = slice(None) if mask is None else ~mask
    f = 1e3 if geo else 10  # chord and yadrenko variogram: arcsin near zero
    c.close("estimate", z[u], r.z[u], f * r.tz[u])
    c.close("variance", s[u], r.ss[u], f * r.tss[u])
    if not geo:
        lags, sv, edge, w = ref.experimental(XI if not geo else X, Z, 6, geo)
        if edge > 1e-7 * L:
            c.close("lags", np.array(k.lags, float), lags, 1e-9 * L)
            c.close("semivariances", np.array(k.semivariance, float), sv, 1e-9 * (1 + np.abs(sv)))
    c.out(z[u], s[u])


def reject(c, cfg):
    """Unusable models are rejected by the constructor and by an update."""
    import gstools as gs

    cls = cfg["cls"]
    base = cls.split("-")[0]
    dim = lib.dim_of(base)
    geo = cls == "ok-geo"
    X = np.array(PLACES["spread"]) if geo else data.coords("n7", dim)
    Z = data.values("v", len(X))
    extra = dict(coordinates_type="geographic") if geo else {}
    models = {
        "dim1": gs.Exponential(dim=1, len_scale=2.0), "dim2": gs.Exponential(dim=2, len_scale=2.0),
        "dim3": gs.Exponential(dim=3, len_scale=2.0), "dim4": gs.Exponential(dim=4, len_scale=2.0),
        "latlon": gs.Exponential(latlon=True, len_scale=0.5),
        "latlon-time": gs.Exponential(latlon=True, temporal=True, len_scale=0.5),
        "time1": gs.Exponential(spatial_dim=1, temporal=True, len_scale=2.0),
        "time2": gs.Exponential(spatial_dim=2, temporal=True, len_scale=2.0),
        "time3": gs.Exponential(spatial_dim=3, temporal=True, len_scale=2.0),
    }
    m = models[cfg["model"]]
    good = {"ok": ("dim1", "dim2", "time1"), "uk": ("dim1", "dim2", "time1"), "ok-geo": ("dim1", "dim2", "time1", "latlon"),
            "ok3": ("dim3", "time2"), "uk3": ("dim3", "time2")}[cls]
    if cfg["via"] == "construct":
        f = lambda: lib.make(base, X, Z, model=m, **extra)
    else:
        k = lib.make(base, X, Z, params=[1.0, 0.2], **extra)
        f = lambda: (k.update_variogram_model(m), k)[1]
    if cfg["model"] in good:
        k = c.ok("accept", f)
        z, s = c.ok("execute", lambda: lib.run_points(k, X[:3] + 0.2))
        c.out(z, s)
        return
    c.raises("model %s for %s" % (cfg["model"], cls), f, (ValueError,))


class Fake:
    """Looks like a GSTools model."""

    pykrige_kwargs = {}
    pykrige_vario = staticmethod(lambda p, d: d)
    pykrige_anis = pykrige_anis_y = pykrige_anis_z = 1.0
    pykrige_angle = pykrige_angle_x = pykrige_angle_y = pykrige_angle_z = 0.0
    latlon = False

    def __init__(self, dim):
        self.dim = self.field_dim = dim


def fake(c, cfg):
    from pykrige.compat_gstools import GSToolsException

    dim = lib.dim_of(cfg["cls"])
    X, Z = data.coords("n7", dim), data.values("v", 7)
    c.raises("a model that is no CovModel", lambda: lib.make(cfg["cls"], X, Z, model=Fake(dim)), (GSToolsException, ValueError, TypeError))
    k = lib.make(cfg["cls"], X, Z, params=[1.0, 0.2])
    c.raises("a model that is no CovModel", lambda: k.update_variogram_model(Fake(dim)), (GSToolsException, ValueError, TypeError))
    z, s = lib.run_points(k, X[:2] + 0.1)
    c.out(z, s)


def valid(g):
    if g["cls"] == "uk3" and g["data"] == "reg9":
        return False  # collinear with the linear drift
    if g["cls"] == "ok-geo":
        return g["frame"] == "iso" and not g["dim1"] and g["kind"] not in ("Gaussian", "Linear", "JBessel", "Rational", "Stable") and g["data"] == "n7"
    if g["cls"].endswith("3") and g["kind"] == "Linear":
        return False  # valid in one dimension only
    if g["kind"] == "Linear" and not g["dim1"]:
        return False
    if g["dim1"] and (g["frame"] != "iso" or g["cls"].endswith("3")):
        return False
    return True


def spaces(tier):
    q = tier == "quick"
    cl = ["ok", "ok-geo", "uk", "ok3", "uk3"]
    dev = dict(
        via=["construct", "update", "update-aniso", "update-gst", "construct+junk", "update+junk"],
        request=["points-vectorized", "points-loop", "grid-vectorized", "masked-loop"],
        data=["n7", "n12", "off7", "reg9", "k33", "k65"],
        targets=["mixed", "far", "near"],
        nugget=[0.2, 0.0, 1.5],
        rescale=[None, 2.0],
        dim1=[False, True],
        terms=["rl1", "sp1"],
    )
    return [
        Space("models", case, dict(cls=cl, kind=KINDS, frame=list(FRAMES)), dev, bound=1 if q else 3, valid=valid),
        Space("rejections", reject, dict(cls=cl, via=["construct", "update"],
                                         model=["dim1", "dim2", "dim3", "dim4", "latlon", "latlon-time", "time1", "time2", "time3"])),
        Space("imitations", fake, dict(cls=["ok", "uk", "ok3", "uk3"])),
    ]
