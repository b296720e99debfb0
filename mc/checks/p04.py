"""P04: grid, points and masked requests are one computation."""
import numpy as np

from .. import data, lib, ref, sizes
from ..drifts import Drift
from ..engine import Space
from .p01 import ANISO, setup
from .p02 import terms

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of grid shapes, axis orders, input forms and masks, differential against one-point requests"
ASSUMPTIONS = ["cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)"]

AXES = {  # fractions of the extent of the data per axis
    "plain": ([0.1, 0.45, 0.8, 1.2], [0.2, 0.55, 0.9], [0.3, 0.7]),
    "wide": ([0.1, 0.45], [0.2, 0.3, 0.55, 0.6, 0.9], [0.15, 0.5, 0.95]),
    "square": ([0.1, 0.45, 0.9], [0.2, 0.5, 0.8], [0.05, 0.3, 0.7]),
    "1x": ([0.3], [0.2, 0.55, 0.9], [0.3, 0.7]),
    "1y": ([0.1, 0.45, 0.8], [0.6], [0.3, 0.7]),
    "1z": ([0.1, 0.45, 0.8], [0.6, 0.2], [0.4]),
    "1xy": ([0.1], [0.6], [0.4, 0.8]),
    "1xyz": ([0.35], [0.6], [0.4]),
    "desc": ([1.2, 0.8, 0.1], [0.9, 0.2], [0.7, 0.3]),
    "unsorted": ([0.8, 0.1, 1.2, 0.45], [0.55, 0.9, 0.2], [0.7, 0.1, 0.3]),
    "repeated": ([0.1, 0.8, 0.8], [0.2, 0.2], [0.7, 0.7]),
    "long": (list(np.linspace(0, 1, 23)), list(np.linspace(-0.2, 0.9, 17)), [0.3, 0.5, 0.4]),
}
FORMS = ["array", "list", "column", "row", "int", "float32", "fortran", "strided", "tuple", "readonly"]


def axes_of(X, name):
    lo, w = X.min(axis=0), np.maximum(np.ptp(X, axis=0), 1e-3 * data.span(X))
    return [lo[i] + np.array(AXES[name][i]) * w[i] for i in range(X.shape[1])]


def form(a, kind):
    a = np.array(a, dtype=float)
    if kind == "list":
        return [float(v) for v in a]
    if kind == "tuple":
        return tuple(float(v) for v in a)
    if kind == "column":
        return a[:, None]
    if kind == "row":
        return a[None, :]
    if kind == "int":
        return a.astype(int)
    if kind == "float32":
        return a.astype(np.float32)
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        return np.repeat(a, 2)[::2]
    if kind == "readonly":
        a.flags.writeable = False
    return a


def mask_of(kind, shape):
    n = int(np.prod(shape))
    i = np.arange(n)
    if kind.startswith("third"):
        m = i % 3 == 1
    elif kind == "none":
        m = np.zeros(n, bool)
    elif kind == "all":
        m = np.ones(n, bool)
    elif kind == "one":
        m = i == n - 1
    elif kind == "allbut":
        m = i != n // 2
    elif kind.startswith("tri"):
        m = np.add.outer(np.arange(shape[0]) * 2, np.arange(n // shape[0])).ravel() % 5 > 2
    return m.reshape(shape)


def given(m, kind):
    if kind.endswith("-T"):
        return m.T.copy() if m.ndim == 2 else np.swapaxes(m, 0, 2).copy()
    if kind.endswith("-int"):
        return m.astype(int)
    if kind.endswith("-list"):
        return m.tolist()
    if kind.endswith("-F"):
        return np.asfortranarray(m)
    return m


def case(c, cfg):
    cls = cfg["cls"]
    geographic = cls == "ok-geo"
    base = "ok" if geographic else cls
    dim = lib.dim_of(base)
    X = data.coords(cfg["data"], dim)
    if geographic:
        lo, w = X.min(axis=0), np.ptp(X, axis=0)
        X = (X - lo) / w * np.array([340.0, 100.0]) + np.array([-170.0, -45.0])
    Z = data.values("v", len(X))
    kw, (rm, rp) = setup(cfg["model"], "nug", X)
    sc, an = ANISO[cfg["aniso"]]
    sc = None if sc is None else sc[: dim - 1]
    an = None if an is None else an[: 1 if dim == 2 else 3]
    axes = axes_of(X, cfg["axes"])
    if cfg["hit"] == "hit":
        axes = [np.concatenate([a, X[1, i : i + 1]]) for i, a in enumerate(axes)]
    if cfg["form"] == "int":
        axes = [np.round(a) for a in axes]
    if cfg["form"] == "float32":
        axes = [a.astype(np.float32).astype(float) for a in axes]
    G, shape = lib.grid_points(axes)
    D, R = None, []
    if base.startswith("uk"):
        D = Drift(dim, terms(cfg["terms"]), X, G)
        if D.count + 1 > len(X):
            return c.skip("too many drifts")
        R = D.reference(ref.Model(X, Z, "linear", [1.0, 0.0], sc, an).to_iso)
    extra = dict(coordinates_type="geographic") if geographic else {}
    if D is not None:
        extra.update(D.kw)
    k = c.ok("construct", lambda: lib.make(base, X, Z, scaling=sc, angles=an, **kw, **extra))
    r = ref.Model(X, Z, rm, rp, sc, an, drifts=R, geographic=geographic).predict(G)
    if not r.usable:
        return c.skip("ill-conditioned")

    def points(P, backend):
        e = D.exec_kw(P) if D is not None else {}
        z, s = c.ok("points", lambda: lib.run_points(k, P, backend=backend, **e))
        return np.ma.getdata(z), np.ma.getdata(s)

    # every point on its own, with the default backend
    one = [points(p[None, :], "vectorized") for p in G]
    z1 = np.concatenate([o[0].reshape(-1) for o in one])
    s1 = np.concatenate([o[1].reshape(-1) for o in one])
    b = cfg["backend"]
    zp, sp = points(G, b)
    c.true(zp.shape == (len(G),), "points: shape %s for %d targets" % (zp.shape, len(G)))
    c.close("points %s estimate" % b, zp, z1, 2 * r.tz)
    c.close("points %s variance" % b, sp, s1, 2 * r.tss)
    e = D.exec_kw(G, shape) if D is not None else {}
    inp = [form(a, cfg["form"]) for a in axes]
    zg, sg = c.ok("grid", lambda: k.execute("grid", *inp, backend=b, **e))
    c.true(zg.shape == shape and sg.shape == shape, "grid: shape %s instead of %s" % (zg.shape, shape))
    c.close("grid %s estimate" % b, zg, z1.reshape(shape), 2 * r.tz.reshape(shape))
    c.close("grid %s variance" % b, sg, s1.reshape(shape), 2 * r.tss.reshape(shape))
    m = mask_of(cfg["mask"], shape)
    mg = given(m, cfg["mask"])
    want = m
    if dim == 2 and cfg["mask"].endswith("-T") and shape[0] == shape[1]:
        want = m.T  # both orders fit: taken as given
    if dim == 3 and cfg["mask"].endswith("-T") and shape == shape[::-1]:
        want = np.swapaxes(m, 0, 2)
    zm, sm = c.ok("masked", lambda: k.execute("masked", *inp, mask=mg, backend=b, **e))
    for what, a in (("estimate", zm), ("variance", sm)):
        c.true(isinstance(a, np.ma.MaskedArray), "masked: %s is not a masked array" % what)
        c.true(a.shape == shape, "masked: shape %s instead of %s" % (a.shape, shape))
        c.same("mask of the %s" % what, np.ma.getmaskarray(a), want)
    u = ~want
    c.close("masked %s estimate" % b, np.ma.getdata(zm)[u], z1.reshape(shape)[u], 2 * r.tz.reshape(shape)[u])
    c.close("masked %s variance" % b, np.ma.getdata(sm)[u], s1.reshape(shape)[u], 2 * r.tss.reshape(shape)[u])
    c.out(z1, s1, str(zg.shape), want.astype(float))


TERMS = ["rl1", "", "pl2", "ez1", "sp1", "sp2", "fn1", "rl1+pl1+ez1+sp1+fn1"]


def valid(cfg):
    uk = cfg["cls"].startswith("uk")
    if not uk and cfg["terms"] != "rl1":
        return False
    if cfg["cls"] == "uk3" and ("pl" in cfg["terms"] or "ez" in cfg["terms"]):
        return False
    if cfg["backend"] == "C" and (cfg["cls"] not in ("ok", "ok-geo") or cfg["model"] in ("custom", "hole-effect")):
        return False
    if cfg["cls"] == "ok-geo" and (cfg["aniso"] != "none" or cfg["data"] in ("tiny7", "utm7")):
        return False
    if cfg["cls"] in ("uk", "ok3", "uk3") and cfg["mask"].endswith(("-list", "-int")):
        return False  # documented as arrays
    if cfg["data"] == "tiny7" and cfg["form"] in ("int", "float32"):
        return False
    if cfg["data"] == "utm7" and (cfg["form"] == "float32" or cfg["aniso"] not in ("none", "s2") and cfg["hit"] == "hit"):
        return False
    # rounding to integers merges points of repeated axes: nothing wrong with it
    return True


def spaces(tier):
    q = tier == "quick"
    core = dict(cls=["ok", "ok3", "uk", "uk3", "ok-geo"], axes=list(AXES), data=["n12"] if q else ["n12", "n7", "n5", "utm7"])
    dev = dict(
        backend=["vectorized", "loop", "C"],
        mask=["third", "none", "all", "one", "allbut", "tri", "third-T", "tri-T", "third-int", "third-list", "tri-list", "third-F", "tri-F"],
        form=FORMS,
        terms=TERMS,
        model=["linear", "exponential", "spherical", "power", "gaussian", "hole-effect", "custom"],
        aniso=["none", "s3a30", "s2"],
        hit=["no", "hit"],
    )
    return [
        Space("grids", case, core, dev, bound=1 if q else 2, valid=valid),
        Space("pairs", case, dict(core, axes=["plain", "square", "1x", "desc"], data=["n7"] if q else ["n7", "n40", "tiny7"]), dev,
              bound=2 if not q else 1, valid=valid),
        Space("backend-mask", case,
              dict(cls=core["cls"], data=["n7"], backend=dev["backend"], mask=dev["mask"], axes=list(AXES)),
              {k: [v[0]] for k, v in dev.items() if k not in ("backend", "mask")}, bound=0, valid=valid),
        Space("large 2D", sizes.modes, dict(cls=["ok", "uk", "ok-geo"], shape=sizes.SHAPES2[: 15 if q else None], backend=["vectorized", "loop", "C"]), valid=lambda v: v["backend"] != "C" or v["cls"] != "uk"),
        Space("large 3D", sizes.modes, dict(cls=["ok3", "uk3"], shape=sizes.SHAPES3[: 12 if q else None], backend=["vectorized", "loop"])),
    ]
