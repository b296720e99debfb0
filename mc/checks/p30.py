"""P30: only the values of inputs count, not their containers and types."""
import array
import contextlib
import io
import fractions

import numpy as np

from .. import data, lib
from .. import objects as ob
from ..engine import Space

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of argument slots, containers and element types (every slot alone, all pairs of slots, all slots together) against the same request with float64 arrays and Python scalars"
ASSUMPTIONS = [
    "the inputs hold small integers or dyadic fractions, which all types represent exactly",
    "containers are array-like with one value per data point; scalars are Python or numpy numbers",
]

# representations of one-dimensional data
FORMS = {
    "list": lambda a: a.tolist(),
    "ints": lambda a: [int(v) if v == int(v) else v for v in a],
    "tuple": lambda a: tuple(a.tolist()),
    "int64": lambda a: a.astype(np.int64),
    "int32": lambda a: a.astype(np.int32),
    "int16": lambda a: a.astype(np.int16),
    "int8": lambda a: a.astype(np.int8),
    "uint8": lambda a: a.astype(np.uint8),
    "uint16": lambda a: a.astype(np.uint16),
    "uint32": lambda a: a.astype(np.uint32),
    "uint64": lambda a: a.astype(np.uint64),
    "bool": lambda a: a.astype(bool),
    "float32": lambda a: a.astype(np.float32),
    "float16": lambda a: a.astype(np.float16),
    "longdouble": lambda a: a.astype(np.longdouble),
    "bigendian": lambda a: a.astype(">f8"),
    "object": lambda a: a.astype(object),
    "fractions": lambda a: [fractions.Fraction(v) for v in a],
    "numpy scalars": lambda a: list(a.astype(np.float32)),
    "column": lambda a: a.reshape(-1, 1),
    "row": lambda a: a.reshape(1, -1),
    "strided": lambda a: np.repeat(a, 3, axis=0)[1::3],
    "reversed": lambda a: a[::-1].copy()[::-1],
    "readonly": lambda a: np.frombuffer(a.tobytes()).reshape(a.shape),
    "masked": lambda a: np.ma.array(a),
    "array.array": lambda a: array.array("d", a),
    "memoryview": lambda a: memoryview(a.copy()),
    "matrix column": lambda a: np.array(a)[:, None][:, :1].T.T,
}
FRACTIONAL = [f for f in FORMS if "int" not in f and f != "bool"]  # hold halves

X3 = np.array([[0, 1, 3], [9, 2, 1], [4, 7, 0], [2, 11, 8], [12, 9, 5], [6, 4, 10], [10, 12, 2], [1, 6, 12], [7, 0, 6], [3, 3, 9]], float)
Z = np.array([3, 0, 7, 2, 9, 4, 12, 1, 6, 11], float)
ZB = np.array([1, 0, 1, 1, 0, 0, 1, 0, 1, 0], float)
P3 = np.array([[1, 2, 4], [8, 8, 8], [5, 3, 1], [4, 7, 0], [11, 0, 9]], float)


def fits(form, a):
    """Whether the form represents the values."""
    a = np.asarray(a)
    if form == "bool":
        return bool(np.isin(a, (0, 1)).all())
    if form.startswith("uint") or form.startswith("int") and form != "ints":
        i = np.iinfo(form)
        return bool((a == np.rint(a)).all() and (a >= i.min).all() and (a <= i.max).all())
    if form in ("float16", "float32", "numpy scalars"):
        t = np.float16 if form == "float16" else np.float32
        with np.errstate(over="ignore"):
            return bool((a.astype(t).astype(float) == a).all())
    return True


def problem(cls, half=False, mag=0):
    """mag: all coordinates times a power of two (beyond the range of small types)."""
    dim = lib.dim_of(cls.split("-")[0])
    X, P = X3[:, :dim].copy(), P3[:, :dim].copy()
    if cls == "ok-geo":
        X, P = X * 8 - 30, P * 8 - 30
    if half:
        X, P = X + 0.5, P + 0.25
    return X * 2.0 ** mag, P * 2.0 ** mag


SETTINGS = {
    "linear": dict(variogram_model="linear", variogram_parameters=[1.5, 0.25]),
    "auto": dict(variogram_model="spherical", nlags=5),
    "power": dict(variogram_model="power", variogram_parameters=[0.5, 1.25, 0.5]),
    "exp-stats": dict(variogram_model="exponential", variogram_parameters=[4.0, 6.0, 0.5]),
}


def build(cls, cols, val, setting, aniso, mag=0, **more):
    base = cls.split("-")[0]
    kw = dict(SETTINGS[setting])
    if setting == "exp-stats":
        p = kw["variogram_parameters"]
        kw["variogram_parameters"] = [p[0], p[1] * 2.0 ** mag, p[2]]
    if setting == "exp-stats" and base == "ok":
        kw["enable_statistics"] = True
    dim = lib.dim_of(base)
    if cls == "ok-geo":
        kw["coordinates_type"] = "geographic"
    elif aniso:
        kw.update(lib.aniso_kwargs(dim, [2.0, 0.5][: dim - 1], [30.0, -20.0, 45.0][: 1 if dim == 2 else 3]))
    if base.startswith("uk"):
        kw["drift_terms"] = ["regional_linear"]
    kw.update(more)
    return lib.classes()[base](*cols, val, **kw)


def look(c, cls, k, pts, **kw):
    """Everything visible of an object, and predictions at the points."""
    o = {}
    for a in ("lags", "semivariance", "variogram_model_parameters"):
        o[a] = np.array(getattr(k, a), dtype=float)
    for a in ("delta", "sigma", "epsilon"):
        v = getattr(k, a)
        if v is not None:
            o[a] = np.array(v, dtype=float)
    z, s = c.ok("points", lambda: k.execute("points", *pts, **kw))
    o["z"], o["s"] = np.array(np.ma.getdata(z), float), np.array(np.ma.getdata(s), float)
    return o


def agree(c, what, got, want):
    c.true(set(got) == set(want), "%s: %s instead of %s" % (what, sorted(got), sorted(want)))
    for a in want:
        if a in got:
            c.close("%s: %s" % (what, a), got[a], want[a], 1e-9 * (1 + np.abs(np.nan_to_num(want[a])).max()))


def coordinates(c, cfg):
    """Data and targets in one or two slots as another type."""
    cls = cfg["cls"]
    X, P = problem(cls, cfg["half"], cfg["mag"])
    val = ZB if cfg["boolean"] else (Z + (0.5 if cfg["half"] else 0)) * 2.0 ** cfg["mag"]
    dim = X.shape[1]
    slots = ["x", "y", "z"][:dim] + ["val"] + ["px", "py", "pz"][:dim]
    raw = dict(zip(slots, [X[:, i].copy() for i in range(dim)] + [val.copy()] + [P[:, i].copy() for i in range(dim)]))
    use = dict(raw)
    chosen = {"all": slots, "data": slots[: dim + 1], "coordinates": slots[:dim], "targets": slots[dim + 1:]}.get(cfg["slot"], [cfg["slot"]])
    if not set(chosen) <= set(slots):
        return c.skip("no such argument")
    for s in chosen:
        if not fits(cfg["form"], raw[s]):
            return c.skip("not representable")
        use[s] = FORMS[cfg["form"]](raw[s])
    if cfg["also"]:
        if cfg["also"] not in slots or not fits(cfg["with"], raw[cfg["also"]]):
            return c.skip("not representable")
        use[cfg["also"]] = FORMS[cfg["with"]](raw[cfg["also"]])
    kw = dict(backend=cfg["backend"])
    if cfg["window"]:
        kw["n_closest_points"] = cfg["window"]

    def run(d):
        k = c.ok("construct", lambda: build(cls, [d[s] for s in slots[:dim]], d["val"], cfg["setting"], cfg["aniso"], cfg["mag"]))
        return look(c, cls, k, [d[s] for s in slots[dim + 1:]], **kw)

    want = run(raw)
    got = run(use)
    agree(c, "%s as %s" % (cfg["slot"], cfg["form"]), got, want)
    c.out(*got.values())


def valid(v):
    b = v["cls"].split("-")[0]
    if v["backend"] == "C" and b != "ok":
        return False
    if v["window"] and (not b.startswith("ok") or v["backend"] == "vectorized"):
        return False
    if v["cls"] == "ok-geo" and (v["aniso"] or v["mag"]):
        return False
    return True


def drift_inputs(c, cfg):
    """Inputs of the drift terms as another type."""
    cls, slot, form, mag = cfg["cls"], cfg["slot"], cfg["form"], 2.0 ** cfg["mag"]
    X, P = problem(cls)
    dim = X.shape[1]
    s1 = lambda A: (A[:, 0] * 7 + A[:, -1] * A[:, 0]) % 11
    s2 = lambda A: (A[:, 0] + A[:, 1] * A[:, 1]) % 7
    raw = dict(
        specified_drift=[s1(X) * mag, s2(X) * mag], specified_drift_arrays=[s1(P) * mag, s2(P) * mag],
        external_drift=((np.arange(35) ** 2) % 13).reshape(5, 7) * mag, external_drift_x=np.array([0, 2, 3, 7, 9, 12, 14.0]),
        external_drift_y=np.array([0, 1, 6, 9, 15.0]), point_drift=np.array([[5, 5, 3], [10, 3, 7.0]]))
    raw["point_drift"][:, 2] *= mag
    use = dict(raw)
    given = {"drift": ["specified_drift", "specified_drift_arrays"], "external": ["external_drift", "external_drift_x", "external_drift_y"], "all": list(raw)}.get(slot, [slot])
    for g in given:
        if g == "specified_drift_arrays" and form in ("list", "ints", "tuple", "fractions", "numpy scalars", "memoryview", "array.array"):
            if len(given) > 1:
                continue
            return c.skip("arrays are documented")
        v = raw[g]
        parts = v if isinstance(v, list) else [v]
        if form in ("ints", "fractions", "numpy scalars", "memoryview", "array.array", "column", "row", "matrix column") and (g != "specified_drift" or form in ("column", "row", "matrix column")):
            if len(given) > 1:
                continue
            return c.skip("one dimension")
        if not all(fits(form, a) for a in parts):
            if len(given) > 1:
                continue
            return c.skip("not representable")
        parts = [FORMS[form](a) for a in parts]
        if cfg["only"] and isinstance(v, list):  # one of the two drifts
            parts[cfg["only"] - 1] = v[cfg["only"] - 1]
        use[g] = parts if isinstance(v, list) else parts[0]
    t = ["specified"] + (["point_log", "external_Z"] if dim == 2 else [])
    names = ["specified_drift"] + (["point_drift", "external_drift", "external_drift_x", "external_drift_y"] if dim == 2 else [])

    def run(d):
        k = c.ok("construct", lambda: build(cls, list(X.T), Z, cfg["setting"], cfg["aniso"], drift_terms=t, **{n: d[n] for n in names}))
        o = look(c, cls, k, list(P.T), backend=cfg["backend"], specified_drift_arrays=d["specified_drift_arrays"])
        if cfg["grid"]:
            ax = [np.unique(P[:, i])[: 2 + i] for i in range(dim)]
            G, sh = lib.grid_points(ax)
            arr = [s1(G) * mag, s2(G) * mag]
            if d["specified_drift_arrays"] is not raw["specified_drift_arrays"]:
                arr = [FORMS[form](a) for a in arr]
            z, s = c.ok("grid", lambda: k.execute("grid", *ax, backend=cfg["backend"], specified_drift_arrays=[np.reshape(a, sh) for a in arr]))
            o["grid z"], o["grid s"] = np.array(z, float), np.array(s, float)
        return o

    want, got = run(raw), run(use)
    agree(c, "%s as %s" % (slot, form), got, want)
    c.out(*got.values())


def valid_drift(v):
    if v["cls"] == "uk3" and v["slot"] in ("external", "external_drift", "external_drift_x", "external_drift_y", "point_drift"):
        return False
    return not (v["only"] and v["slot"] not in ("specified_drift", "specified_drift_arrays", "drift", "all"))


SCALARS = {
    "int": int, "float": float, "np.int8": np.int8, "np.int32": np.int32, "np.int64": np.int64, "np.uint8": np.uint8,
    "np.float32": np.float32, "np.float64": np.float64, "np.float16": np.float16, "np.longdouble": np.longdouble, "0-d": np.array,
}
INTS = ["int", "np.int8", "np.int32", "np.int64", "np.uint8"]


def scalars(c, cfg):
    """Numbers among the settings in other types."""
    cls = cfg["cls"]
    base = cls.split("-")[0]
    dim = lib.dim_of(base)
    X, P = problem(cls)
    conv = SCALARS[cfg["type"]]
    slot = cfg["slot"]
    ex, ex0 = {}, {}
    if slot.startswith("parameters"):
        model = cfg["model"]
        p = {"linear": [2.0, 1.0], "power": [2.0, 1.0, 1.0], "spherical": [5.0, 9.0, 1.0], "gaussian": [5.0, 6.0, 1.0], "exponential": [5.0, 9.0, 1.0], "hole-effect": [5.0, 6.0, 1.0], "custom": [3.0, 9.0, 1.0]}[model]
        kw = dict(variogram_model=model)
        if model == "custom":
            kw["variogram_function"] = ob.custom_a
        keys = {"linear": ["slope", "nugget"], "power": ["scale", "exponent", "nugget"]}.get(model, ["sill", "range", "nugget"])
        if slot.endswith("psill"):
            if keys[0] != "sill":
                return c.skip("no sill")
            keys, p = ["psill"] + keys[1:], [4.0] + p[1:]
        if slot.endswith("list"):
            kw0, kw1 = p, [conv(v) for v in p]
        elif model == "custom":
            return c.skip("list only")
        else:
            kw0, kw1 = dict(zip(keys, p)), dict(zip(keys, [conv(v) for v in p]))
        kw0, kw1 = dict(kw, variogram_parameters=kw0), dict(kw, variogram_parameters=kw1)
    elif slot == "nlags":
        if cfg["type"] not in INTS:
            return c.skip("a count")
        kw0 = dict(variogram_model=cfg["model"], variogram_parameters=None, nlags=5)
        kw1 = dict(kw0, nlags=conv(5))
        if cfg["model"] == "custom":
            return c.skip("not fitted")
    elif slot == "weight":
        if cfg["model"] == "custom":
            return c.skip("not fitted")
        kw0 = dict(variogram_model=cfg["model"], variogram_parameters=None, weight=True)
        kw1 = dict(kw0, weight={"int": 1, "np.int8": np.int8(1), "0-d": np.array(True)}.get(cfg["type"], np.bool_(True)))
    elif slot == "window":
        if cfg["type"] not in INTS:
            return c.skip("a count")
        if not base.startswith("ok"):
            return c.skip("no window")
        kw0 = kw1 = dict(variogram_model="linear", variogram_parameters=[1.0, 0.5])
        ex0, ex = dict(backend="loop", n_closest_points=4), dict(backend="loop", n_closest_points=conv(4))
    else:
        if cls == "ok-geo":
            return c.skip("no anisotropy")
        n = 1 if dim == 2 else 3
        sc, an = [3.0, 2.0][: dim - 1], [30.0, 60.0, 10.0][:n]
        m = dict(variogram_model=cfg["model"], variogram_parameters=[1.0, 0.5])
        if cfg["model"] != "linear":
            return c.skip("one model")
        kw0 = dict(m, **lib.aniso_kwargs(dim, sc, an))
        kw1 = dict(m, **lib.aniso_kwargs(dim, [conv(v) for v in sc] if slot != "angles" else sc, [conv(v) for v in an] if slot != "scalings" else an))

    def run(kw, ex):
        kw = dict(kw)
        if base.startswith("uk"):
            kw["drift_terms"] = ["regional_linear"]
        if cls == "ok-geo":
            kw["coordinates_type"] = "geographic"
        if cfg["via"] == "update":
            k = lib.classes()[base](*X.T, Z, variogram_model="linear", variogram_parameters=[1.0, 0.0], **{a: v for a, v in kw.items() if a in ("drift_terms", "coordinates_type")})
            c.ok("update", lambda: k.update_variogram_model(**{a: v for a, v in kw.items() if a not in ("drift_terms", "coordinates_type")}))
        else:
            k = c.ok("construct", lambda: lib.classes()[base](*X.T, Z, **kw))
        return look(c, cls, k, list(P.T), **ex)

    want, got = run(kw0, ex0), run(kw1, ex)
    agree(c, "%s as %s" % (slot, cfg["type"]), got, want)
    c.out(*got.values())


WRAPPED = {
    "float64": lambda a: a, "int64": lambda a: a.astype(int), "int8": lambda a: a.astype(np.int8), "uint8": lambda a: a.astype(np.uint8),
    "float32": lambda a: a.astype(np.float32), "fortran": np.asfortranarray, "strided": lambda a: np.repeat(a, 2, axis=0)[::2],
    "columns": lambda a: np.concatenate([a, a], axis=1)[:, : a.shape[1]] if a.ndim == 2 else np.stack([a, a], 1)[:, 0],
    "readonly": lambda a: np.frombuffer(a.tobytes()).reshape(a.shape), "object": lambda a: a.astype(object), "masked": np.ma.array,
}


def wrapper(c, cfg):
    """Arrays given to the estimators."""
    from sklearn.linear_model import LinearRegression

    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging

    method = cfg["method"]
    dim = 3 if method.endswith("3d") else 2
    X, P = X3[:, :dim].copy(), P3[:, :dim].copy()
    F = np.stack([X3[:, 2] * 2, (X3[:, 0] * 5 + X3[:, 1]) % 7], 1)
    FP = np.stack([P3[:, 2] * 2, (P3[:, 0] * 5 + P3[:, 1]) % 7], 1)
    conv = WRAPPED[cfg["form"]]
    slot = cfg["slot"]
    w = lambda name, a: conv(a.copy()) if slot in (name, "all") else a.copy()
    if cfg["form"] == "object" and slot in ("p", "all") and cfg["what"] == "rk":
        return c.skip("the regression model decides")

    def run(w):
        kw = dict(method=method, variogram_model="exponential", variogram_parameters=[6.0, 8.0, 0.5], n_closest_points=5)
        if cfg["what"] == "krige":
            e = Krige(**kw)
            c.ok("fit", lambda: e.fit(w("x", X), w("y", Z)))
            return np.asarray(c.ok("predict", lambda: e.predict(w("query", P))), float)
        e = RegressionKriging(regression_model=LinearRegression(), **kw)
        c.ok("fit", lambda: e.fit(w("p", F), w("x", X), w("y", Z)))
        return np.asarray(c.ok("predict", lambda: e.predict(w("p", FP), w("query", P))), float)

    with contextlib.redirect_stdout(io.StringIO()):
        want, got = run(lambda n, a: a.copy()), run(w)
    # regression models compute with float32 as it is
    tol = 1e-4 if cfg["form"] == "float32" and cfg["what"] == "rk" and slot in ("p", "all") else 1e-9
    c.close("%s as %s" % (slot, cfg["form"]), got, want, tol * (1 + np.abs(want).max()))
    c.out(got)


MASKS = {
    "bool": lambda m: m, "int": lambda m: m.astype(int), "uint8": lambda m: m.astype(np.uint8), "list": lambda m: m.tolist(),
    "int list": lambda m: m.astype(int).tolist(), "fortran": np.asfortranarray, "readonly": lambda m: np.frombuffer(m.tobytes(), bool).reshape(m.shape),
    "float": lambda m: m.astype(float), "strided": lambda m: np.repeat(m, 2, axis=-1)[..., ::2], "minus": lambda m: -m.astype(int), "two": lambda m: 2 * m.astype(np.int8), "object": lambda m: m.astype(object),
}


def masks(c, cfg):
    cls = cfg["cls"]
    X, P = problem(cls)
    dim = X.shape[1]
    k = build(cls, list(X.T), Z, "linear", False)
    ax = [np.unique(P[:, i])[: 3 + i % 2] for i in range(dim)]
    shape = tuple(len(a) for a in ax[::-1])
    m = (np.arange(int(np.prod(shape))) % 3 == 1).reshape(shape)
    t = np.swapaxes(m, 0, 2) if dim == 3 else m.T
    kw = dict(backend=cfg["backend"])
    want = k.execute("masked", *ax, mask=m.copy(), **kw)
    given = MASKS[cfg["form"]](t.copy() if cfg["orient"] == "T" and t.shape != shape else m.copy())
    got = c.ok("masked", lambda: k.execute("masked", *ax, mask=given, **kw))
    for name, a, b in zip(("estimate", "variance"), got, want):
        c.same("mask of the " + name, np.ma.getmaskarray(a), m)
        c.close(name, np.ma.getdata(a)[~m], np.ma.getdata(b)[~m], 1e-10)
    c.out(np.ma.getdata(got[0])[~m])


def valid_mask(v):
    # array-like is documented for 2D ordinary kriging, boolean arrays for the others
    return v["cls"] in ("ok", "ok-geo") or v["form"] in ("bool", "fortran", "readonly", "strided")


def spaces(tier):
    q = tier == "quick"
    cls = ["ok", "ok-geo", "uk", "ok3", "uk3"]
    slots = ["x", "y", "z", "val", "px", "py", "pz", "all", "data", "coordinates", "targets"]
    core = dict(cls=cls, slot=slots, form=list(FORMS))
    dev = dict(setting=list(SETTINGS), aniso=[False, True], half=[False, True], mag=[0, 5, 12, 28], boolean=[False, True],
               backend=["vectorized", "loop", "C"], window=[0, 4], also=[""], **{"with": ["list"]})
    pairs = dict(dev, also=["x", "y", "val", "px", "py"], **{"with": ["list", "int8", "uint8", "float32", "column", "bool"]})
    return [
        Space("arrays", coordinates, core, dev, bound=1 if q else 3, valid=valid),
        Space("pairs", coordinates, dict(cls=cls if not q else ["ok", "uk3"], slot=slots[:7], form=["int8", "uint8", "float32", "column", "int64"], also=pairs["also"], **{"with": pairs["with"]}),
              {k: v for k, v in dev.items() if k not in ("also", "with")}, bound=0 if q else 1, valid=valid),
        Space("drift inputs", drift_inputs, dict(cls=["uk", "uk3"], slot=["specified_drift", "specified_drift_arrays", "drift", "external_drift", "external_drift_x", "external_drift_y", "external", "point_drift", "all"],
                                                 form=list(FORMS), mag=[0, 4, 12, 28]),
              dict(setting=["linear", "exp-stats", "auto", "power"], aniso=[False, True], backend=["vectorized", "loop"], grid=[False, True], only=[0, 1, 2]), bound=1 if q else 3, valid=valid_drift),
        Space("scalars", scalars, dict(cls=cls, slot=["parameters list", "parameters dict", "parameters dict psill", "nlags", "weight", "window", "scalings", "angles", "both"], type=list(SCALARS), via=["construct", "update"],
                                       model=["linear", "power", "spherical", "gaussian", "exponential", "hole-effect", "custom"])),
        Space("estimators", wrapper, dict(method=["ordinary", "universal", "ordinary3d", "universal3d"], what=["krige", "rk"], slot=["x", "y", "query", "p", "all"], form=list(WRAPPED))),
        Space("masks", masks, dict(cls=cls, form=list(MASKS), orient=["N", "T"], backend=["vectorized", "loop"]), valid=valid_mask),
    ]
