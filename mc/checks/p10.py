"""P10: variogram parameters mean the same in every form."""
import numpy as np

from .. import data, lib, ref
from ..engine import Space
from .p01 import custom

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of parameter forms and of malformed parameters over all entry points"
ASSUMPTIONS = []

METHOD = {"ok": "ordinary", "uk": "universal", "ok3": "ordinary3d", "uk3": "universal3d"}
THREE = ("gaussian", "spherical", "exponential", "hole-effect")
ERR = (KeyError, ValueError, TypeError)


def enter(cls, via, X, Z, model, params, fn=None):
    """Object with the parameters given through one of the entry points."""
    kw = {} if fn is None else dict(variogram_function=fn)
    if via == "init":
        return lib.make(cls, X, Z, model=model, params=params, **kw)
    if via == "update":
        k = lib.make(cls, X, Z, model="linear", params=[3.0, 0.1])
        k.update_variogram_model(model, variogram_parameters=params, **kw)
        return k
    if via == "update-auto":
        k = lib.make(cls, X, Z, model="exponential")
        k.update_variogram_model(model, variogram_parameters=params, **kw)
        return k
    if via == "update-same":
        k = lib.make(cls, X, Z, model=model, params=params, **kw)
        k.update_variogram_model(model, variogram_parameters=params, **kw)
        return k
    from pykrige.compat import Krige

    k = Krige(method=METHOD[cls], variogram_model=model, variogram_parameters=params, **kw)
    if via == "sklearn-set":
        k = Krige(method=METHOD[cls])
        k.set_params(variogram_model=model, variogram_parameters=params, **kw)
    k.fit(X, Z)
    return k.model


VALUES = {  # partial sill / slope / scale, range / exponent, nugget
    "plain": (1.7, 0.7, 0.3), "zero nugget": (2.3, 0.5, 0.0), "large nugget": (0.5, 1.9, 4.0),
    "int": (2, 1, 1), "numpy": (np.float64(1.7), np.float64(0.7), np.float64(0.3)), "numpy int": (np.int64(2), np.int64(1), np.int64(1)),
    "zero psill": (0.0, 0.7, 0.5), "tiny": (1e-7, 0.7, 1e-8), "huge": (3e8, 0.7, 1e7),
}


def forms(model, v):
    """All spellings of one model -> (name, parameters)."""
    a, b, n = v
    if model == "linear":
        d = dict(slope=a, nugget=n)
        return [("list", [a, n]), ("dict", d), ("dict reversed", dict(reversed(list(d.items())))),
                ("dict with more", dict(d, comment="x", sill=9.0))]
    if model == "power":
        d = dict(scale=a, exponent=b, nugget=n)
        return [("list", [a, b, n]), ("dict", d), ("dict reversed", dict(reversed(list(d.items())))),
                ("dict with more", dict(d, range=7.0))]
    s = dict(sill=a + n, range=b, nugget=n)
    p = dict(psill=a, range=b, nugget=n)
    return [("list", [a + n, b, n]), ("sill", s), ("psill", p), ("psill reversed", dict(reversed(list(p.items())))),
            ("sill reversed", dict(reversed(list(s.items())))), ("sill and psill", dict(s, psill=a)),
            ("psill with more", dict(p, slope=5.0))]


def same(c, cfg):
    cls = cfg["cls"]
    dim = lib.dim_of(cls)
    X = data.coords("n12", dim)
    Z = data.values("v", 12)
    v = VALUES[cfg["values"]]
    model = cfg["model"]
    P = data.targets(X, "mixed")
    ref_p = ([float(v[0]), float(v[2])] if model == "linear" else [float(x) for x in v])
    drift = [("rl")] if cls.startswith("uk") else []
    R = []
    r = ref.Model(X, Z, model, ref_p).predict(P)
    base = None
    for name, prm in forms(model, v):
        copy = dict(prm) if isinstance(prm, dict) else list(prm)
        k = c.ok("%s by %s" % (cfg["via"], name), lambda: enter(cls, cfg["via"], X, Z, model, prm))
        c.true(prm == copy and type(prm) is type(copy), "%s: the parameters passed in were changed" % name)
        got = np.asarray(k.variogram_model_parameters, dtype=float)
        c.close("parameters from %s" % name, got, ref_p, 4e-16 * (abs(float(v[0])) + abs(float(v[2]))))
        if not r.usable:
            continue
        z, s = c.ok("execute", lambda: lib.run_points(k, P))
        c.close("estimate from %s" % name, z, r.z, r.tz)
        c.close("variance from %s" % name, s, r.ss, r.tss)
        c.out(z, s)
    if not r.usable:
        c.skip("ill-conditioned predictions")


def malformed(model):
    full = {"linear": ["slope", "nugget"], "power": ["scale", "exponent", "nugget"]}.get(model, ["psill", "range", "nugget"])
    good = dict(zip(full, [1.0, 1.0, 0.5] if len(full) == 3 else [1.0, 0.5]))
    out = []
    if model == "custom":
        return [("dict", good, custom), ("dict without function", good, None), ("no parameters", None, custom),
                ("no function", [1.0, 1.0, 0.1, 0.2], None), ("function not callable", [1.0, 1.0, 0.1, 0.2], "spherical"),
                ("tuple", (1.0, 1.0, 0.1, 0.2), custom), ("array", np.array([1.0, 1.0, 0.1, 0.2]), custom),
                ("number", 3.0, custom), ("text", "1", custom)]
    for k in full:
        out.append(("without " + k, {a: b for a, b in good.items() if a != k}, None))
        if k != "nugget":
            out.append(("misspelled " + k, {(a if a != k else a.upper()): b for a, b in good.items()}, None))
    out.append(("empty dict", {}, None))
    if model in THREE:
        out.append(("sill without nugget", dict(sill=2.0, range=1.0), None))
        out.append(("sill without range", dict(sill=2.0, nugget=1.0), None))
    n = len(full)
    for m in range(0, 6):
        if m != n:
            out.append(("list of %d" % m, [1.0] * m, None))
    vals = [1.0] * n
    out += [("tuple", tuple(vals), None), ("array", np.array(vals), None), ("number", 1.0, None), ("text", "abc", None),
            ("set", set([1.0, 2.0, 3.0]), None), ("empty tuple", (), None)]
    return out


def wrong(c, cfg):
    cls = cfg["cls"]
    X = data.coords("n7", lib.dim_of(cls))
    Z = data.values("v", 7)
    for name, prm, fn in malformed(cfg["model"]):
        c.raises("%s with %s" % (cfg["via"], name), lambda: enter(cls, cfg["via"], X, Z, cfg["model"], prm, fn), ERR)


def spaces(tier):
    models = ["linear", "power"] + list(THREE)
    via = ["init", "update", "update-auto", "update-same", "sklearn", "sklearn-set"]
    return [
        Space("same", same, dict(cls=list(METHOD), model=models, via=via, values=list(VALUES))),
        Space("malformed", wrong, dict(cls=list(METHOD), model=models + ["custom"], via=via)),
    ]
