"""P15: objects and their inputs are isolated."""
import copy
import itertools
import os
import tempfile

import numpy as np

from .. import data, lib
from .. import objects as ob
from ..drifts import Drift, f_quad, f_wave
from ..engine import Space

LEVEL = "model_checking"
TECHNIQUE = "enumeration of all inputs, mutation points and operation sequences over several live objects, bitwise comparison of observations"
ASSUMPTIONS = ["objects given as callables (drift and variogram functions, GSTools models, regression models) are not mutated"]
NEEDS_EXT = True


# ----------------------------------------------------------------- inputs
def arr(a, form):
    a = np.array(a, dtype=float)
    if form == "strided":
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "float32":
        return a.astype(np.float32)
    if form == "int":
        return np.round(a).astype(int)
    if form == "column" and a.ndim == 1:
        return a[:, None]
    if form == "list":
        return a.tolist()
    if form == "view":
        base = np.zeros((len(a), 3)) if a.ndim == 1 else np.zeros(a.shape + (2,))
        base[..., 1] = a
        return base[..., 1]
    return a


def inputs(cls, setting, form):
    """The arguments of a constructor, all owned by the caller."""
    X, Z = ob.data_of(cls)
    if form == "int":
        # distinct points after rounding
        X = np.round(X * 10)
        Z = np.round(Z * 10)
    dim = X.shape[1]
    names = ["x", "y"] + (["z"] if dim == 3 else [])
    args = {n: arr(X[:, i], form) for i, n in enumerate(names)}
    args["z" if dim == 2 else "val"] = arr(Z, form)
    S = copy.copy(ob.settings(cls)[setting])
    kw = dict(variogram_model=S["model"])
    if "params" in S:
        kw["variogram_parameters"] = copy.deepcopy(S["params"])
        if form == "fortran" and isinstance(kw["variogram_parameters"], list):
            kw["variogram_parameters"] = [np.float64(v) for v in kw["variogram_parameters"]]
    for a in ("variogram_function", "nlags", "weight"):
        if a in S:
            kw[a] = S[a]
    if cls == "ok-geo":
        kw["coordinates_type"] = "geographic"
    else:
        kw.update(lib.aniso_kwargs(dim, S.get("scaling"), S.get("angles")))
    if cls.startswith("uk"):
        t = (dict(rl=1, pl=2, ez=1, sp=2, fn=2) if dim == 2 else dict(rl=1, sp=2, fn=2)) if cls.endswith("-all") else dict(rl=1)
        if cls.endswith("-all") and dim == 2:
            t = dict(pl=2, ez=1, sp=2, fn=1)
        lo, w = X.min(axis=0), np.ptp(X, axis=0)
        d = Drift(dim, t, X, np.array([lo - 0.5 * w, lo + 1.5 * w]))
        for n, v in d.kw.items():
            if n in ("drift_terms", "functional_drift"):
                kw[n] = list(v)
            elif n == "specified_drift":
                kw[n] = [arr(q, form if form not in ("int", "list", "column") else "array") for q in v]
            elif n == "point_drift":
                kw[n] = arr(v, form if form != "column" else "array")
            else:
                kw[n] = arr(v, form if form not in ("int", "column") else "array")
        kw["_spec"] = d.spec_fns
    args.update(kw)
    return args


def requests(cls, spec_fns, X):
    """name -> (execute arguments owned by the caller)."""
    dim = X.shape[1]
    lo, w = X.min(axis=0), np.ptp(X, axis=0)
    P = lo + np.array([[0.3, 0.6, 0.2], [0.8, 0.1, 0.7], [0.45, 0.95, 0.5]])[:, :dim] * w
    P = np.concatenate([P, X[2:3]])
    axes = [lo[i] + np.array([0.2, 0.9, 0.5])[: 3 - i % 2] * w[i] for i in range(dim)]
    G, shape = lib.grid_points(axes)
    mask = (np.arange(len(G)) % 3 == 1).reshape(shape)
    names = ["xpoints", "ypoints", "zpoints"][:dim]
    out = {}

    def add(name, style, cols, pts, shp, **kw):
        a = {n: np.array(c) for n, c in zip(names, cols)}
        a["style"] = style
        if spec_fns:
            a["specified_drift_arrays"] = [f(pts) if shp is None else f(pts).reshape(shp) for f in spec_fns]
        if style == "masked":
            a["mask"] = mask.copy()
        a.update(kw)
        out[name] = a

    be = ["vectorized", "loop"] + (["C"] if cls.startswith("ok") and dim == 2 else [])
    for b in be:
        add("points-" + b, "points", list(P.T), P, None, backend=b)
        add("grid-" + b, "grid", axes, G, shape, backend=b)
        add("masked-" + b, "masked", axes, G, shape, backend=b)
    if cls.startswith("ok"):
        for b in be[1:]:
            add("window-" + b, "points", list(P.T), P, None, backend=b, n_closest_points=4)
    if dim == 2 or True:
        add("masked-T", "masked", axes, G, shape)
        m = out["masked-T"]["mask"]
        out["masked-T"]["mask"] = m.T.copy() if dim == 2 else np.swapaxes(m, 0, 2).copy()
        if spec_fns:
            out["masked-T"]["specified_drift_arrays"] = [
                q.T.copy() if dim == 2 else np.swapaxes(q, 0, 2).copy() for q in out["masked-T"]["specified_drift_arrays"]]
    return out


def nodes(v, path=()):
    """All mutable parts (arrays, lists, dicts) of a nest of arguments."""
    if isinstance(v, np.ndarray):
        return [path]
    out = []
    if isinstance(v, dict):
        if path:
            out.append(path)
        for k in v:
            out += nodes(v[k], path + (k,))
    elif isinstance(v, list):
        out.append(path)
        if v and not isinstance(v[0], float):
            for i, x in enumerate(v):
                out += nodes(x, path + (i,))
    return out


def at(v, path):
    for k in path:
        v = v[k]
    return v


def mutate(v, how):
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            v[...] = ~v
        elif how == "fill":
            v[...] = 77
        else:
            v[...] = v[::-1] * 3 + 1
    elif isinstance(v, list):
        if how == "fill":
            v[:] = [None] * len(v)
        else:
            del v[:]
    elif isinstance(v, dict):
        v.clear()
        if how == "fill":
            v["x"] = 1


def snap(v):
    """Deep copy that keeps callables."""
    if isinstance(v, np.ndarray):
        return v.copy(order="K")
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    return v


class Kept(list):
    """A copy of a list that remembers the objects in the list."""


def record(v):
    """Like snap, for unchanged(): also keeps which objects the lists held."""
    if isinstance(v, dict):
        return {k: record(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        out = Kept(record(x) for x in v)
        out.members = list(v)
        return out
    return snap(v)


def unchanged(c, what, now, before):
    if isinstance(before, np.ndarray):
        c.true(isinstance(now, np.ndarray) and now.dtype == before.dtype and now.shape == before.shape
               and np.array_equal(now, before, equal_nan=now.dtype.kind == "f")
               and (not isinstance(now, np.ma.MaskedArray) or np.array_equal(np.ma.getmaskarray(now), np.ma.getmaskarray(before))),
               "%s was modified" % what)
    elif isinstance(before, dict):
        c.true(list(now) == list(before), "%s: keys changed to %s" % (what, list(now)))
        for k in before:
            if k in now:
                unchanged(c, "%s[%s]" % (what, k), now[k], before[k])
    elif isinstance(before, (list, tuple)):
        c.true(isinstance(now, (list, tuple)) and len(now) == len(before), "%s: length or type changed" % what)
        if isinstance(before, Kept):
            c.true(all(a is b for a, b in zip(now, before.members)), "%s: an entry was replaced" % what)
        for i, (a, b) in enumerate(zip(now, before)):
            unchanged(c, "%s[%d]" % (what, i), a, b)
    else:
        c.true(now is before or now == before, "%s was modified" % what)


def make(cls, args):
    a = {k: v for k, v in args.items() if k != "_spec"}
    return lib.classes()[ob.base_of(cls)](**a)


def execute(k, req):
    z, s = k.execute(**req)
    return z, s


def frame(cls, form):
    X = ob.data_of(cls)[0]
    return np.round(X * 10) if form == "int" else X


def seen(cls, k, reqs, names=None):
    o = ob.observe(cls, k, [])
    for n in reqs:
        if names is None or n in names:
            z, s = execute(k, snap(reqs[n]))
            o["z:" + n] = np.ma.filled(z, -9e99) if isinstance(z, np.ma.MaskedArray) else z.copy()
            o["s:" + n] = np.ma.filled(s, -9e99) if isinstance(s, np.ma.MaskedArray) else s.copy()
    return o


def usable(k, reqs):
    """C backend does not accept custom functions."""
    return {n: r for n, r in reqs.items() if not (r.get("backend") == "C" and k.variogram_model == "custom")}


FEW = ["points-vectorized", "masked-loop", "grid-vectorized", "window-loop"]


# ---------------------------------------------------------------- explorers
def inputs_kept(c, cfg):
    """Construction and execution leave their arguments alone."""
    cls, form = cfg["cls"], cfg["form"]
    a = inputs(cls, cfg["setting"], form)
    before = record(a)
    k = c.ok("construct", lambda: make(cls, a))
    unchanged(c, "constructor argument", a, before)
    reqs = usable(k, requests(cls, a.get("_spec"), frame(cls, form)))
    got = {}
    for n, r in reqs.items():
        rb = record(r)
        z, s = c.ok(n, lambda: execute(k, r))
        unchanged(c, "argument of execute %s" % n, r, rb)
        unchanged(c, "constructor argument (execute %s)" % n, a, before)
        got[n] = (np.ma.copy(z) if isinstance(z, np.ma.MaskedArray) else z.copy(), s.copy())
        # arrays that were returned belong to the caller
        for v in (z, s):
            np.ma.getdata(v)[...] = -1e30
            if isinstance(v, np.ma.MaskedArray):
                v.mask = np.ma.nomask
        unchanged(c, "argument of execute %s (result overwritten)" % n, r, rb)
    for n, r in reqs.items():
        z, s = c.ok(n, lambda: execute(k, r))
        c.same(n + " repeated: mask", np.ma.getmaskarray(z), np.ma.getmaskarray(got[n][0]))
        keep = ~np.ma.getmaskarray(z)
        c.same(n + " repeated: estimate", np.ma.getdata(z)[keep], np.ma.getdata(got[n][0])[keep])
        c.same(n + " repeated: variance", np.ma.getdata(s)[keep], np.ma.getdata(got[n][1])[keep])
    up = snap({x: a[x] for x in ("variogram_model", "variogram_parameters", "variogram_function") if x in a})
    ub = record(up)
    c.ok("update", lambda: k.update_variogram_model(**up))
    unchanged(c, "argument of update", up, ub)
    c.out(*[v[0] for v in got.values()])


def mutations(c, cfg):
    """Later changes to any input, at any point of a history, have no effect."""
    cls, form = cfg["cls"], cfg["form"]
    first = inputs(cls, cfg["setting"], form)
    k = c.ok("construct", lambda: make(cls, first))
    reqs = usable(k, requests(cls, first.get("_spec"), frame(cls, form)))
    names = FEW if cfg["few"] else None
    want = seen(cls, k, reqs, names)
    up = {x: first[x] for x in ("variogram_model", "variogram_parameters", "variogram_function") if x in first}
    k.update_variogram_model(**snap(up))
    want_up = seen(cls, k, reqs, names)
    n = 0
    for path in nodes(first):
        for point in ("constructed", "executed", "updated"):
            a = inputs(cls, cfg["setting"], form)
            k = make(cls, a)
            if point == "executed":
                execute(k, snap(reqs["grid-vectorized"]))
            elif point == "updated":
                u = {x: a[x] for x in up}
                k.update_variogram_model(**u)
            try:
                mutate(at(a, path), cfg["how"])
            except (ValueError, TypeError):
                c.skip("read-only")
                continue
            got = c.ok("observe", lambda: seen(cls, k, reqs, names))
            ob.compare(c, "argument %s changed after the object was %s" % (path, point), got, want_up if point == "updated" else want, exact=True)
            n += 1
            if c.fails:
                return
    c.count("mutations", n)
    c.impl_runs += n
    c.out(*want.values())


_WANT = {}


def shared(c, cfg):
    """Several live objects built from the same inputs, any order of operations."""
    cls = cfg["cls"]
    a = inputs(cls, cfg["s1"], "array")
    b = dict(a)
    s2 = inputs(cls, cfg["s2"], "array")
    for n in list(s2):
        if n not in ("x", "y", "z", "val", "drift_terms", "functional_drift", "specified_drift", "point_drift",
                     "external_drift", "external_drift_x", "external_drift_y"):
            b[n] = s2[n]
    for n in a:
        if n not in s2:
            b.pop(n)
    reqs = requests(cls, a.get("_spec"), frame(cls, "array"))
    new = {"1": "exp-an", "2": "cus-b"}
    before = record(a), record(b)
    key = (cls, cfg["s1"], cfg["s2"])
    if key not in _WANT:
        want = {}
        for who, args in (("1", a), ("2", b)):
            k = make(cls, snap(args))
            want[who] = seen(cls, k, usable(k, reqs), FEW)
            ob.update(cls, k, ob.settings(cls)[new[who]])
            want["u" + who] = seen(cls, k, usable(k, reqs), FEW)
        _WANT[key] = want
    want = _WANT[key]
    k = {"1": make(cls, a), "2": make(cls, b)}
    upd = set()
    others = []
    for op in cfg["ops"].split():
        if op in k:
            c.ok(op, lambda: seen(cls, k[op], usable(k[op], reqs), FEW))
        elif op[0] == "u":
            c.ok(op, lambda: ob.update(cls, k[op[1]], ob.settings(cls)[new[op[1]]]))
            upd.add(op[1])
        elif op == "n":
            x = make(cls, b)
            execute(x, snap(reqs["points-loop"]))
            others.append(x)
    for who in k:
        got = c.ok("observe", lambda: seen(cls, k[who], usable(k[who], reqs), FEW))
        ob.compare(c, "object %s after %s" % (who, cfg["ops"]), got, want["u" + who if who in upd else who], exact=True)
    unchanged(c, "constructor argument", (a, b), before)
    c.out(*want["1"].values())
    c.out(*want["2"].values())


def repeats(c, cfg):
    """The same request gives the same bits, whatever was executed in between."""
    cls = cfg["cls"]
    a = inputs(cls, cfg["setting"], "array")
    k = c.ok("construct", lambda: make(cls, a))
    reqs = usable(k, requests(cls, a.get("_spec"), frame(cls, "array")))
    first = {n: tuple(np.ma.copy(v) for v in execute(make(cls, a), snap(r))) for n, r in reqs.items()}
    for n1 in reqs:
        for n2 in reqs:
            for n in (n1, n2, n1):
                z, s = c.ok(n, lambda: execute(k, snap(reqs[n])))
                keep = ~np.ma.getmaskarray(z)
                c.same("%s in %s-%s: mask" % (n, n1, n2), np.ma.getmaskarray(z), np.ma.getmaskarray(first[n][0]))
                c.same("%s in %s-%s: estimate" % (n, n1, n2), np.ma.getdata(z)[keep], np.ma.getdata(first[n][0])[keep])
                c.same("%s in %s-%s: variance" % (n, n1, n2), np.ma.getdata(s)[keep], np.ma.getdata(first[n][1])[keep])
    # arrays returned earlier stay as they are
    kept = []
    for n in list(reqs) * 2:
        for shift in (False, True):
            r = snap(reqs[n])
            if shift:
                for p in ("xpoints", "ypoints", "zpoints"):
                    if p in r:
                        r[p] = r[p][::-1].copy()
            o = c.ok(n, lambda: execute(k, r))
            kept.append((n, o, tuple(np.ma.copy(v) for v in o)))
    for i, (n, o, was) in enumerate(kept):
        for part, g, w in zip(("estimate", "variance"), o, was):
            unchanged(c, "%s of %s (request %d of %d)" % (part, n, i + 1, len(kept)), g, w)
        for j, (n2, o2, _) in enumerate(kept[:i]):
            c.true(not any(np.shares_memory(np.ma.getdata(g), np.ma.getdata(w)) for g in o for w in o2), "results of %s share memory with results of %s" % (n, n2))
    c.impl_runs += 3 * len(reqs) ** 2 + len(kept)
    c.out(*[v[0] for v in first.values()])


def outcome(f):
    """What a call did, including the way it failed."""
    try:
        z, s = f()
    except Exception as e:
        return type(e).__name__
    keep = ~np.ma.getmaskarray(z)
    return [np.ma.getmaskarray(z).copy(), np.ma.getdata(z)[keep].copy(), np.ma.getdata(s)[keep].copy()]


def leftovers(c, cfg):
    """Nothing of a request is left for a later one that lacks one of its arguments."""
    cls = cfg["cls"]
    a = inputs(cls, cfg["setting"], "array")
    k = c.ok("construct", lambda: make(cls, a))
    reqs = usable(k, requests(cls, a.get("_spec"), frame(cls, "array")))
    n = 0
    for name, r in reqs.items():
        for arg in r:
            less = {x: v for x, v in r.items() if x != arg}
            want = outcome(lambda: execute(make(cls, a), snap(less)))
            for before in [name] + [x for x in FEW if x in reqs]:
                k = make(cls, a)
                c.ok(before, lambda: execute(k, snap(reqs[before])))
                got = outcome(lambda: execute(k, snap(less)))
                what = "%s without %s after %s" % (name, arg, before)
                if isinstance(want, str) or isinstance(got, str):
                    c.true(isinstance(got, str) and isinstance(want, str) and got == want, "%s: %s, by itself %s" % (
                        what, got if isinstance(got, str) else "accepted", want if isinstance(want, str) else "accepted"))
                else:
                    for part, g, w in zip(("mask", "estimate", "variance"), got, want):
                        c.same("%s: %s" % (what, part), g, w)
                # the failed request leaves nothing behind, either
                again = outcome(lambda: execute(k, snap(reqs[before])))
                alone = outcome(lambda: execute(make(cls, a), snap(reqs[before])))
                c.true(not isinstance(again, str) and all(np.array_equal(g, w) for g, w in zip(again, alone)), "%s: %s differs afterwards" % (what, before))
                n += 1
    c.count("requests lacking an argument", n)
    c.impl_runs += 4 * n
    c.out(str(n))


# ------------------------------------------------------------ sklearn part
METHOD = {"ok": "ordinary", "uk": "universal", "ok3": "ordinary3d", "uk3": "universal3d"}


def wrapper(c, cfg):
    from sklearn.linear_model import LinearRegression
    from sklearn.naive_bayes import GaussianNB

    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging

    cls, what = cfg["cls"], cfg["what"]
    dim = lib.dim_of(cls)
    X = data.coords("n12", dim)
    Z = data.values("v", 12)
    P = np.stack([X[:, 0] ** 2, np.sin(X[:, 1])], axis=1)
    lab = np.array([0, 2, 1, 1, 0, 2, 2, 1, 0, 0, 1, 2])
    Q, PQ = X[:4] + 0.3, P[:4] + 0.1
    par = {"list": [0.7, 0.2], "dict": dict(slope=0.7, nugget=0.2), "array": [np.float64(0.7), np.float64(0.2)]}[cfg["params"]]
    kw = dict(method=METHOD[cls], variogram_model="linear", variogram_parameters=par, n_closest_points=6,
              anisotropy_scaling=[2.0] if dim == 2 else [2.0, 0.5], anisotropy_angle=[30.0] if dim == 2 else [30.0, 10.0, 5.0])
    if cls.startswith("uk"):
        kw["drift_terms"] = ["regional_linear", "functional"]
        kw["functional_drift"] = [f_wave]
        if dim == 2:
            kw["drift_terms"] += ["point_log", "external_Z"]
            d = Drift(2, dict(pl=1, ez=1), X, np.concatenate([X, Q]))
            kw["point_drift"] = d.kw["point_drift"]
            kw["ext_drift_grid"] = [d.kw["external_drift"], d.kw["external_drift_x"], d.kw["external_drift_y"]]
    kb = record(kw)

    def build():
        if what == "krige":
            return Krige(**kw)
        if what == "rk":
            return RegressionKriging(LinearRegression(), **kw)
        if what == "rk-default":
            return RegressionKriging(**kw)
        return ClassificationKriging(GaussianNB(), **kw)

    y = lab if what == "ck" else Z

    def fit(m, p, x, t):
        return m.fit(x, t) if what == "krige" else m.fit(p, x, t)

    def pred(m, p, x):
        return m.predict(x) if what == "krige" else m.predict(p, x)

    m = c.ok("build", build)
    tr = dict(p=P.copy(), x=X.copy(), y=y.copy())
    tb = record(tr)
    c.ok("fit", lambda: fit(m, tr["p"], tr["x"], tr["y"]))
    unchanged(c, "training data", tr, tb)
    unchanged(c, "constructor argument", kw, kb)
    q = dict(p=PQ.copy(), x=Q.copy())
    qb = record(q)
    r1 = c.ok("predict", lambda: pred(m, q["p"], q["x"]))
    unchanged(c, "query data", q, qb)
    unchanged(c, "training data", tr, tb)
    r1c = np.array(r1)
    if what != "krige":
        k1 = np.array(c.ok("residual", lambda: m.krige_residual(q["x"])))
    sc = c.ok("score", lambda: m.score(tr["x"], tr["y"]) if what == "krige" else m.score(tr["p"], tr["x"], tr["y"]))
    unchanged(c, "training data (score)", tr, tb)
    r1[...] = 0
    c.same("repeated prediction", pred(m, q["p"], q["x"]), r1c)
    if what == "krige":
        pts = dict(zip(["xpoints", "ypoints", "zpoints"], Q.T.copy()))
        pb = record(pts)
        z, s = c.ok("execute", lambda: m.execute(pts))
        unchanged(c, "points of Krige.execute", pts, pb)
        z2, s2 = c.ok("execute", lambda: m.execute(pts))
        c.same("repeated execute", z2, z)
        c.same("repeated execute", s2, s)
    # later changes of everything that was passed in
    for t in tr.values():
        t[...] = 1
    for path in sorted(nodes(kw), key=len, reverse=True):
        mutate(at(kw, path), "fill" if cfg["params"] == "list" else "clear")
        c.same("prediction after %s was changed" % (path,), c.ok("predict", lambda: pred(m, q["p"], q["x"])), r1c)
    kw.clear()
    kw.update(snap(kb))
    # another object, fitted to something else
    other = build()
    fit(other, P[::-1].copy(), X.copy(), y.copy())
    pred(other, PQ, Q)
    c.same("prediction after another object was fitted", pred(m, q["p"], q["x"]), r1c)
    if what != "krige":
        c.same("residuals after another object was fitted", m.krige_residual(q["x"]), k1)
    unchanged(c, "query data", q, qb)
    # and refitting gives the same object again
    fit(other, P.copy(), X.copy(), y.copy())
    c.same("prediction of a refitted object", pred(other, q["p"], q["x"]), r1c)
    c.out(r1c if what != "ck" else r1c.astype(float), [sc])


def writers(c, cfg):
    import pykrige.kriging_tools as kt

    x, y = np.arange(4) * 2.0 + 1, np.arange(3) * 2.0 - 5
    if cfg["dir"] == "desc":
        x, y = x[::-1].copy(), y[::-1].copy()
    z = np.arange(12.0).reshape(3, 4) - 4
    if cfg["kind"] == "masked":
        z = np.ma.array(z, mask=z % 5 == 0)
    elif cfg["kind"] == "nan":
        z[1, 2] = np.nan
    elif cfg["kind"] == "fortran":
        z = np.asfortranarray(z)
    a = dict(x=x, y=y, z=z)
    b = record(a)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "f")
        if cfg["fmt"] == "zmap":
            c.ok("write", lambda: kt.write_zmap_grid(x, y, z, filename=fn))
        else:
            c.ok("write", lambda: kt.write_asc_grid(x, y, z, filename=fn, style=int(cfg["fmt"][-1])))
        c.out(open(fn).read())
    unchanged(c, "grid passed to a writer", a, b)


FORMS = ["array", "strided", "fortran", "float32", "int", "list", "column", "view"]


def seqs(n):
    out = []
    for m in range(n + 1):
        out += [" ".join(p) for p in itertools.product(["1", "2", "u1", "u2", "n"], repeat=m)]
    return out


def spaces(tier):
    q = tier == "quick"
    cl = ob.CLASSES
    names = list(ob.settings("ok"))
    sets = ["exp-an", "lin", "pow-dict", "cus-b", "gst"]
    return [
        Space("inputs kept", inputs_kept, dict(cls=cl, setting=sets if q else names), dict(form=FORMS)),
        Space("mutations", mutations, dict(cls=cl, setting=["lin", "exp-an", "pow-dict"] if q else names, how=["fill", "clear"], few=[q]),
              dict(form=FORMS), valid=lambda g: not q or g["form"] in ("array", "list", "view") or (g["setting"] == "lin" and g["how"] == "fill")),
        Space("shared", shared, dict(cls=cl, s1=["lin", "exp-an"] if q else ["lin", "exp-an", "gst", "sph-auto"], s2=["pow-dict", "gst"] if q else ["pow-dict", "gst", "cus-b", "lin-auto-rot"], ops=seqs(2 if q else 3))),
        Space("repeats", repeats, dict(cls=cl, setting=["lin", "exp-an", "gst"] if q else names)),
        Space("leftovers", leftovers, dict(cls=cl, setting=["exp-an"] if q else ["lin", "exp-an", "gst", "cus-b"])),
        Space("wrapper", wrapper, dict(cls=["ok", "uk", "ok3", "uk3"], what=["krige", "rk", "rk-default", "ck"], params=["list", "dict", "array"])),
        Space("writers", writers, dict(fmt=["asc1", "asc2", "zmap"], kind=["plain", "masked", "nan", "fortran"], dir=["asc", "desc"])),
    ]
