"""P26: the external drift is interpolated bilinearly within its grid."""
import itertools

import numpy as np

from .. import lib, ref
from ..drifts import bilinear, f_wave
from ..engine import Space

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of grid sizes, orders, orientations and positions of targets relative to the grid (nodes, edges, cells, borders and their floating-point neighbours, outside) against an independent interpolation and an extended-precision reference model"
ASSUMPTIONS = [
    "cases whose kriging system has a condition number above 1e11 are not judged (counted as skipped)",
    "the drift grid has at least two nodes in one direction (otherwise the drift is constant); for square grids the documented orientation counts",
]


def axis(n, kind, lo=0.0, step=1.0):
    if kind == "even":
        a = np.arange(n, dtype=float)
    elif kind == "almost":  # nearly even: spacings differ by less than a percent
        a = np.arange(n) + 0.004 * np.array([0.0, 1.0, -0.9, 0.3, 1.1, -0.4])[:n]
    elif kind == "integers":
        return np.array([0, 2, 5, 6, 10, 11][:n]) + int(lo)
    elif kind == "int8":  # differences do not fit the type
        return np.array([-120, -40, 3, 90, 117, 127][:n], dtype=np.int8)
    elif kind == "uint16":
        return np.array([5, 6, 3000, 20000, 60000, 65000][:n], dtype=np.uint16)
    elif kind == "float32":
        return (lo + step * np.array([0.0, 1.1, 1.25, 4.0, 4.3, 9.0])[:n]).astype(np.float32)
    else:
        a = np.array([0.0, 1.0, 1.25, 4.0, 4.5, 9.0])[:n]
    return lo + step * a


ORDERS = {
    "asc": lambda n: np.arange(n),
    "desc": lambda n: np.arange(n)[::-1],
    "mixed": lambda n: np.argsort((np.arange(n) * 3 + 1) % max(n, 2) + 0.1 * np.arange(n)),
}


def grid_values(kind, ny, nx):
    j, i = np.mgrid[:ny, :nx]
    if kind == "waves":
        return np.sin(1.3 * i) * 2 + 0.4 * j**1.5 + 0.3 * np.cos(1.0 * i * j) + 0.2 * i
    if kind == "integers":
        return (3 * i * i - 4 * j + 2 * (i + j) % 3).astype(int)
    if kind == "uint8":
        return ((3 * i * i + 40 * j + 2 * (i + j) % 3) % 251).astype(np.uint8)
    if kind == "int8":
        return ((37 * i * i + 90 * j + 31 * (i + j)) % 251 - 125).astype(np.int8)
    if kind == "float32":
        return (np.sin(1.3 * i) * 2 + 0.4 * j**1.5 + 0.3 * np.cos(1.0 * i * j)).astype(np.float32)
    if kind == "bool":
        return (i * i + 2 * j) % 3 == 1
    if kind == "large":
        return 1e6 + 1e4 * np.cos(1.7 * i + 0.6 * j)
    hj, hi = kind
    g = 0.3 * i + 0.7 * j + 0.05 * i * j
    g[hj % ny, hi % nx] += 3.0
    return g


def stops(g, fine):
    """Positions along an axis: nodes, neighbours of nodes, cell interiors."""
    g = np.asarray(g, float)
    out = list(g)
    for a, b in zip(g[:-1], g[1:]):
        out += [a + 0.5 * (b - a), a + 0.125 * (b - a)]
        if fine:
            out += [a + 0.9 * (b - a), a + 0.002 * (b - a), b - 0.002 * (b - a), np.nextafter(a, b), np.nextafter(b, a)]
    return np.array(sorted(out))


def data_points(gx, gy):
    """Data over the grid: on corners, edges, nodes and inside of cells."""
    def at(g, t):
        g = np.asarray(g, float)
        p = t * (len(g) - 1)
        i = min(int(p), max(len(g) - 2, 0))
        return g[i] if len(g) == 1 else min(g[i] + (p - i) * (g[i + 1] - g[i]), g[-1])

    T = [(0, 0), (1, 1), (1, 0), (0, 0.62), (0.31, 0.45), (0.55, 0.83), (0.77, 0.2), (0.4, 0.05), (0.15, 0.9), (0.93, 0.58), (0.62, 0.37)]
    P = np.array([(at(gx, a), at(gy, b)) for a, b in T])
    if len(gx) == 1 or len(gy) == 1:
        t = np.linspace(0, 1, 11) ** 1.2
        P = np.array([(at(gx, a), at(gy, a)) for a in t])
    return P


ANISO = {"none": (None, None), "s": ([2.0], None), "sa": ([0.6], [35.0])}
FORMS = {
    "array": lambda a: a,
    "list": lambda a: np.asarray(a).tolist(),
    "column": lambda a: np.asarray(a).reshape(-1, 1),
    "tuple": lambda a: tuple(np.asarray(a).tolist()),
    "fortran": lambda a: np.asfortranarray(a),
    "strided": lambda a: np.repeat(a, 2, axis=0)[::2],
}


def case(c, cfg):
    nx, ny = cfg["nx"], cfg["ny"]
    if nx == 1 and ny == 1:
        return c.skip("constant drift")
    T = cfg["orient"] == "T"
    if T and nx == ny:
        return c.skip("ambiguous orientation")
    lo, step = cfg["where"]
    gx, gy = axis(nx, cfg["spacing"], lo, step), axis(ny, cfg["spacing"], -lo, 0.7 * step)
    if cfg["grid"] == "onehot":
        G = grid_values((cfg["hot"] // nx, cfg["hot"] % nx), ny, nx)
        if cfg["hot"] >= nx * ny:
            return c.skip("no such node")
    else:
        G = grid_values(cfg["grid"], ny, nx)
    ox, oy = ORDERS[cfg["ox"]](nx), ORDERS[cfg["oy"]](ny)
    ax, ay, A = gx[ox], gy[oy], G[np.ix_(oy, ox)]
    if T:
        A = A.T.copy()
    form = FORMS[cfg["form"]]
    fa = A if cfg["form"] in ("column",) else form(A)
    kw = dict(drift_terms=["external_Z"], external_drift=fa, external_drift_x=form(ax), external_drift_y=form(ay))
    X = data_points(gx, gy)
    line = nx == 1 or ny == 1
    L = float(np.max(np.ptp(X, axis=0)))
    sc, an = ANISO[cfg["aniso"]]
    drifts = [lambda O, Q: bilinear(gx, gy, G, O)]
    if cfg["also"] == "rl" and not line:
        kw["drift_terms"] = ["regional_linear", "external_Z"]
        drifts = [lambda O, Q: Q[:, 0], lambda O, Q: Q[:, 1]] + drifts
    elif cfg["also"] == "fn":
        kw["drift_terms"] = ["functional", "external_Z"]
        kw["functional_drift"] = [f_wave]
        drifts = drifts + [lambda O, Q: f_wave(Q[:, 0], Q[:, 1])]
    model, params, internal = {
        "linear": ("linear", [1.0, 0.0], [1.0, 0.0]),
        "exponential": ("exponential", [1.5, 0.8 * L, 0.1], [1.4, 0.8 * L, 0.1]),
        "spherical": ("spherical", [1.5, 1.3 * L, 0.0], [1.5, 1.3 * L, 0.0]),
    }[cfg["model"]]
    dX = np.asarray(bilinear(gx, gy, G, X), float)
    if cfg["values"] == "drift":
        Z = 1.5 - 2.0 * dX
    else:
        Z = np.cos(np.arange(len(X)) * 1.7) * (1 + np.abs(dX).max())
    k = c.ok("construct", lambda: lib.make("uk", X, Z, model, params, sc, an, **kw))
    if cfg["style"] == "points":
        sx, sy = stops(gx, True), stops(gy, True)
        P, _ = lib.grid_points([sx, sy])
        z, s = c.ok("points", lambda: lib.run_points(k, P, backend=cfg["backend"]))
    else:
        sx, sy = stops(gx, False), stops(gy, False)
        P, shape = lib.grid_points([sx, sy])
        if cfg["style"] == "grid":
            z, s = c.ok("grid", lambda: k.execute("grid", sx, sy, backend=cfg["backend"]))
        else:
            mask = np.zeros(shape, bool)
            mask[0, -1] = mask[-1, 0] = True
            z, s = c.ok("masked", lambda: k.execute("masked", sx, sy, mask=mask, backend=cfg["backend"]))
        c.true(z.shape == shape, "shape %s" % (z.shape,))
    z, s = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
    u = np.ones(len(P), bool)
    if cfg["style"] == "masked":
        u = ~mask.ravel()
    m = ref.Model(X, Z, model, internal, sc, an, drifts=drifts)
    r = m.predict(P)
    if not r.usable:
        return c.skip("ill-conditioned")
    # targets next to a data point: the reference has them at distance > 0 too
    c.close("estimate", z[u], r.z[u], r.tz[u])
    c.close("variance", s[u], r.ss[u], r.tss[u])
    if cfg["values"] == "drift":
        want = 1.5 - 2.0 * np.asarray(bilinear(gx, gy, G, P), float)
        c.close("reproduced drift", z[u], want[u], r.tz[u] + 1e-9 * (1 + np.abs(want).max()))
    c.count("targets", len(P))
    c.out(z[u], s[u])


def simple(gx, gy, G, backend=None, **kw):
    X = data_points(np.sort(gx), np.sort(gy))
    Z = np.cos(np.arange(len(X)) * 1.7)
    return lib.make("uk", X, Z, "linear", [1.0, 0.1], drift_terms=["external_Z"], external_drift=G, external_drift_x=gx, external_drift_y=gy, **kw)


def fast(gx, gy, G, P):
    """Bilinear interpolation on ascending axes in double precision."""
    i = np.clip(np.searchsorted(gx, P[:, 0], side="right") - 1, 0, len(gx) - 2)
    j = np.clip(np.searchsorted(gy, P[:, 1], side="right") - 1, 0, len(gy) - 2)
    t = (P[:, 0] - gx[i]) / (gx[i + 1] - gx[i])
    u = (P[:, 1] - gy[j]) / (gy[j + 1] - gy[j])
    return (1 - t) * (1 - u) * G[j, i] + t * (1 - u) * G[j, i + 1] + (1 - t) * u * G[j + 1, i] + t * u * G[j + 1, i + 1]


def large(c, cfg):
    """Large drift grids and many targets: all nodes, and points in every cell."""
    nx, ny = cfg["shape"]
    lo, step = cfg["where"]
    gx = lo + step * (np.arange(nx) + (0.3 * np.sin(np.arange(nx)) if cfg["spacing"] == "uneven" else 0.0))
    gy = -lo + 0.7 * step * (np.arange(ny) + (0.3 * np.cos(np.arange(ny)) if cfg["spacing"] == "uneven" else 0.0))
    j, i = np.mgrid[:ny, :nx]
    G = np.sin(1.3 * i + 0.1 * j) * 2 + 0.4 * np.sqrt(j) + 0.3 * np.cos(1.1 * j) + 0.002 * i * j
    ox, oy = ORDERS[cfg["ox"]](nx), ORDERS[cfg["oy"]](ny)
    A = G[np.ix_(oy, ox)]
    if cfg["orient"] == "T":
        if nx == ny:
            return c.skip("ambiguous orientation")
        A = A.T.copy()
    X = data_points(gx, gy)
    dX = fast(gx, gy, G, X)
    Z = 1.5 - 2.0 * dX
    k = c.ok("construct", lambda: lib.make("uk", X, Z, "exponential", [1.5, 0.8 * float(np.max(np.ptp(X, axis=0))), 0.1], drift_terms=["external_Z"],
                                           external_drift=A, external_drift_x=gx[ox], external_drift_y=gy[oy]))
    n = max(1, nx * ny // 500)  # at most some hundred nodes and cells
    U = np.stack([i.ravel(), j.ravel()], 1)[:: n]
    U = np.concatenate([U, [[nx - 1, ny - 1], [nx - 1, 0], [0, ny - 1]]])
    nodes = np.stack([gx[U[:, 0]], gy[U[:, 1]]], 1)
    V = np.minimum(U, [nx - 2, ny - 2])
    t = (np.arange(len(V)) * 0.61803) % 1.0
    u = (np.arange(len(V)) * 0.32471) % 1.0
    cells = np.stack([gx[V[:, 0]] + t * (gx[V[:, 0] + 1] - gx[V[:, 0]]), gy[V[:, 1]] + u * (gy[V[:, 1] + 1] - gy[V[:, 1]])], 1)
    P = np.concatenate([nodes, cells])
    z, s = c.ok("points", lambda: lib.run_points(k, P, backend=cfg["backend"]))
    c.close("reproduced drift", z, 1.5 - 2.0 * fast(gx, gy, G, P), 1e-8)
    c.count("targets", len(P))
    c.out(z[:5], s[-5:])


def outside_positions(g):
    g = np.asarray(g, float)
    w = max(np.ptp(g), 1.0)
    return [np.nextafter(g[0], -np.inf), g[0] - 0.1 * w, g[0] - 100 * w, np.nextafter(g[-1], np.inf), g[-1] + 0.1 * w, g[-1] + 100 * w]


def outside(c, cfg):
    """One target (or data point) outside among others inside."""
    nx, ny = cfg["nx"], cfg["ny"]
    lo, step = cfg["where"]
    gx, gy = axis(nx, cfg["spacing"], lo, step), axis(ny, cfg["spacing"], -lo, 0.7 * step)
    G = grid_values("waves", ny, nx)
    ox, oy = ORDERS[cfg["order"]](nx), ORDERS[cfg["order"]](ny)
    ax, ay, A = gx[ox], gy[oy], G[np.ix_(oy, ox)]
    inside = data_points(gx, gy)[3:6]
    bx, by = outside_positions(gx), outside_positions(gy)
    bad = [(a, y) for a in bx for y in stops(gy, False)] + [(x, b) for b in by for x in stops(gx, False)] + list(itertools.product(bx, by))
    bad += [(np.nan, gy[0]), (gx[0], np.nan), (np.inf, gy[0])]
    if cfg["who"] == "target":
        k = c.ok("construct", lambda: simple(ax, ay, A))
        first = lib.run_points(k, inside, backend=cfg["backend"])
        for i, b in enumerate(bad):
            P = np.insert(inside, i % 4, b, axis=0)
            c.raises("target %s outside" % (b,), lambda: lib.run_points(k, P, backend=cfg["backend"]), ValueError)
        again = lib.run_points(k, inside, backend=cfg["backend"])
        c.same("estimates after rejected targets", again[0], first[0])
        c.out(first[0])
    else:
        X = data_points(gx, gy)
        Z = np.cos(np.arange(len(X)) * 1.7)
        for i, b in enumerate(bad):
            if not np.isfinite(b).all():
                continue
            Y = np.insert(X, i % len(X), b, axis=0)
            c.raises("data point %s outside" % (b,), lambda: lib.make(
                "uk", Y, np.append(Z, 0.3), "linear", [1.0, 0.1], drift_terms=["external_Z"], external_drift=A, external_drift_x=ax, external_drift_y=ay), ValueError)
    c.count("outside positions", len(bad))


def masks(c, cfg):
    """All masks of a small grid that leaves the drift grid."""
    gx, gy = axis(3, "uneven", 2.0, 1.0), axis(4, "uneven", -1.0, 1.0)
    G = grid_values("waves", 4, 3)
    k = c.ok("construct", lambda: simple(gx, gy, G))
    sx = {"x": [gx[0], 2.6, gx[-1] + 0.5], "y": [2.1, gx[1], gx[2]], "both": [gx[0] - 1, 2.6, gx[-1] + 0.5], "none": [2.1, gx[1], gx[2]]}[cfg["side"]]
    sy = {"x": [gy[0], 0.7], "y": [gy[0] - 0.2, gy[2]], "both": [gy[-1] + 1e-9, gy[1]], "none": [gy[0], gy[-1]]}[cfg["side"]]
    P, shape = lib.grid_points([sx, sy])
    out = (P[:, 0] < gx[0]) | (P[:, 0] > gx[-1]) | (P[:, 1] < gy[0]) | (P[:, 1] > gy[-1])
    for bits in range(1 << len(P)):
        mask = np.array([bits >> i & 1 for i in range(len(P))], bool)
        call = lambda: k.execute("masked", np.array(sx), np.array(sy), mask=mask.reshape(shape), backend=cfg["backend"])
        if (out & ~mask).any():
            c.raises("mask %s" % mask.astype(int).tolist(), call, ValueError)
        elif mask.all():
            continue
        else:
            z, s = c.ok("mask %s" % mask.astype(int).tolist(), call)
            zz = np.asarray(lib.run_points(k, P[~mask], backend=cfg["backend"])[0])
            c.close("unmasked", np.ma.getdata(z).ravel()[~mask], zz, 1e-9)
            c.out(zz)


def shapes(c, cfg):
    """A drift grid is accepted if and only if it fits one orientation."""
    nx, ny = cfg["nx"], cfg["ny"]
    gx, gy = axis(nx, "even", 0.0, 1.0), axis(ny, "even", 0.0, 1.0)
    a, b = cfg["rows"], cfg["cols"]
    if max(nx, ny) < 2:
        return c.skip("constant drift")
    A = grid_values("waves", a, b)
    call = lambda: simple(gx, gy, A)
    if (a, b) == (ny, nx) or (a, b) == (nx, ny):
        k = c.ok("accepted shape", call)
        c.out(lib.run_points(k, data_points(gx, gy)[4:6] * [1, 1])[0])
    else:
        c.raises("grid of %d rows and %d columns for %d x and %d y" % (a, b, nx, ny), call, ValueError)


def missing(c, cfg):
    gx, gy = axis(4, "even"), axis(3, "even")
    G = grid_values("waves", 3, 4)
    X = data_points(gx, gy)
    Z = np.cos(np.arange(len(X)))
    kw = dict(drift_terms=list(cfg["terms"]) + ["external_Z"], external_drift=G, external_drift_x=gx, external_drift_y=gy)
    if "functional" in cfg["terms"]:
        kw["functional_drift"] = [f_wave]
    c.ok("complete", lambda: lib.make("uk", X, Z, "linear", [1.0, 0.1], **kw))
    for n in (1, 2, 3):
        for gone in itertools.combinations(["external_drift", "external_drift_x", "external_drift_y"], n):
            for how in ("absent", "None"):
                k2 = {k: v for k, v in kw.items() if k not in gone}
                if how == "None":
                    k2.update({k: None for k in gone})
                c.raises("without %s" % (gone,), lambda: lib.make("uk", X, Z, "linear", [1.0, 0.1], **k2), ValueError)
    for bad in (G.ravel(), G[0], G[:, :3], G[:2], np.stack([G, G]), 1.0):
        c.raises("grid of shape %s" % (np.shape(bad),), lambda: lib.make("uk", X, Z, "linear", [1.0, 0.1], **dict(kw, external_drift=bad)), Exception)
    c.out("ok")


def spaces(tier):
    q = tier == "quick"
    N = [1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6]
    orders = list(ORDERS)
    dev = dict(
        values=["drift", "cos"], style=["points", "grid", "masked"],
        grid=["waves", "integers", "large", "uint8", "int8", "float32", "bool"],
        form=list(FORMS), where=[(0.0, 1.0), (4e5, 10.0), (-3.0, 1e-3), (0.1, 1 / 3), (7.0, 1e4)],
        aniso=list(ANISO), also=["", "rl", "fn"], model=["linear", "exponential", "spherical"],
        spacing=["uneven", "even", "almost", "integers", "int8", "uint16", "float32"], hot=[0],
    )
    return [
        Space("orders", case, dict(nx=N, ny=N, orient=["N", "T"], ox=orders, oy=orders, backend=["vectorized", "loop"]),
              dict(dev, spacing=["uneven", "even", "almost", "int8"] if q else dev["spacing"], **({k: v[:1] for k, v in dev.items() if k != "spacing"} if q else {})), bound=1),
        Space("nodes", case, dict(nx=[2, 3, 4], ny=[2, 3, 4], hot=list(range(16)), grid=["onehot"], orient=["N", "T"], ox=["asc", "desc"], oy=["asc", "desc"] if not q else ["asc"], backend=["vectorized"]),
              {k: v[:1] for k, v in dev.items() if k not in ("hot", "grid")}),
        Space("settings", case, dict(nx=[3, 5], ny=[4], orient=["N", "T"], ox=["asc", "desc"], oy=["desc"], backend=["vectorized", "loop"]), dev, bound=2),
        Space("outside", outside, dict(nx=N[1:], ny=N[1:], order=["asc", "desc"], spacing=["uneven", "even"], where=[(0.0, 1.0), (4e5, 10.0), (0.1, 1 / 3)], who=["target", "data"], backend=["vectorized", "loop"]),
              valid=lambda v: v["who"] == "target" or v["backend"] == "loop"),
        Space("large", large, dict(shape=[(2, 129), (129, 2), (33, 65), (65, 64), (64, 33), (100, 129), (257, 5), (1025, 2), (3, 1000), (300, 400)], orient=["N", "T"], ox=["asc", "desc", "mixed"], oy=["asc", "desc"], backend=["vectorized", "loop"],
                                   spacing=["even", "uneven"], where=[(0.0, 1.0), (4e3, 10.0)]), valid=lambda v: v["backend"] == "vectorized" or v["where"][0] == 0.0 and v["ox"] != "mixed"),
        Space("masks", masks, dict(side=["x", "y", "both", "none"], backend=["vectorized", "loop"])),
        Space("shapes", shapes, dict(nx=[1, 2, 3, 4], ny=[1, 2, 3, 4], rows=[1, 2, 3, 4, 5], cols=[1, 2, 3, 4, 5])),
        Space("missing", missing, dict(terms=[(), ("regional_linear",), ("functional",)])),
    ]
