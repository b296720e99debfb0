"""P23: grids survive write_asc_grid and read_asc_grid."""
import os
import shutil
import tempfile
import warnings

import numpy as np

from ..engine import Space

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of grid shapes, coordinates, value magnitudes, masks and header styles; every written file is parsed by an independent reader and read back"
ASSUMPTIONS = [
    "coordinates are ascending and equally spaced unless the case says otherwise; grids have at least two rows and columns",
    "data are stored with two decimals, the no-data value too (documented file format)",
]

# magnitudes and signs placed so that neighbours differ in printed width
PALETTES = {
    "small": [0.0, 0.25, -0.5, 1.75, -3.0, 2.5, 9.75, -8.25],
    "wide": [1e15, -1e15, 123456789012345.0, -12345678901234.0, 1e16, 0.25, -1e17, 99999999999999.0],
    "huge": [1e100, -1e100, 1.5e300, -1e200, 3.0, -2.0, 1e30, -1e30],
    "rounding": [0.004, 0.006, -0.004, 0.994999, 99.996, -0.996, 1e5 + 0.004, -1e5 - 0.006],
    "tiny": [1e-300, -1e-300, 0.0, -0.0, 1e-5, -1e-5, 0.01, -0.01],
    "nodata-like": [-999.0, -999.01, -998.99, 999.0, -9999.0, 0.0, -99.9, -999.004],
    "nan": [np.nan, 1.0, 2.0, np.nan, -3.0, 4.5, np.nan, 0.25],
    "inf": [np.inf, 1.0, -np.inf, 2.0, 3.0, 4.0, -5.0, 6.0],
}


def values(palette, ny, nx):
    p = PALETTES[palette]
    z = np.empty((ny, nx))
    for j in range(ny):
        for i in range(nx):
            z[j, i] = p[(i + 3 * j + (i * j) % 5) % len(p)]
            if palette == "small":
                z[j, i] += (j * nx + i) * 10
    return z


def mask_of(kind, ny, nx):
    j, i = np.mgrid[:ny, :nx]
    return {
        "none": lambda: np.zeros((ny, nx), bool),
        "corner": lambda: (i == 0) & (j == 0),
        "last": lambda: (i == nx - 1) & (j == ny - 1),
        "checker": lambda: (i + j) % 2 == 0,
        "row": lambda: j == 0,
        "column": lambda: i == nx - 1,
        "all": lambda: np.ones((ny, nx), bool),
    }[kind]()


FORMS = {
    "array": lambda a: np.array(a),
    "list": lambda a: np.asarray(a).tolist(),
    "column": lambda a: np.array(a).reshape(-1, 1),
    "strided": lambda a: np.repeat(np.array(a), 2)[::2],
    "float32": lambda a: np.array(a, dtype=np.float32),
}


# the data type of the grid; integer types hold what fits of the values
DTYPES = ["int64", "int32", "int8", "uint8", "bool", "float32", "float16", "longdouble"]


def typed(z, dtype):
    """z in another type, and what it then stands for."""
    if dtype == "float64":
        return z.copy(), z
    with np.errstate(all="ignore"):
        if np.dtype(dtype).kind == "f":
            t = z.astype(dtype)
            t[~np.isfinite(t) & np.isfinite(z)] = 7.0
        elif dtype == "bool":
            t = np.nan_to_num(z) > 0
        else:
            i = np.iinfo(dtype)
            t = np.fmod(np.rint(np.nan_to_num(z, posinf=3.0, neginf=-3.0)), i.max)
            t = (np.abs(t) if i.min == 0 else t).astype(dtype)
    return t, t.astype(float)


def axes(cfg, ny, nx):
    dx, dy = cfg["spacing"]
    x0, y0 = cfg["offset"]
    if cfg["build"] == "exact":
        x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    elif cfg["build"] == "linspace":
        x, y = np.linspace(x0, x0 + dx * (nx - 1), nx), np.linspace(y0, y0 + dy * (ny - 1), ny)
    else:
        x, y = np.array([round(x0 + dx * i, 9) for i in range(nx)]), np.array([round(y0 + dy * i, 9) for i in range(ny)])
    return x, y


def parse(path):
    """Independent reader: header dictionary and rows of words."""
    lines = open(path).read().split("\n")
    head, rows = {}, []
    for ln in lines:
        w = ln.split()
        if len(w) == 2 and w[0][0].isalpha() and w[0].lower() not in ("nan", "inf"):
            head[w[0].upper()] = w[1]
        elif w:
            rows.append(w)
    return head, rows


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="grid")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def case(c, cfg):
    with Scratch() as d:
        return _case(c, cfg, d)


def _case(c, cfg, d):
    from pykrige import kriging_tools as kt

    ny, nx = cfg["shape"]
    if cfg["style"] == 2 and cfg["spacing"][0] != cfg["spacing"][1]:
        return c.skip("style 2 needs equal spacing")
    x, y = axes(cfg, ny, nx)
    xf, yf = FORMS[cfg["form"]](x), FORMS[cfg["form"]](y)
    x, y = np.asarray(xf, float).ravel(), np.asarray(yf, float).ravel()
    if cfg["style"] == 2 and abs(x[1] - x[0]) != abs(y[1] - y[0]):
        return c.skip("spacing differs by rounding")  # compared exactly by write_asc_grid
    z = values(cfg["values"], ny, nx)
    m = mask_of(cfg["mask"], ny, nx)
    zz, z = typed(z, "float32" if cfg["form"] == "float32" and cfg["dtype"] == "float64" else cfg["dtype"])
    if cfg["mask"] != "none" or cfg["masked"]:
        zz = np.ma.array(zz, mask=m)
    elif cfg["form"] == "list":
        zz = zz.tolist()
    elif cfg["form"] == "strided":
        zz = np.asfortranarray(zz)
    before = [np.array(xf, copy=True), np.array(yf, copy=True), np.ma.getdata(np.ma.array(zz)).copy()]
    path = os.path.join(d, "g.asc")
    if cfg["existing"]:
        open(path, "w").write("NCOLS 999\n" * 400)
    kw = {}
    if cfg["nodata"] is not None:
        kw["no_data"] = cfg["nodata"]
    nd = -999.0 if cfg["nodata"] is None else cfg["nodata"]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            c.ok("write", lambda: kt.write_asc_grid(xf, yf, zz, filename=path, style=cfg["style"], **kw))
    c.true(not [v for v in w if "Incorrect" in str(v.message)], "warns about a regular grid: %s" % [str(v.message) for v in w])
    for name, a, b in zip("xyz", before, (xf, yf, np.ma.getdata(np.ma.array(zz)))):
        c.same("write changes " + name, b, a)
    want = np.where(m, nd, z)
    dx, dy = x[1] - x[0], y[1] - y[0]
    # the file, independent of the reader: the first row is the topmost
    head, rows = parse(path)
    c.true(int(head["NCOLS"]) == nx and int(head["NROWS"]) == ny, "header size %s" % head)
    c.true(len(rows) == ny and all(len(r) == nx for r in rows), "the body has %s values per row" % [len(r) for r in rows])
    if not c.fails:
        with np.errstate(all="ignore"):
            tol = 0.005000001 + 1e-15 * np.abs(np.where(np.isfinite(want), want, 0))
            c.close("body", _inf(np.array([[float(v) for v in r] for r in rows])[::-1]), _inf(want), tol)
    scale = 1e-12 * (np.abs(x).max() + np.abs(y).max())
    if cfg["style"] == 1:
        c.close("header", [float(head[k]) for k in ("XLLCENTER", "YLLCENTER", "DX", "DY")], [x[0], y[0], dx, dy], scale)
    else:
        c.close("header", [float(head[k]) for k in ("XLLCORNER", "YLLCORNER", "CELLSIZE")], [x[0] - dx / 2, y[0] - dy / 2, dx], scale)
    # the reader
    if cfg["via"] == "lower":
        s = open(path).read()
        for k in list(head):
            s = s.replace(k, k.lower())
        open(path, "w").write(s)
    elif cfg["via"] == "footer":
        open(path, "a").write("\nlast lines\nof text\n")
    elif cfg["via"] == "newline":
        open(path, "a").write("\n")
    elif cfg["via"] == "crlf":
        b = open(path, "rb").read().replace(b"\n", b"\r\n")
        open(path, "wb").write(b)
    elif cfg["via"] == "order":
        ls = open(path).read().split("\n")
        n = len(head)
        open(path, "w").write("\n".join(ls[:n][::-1] + ls[n:]))
    elif cfg["via"] == "rewritten header":
        corner = cfg["style"] == 1
        h = ["ncols %d" % nx, "nrows %d" % ny]
        h += ["%s %.17g" % ("xllcorner" if corner else "xllcenter", x[0] - corner * dx / 2), "%s %.17g" % ("yllcorner" if corner else "yllcenter", y[0] - corner * dy / 2)]
        h += ["dx %.17g" % dx, "dy %.17g" % dy] if cfg["style"] == 1 else ["cell_size %.17g" % dx]
        h += ["nodatavalue %r" % nd]
        ls = open(path).read().split("\n")
        open(path, "w").write("\n".join(h + ls[len(head):]))
    kw = dict(footer=2) if cfg["via"] == "footer" else {}
    got = c.ok("read", lambda: kt.read_asc_grid(path, **kw))
    c.true(len(got) == 5, "%d results" % len(got))
    g, gx, gy, cell, gnd = got
    with np.errstate(all="ignore"):
        c.close("values", _inf(g), _inf(want), 0.005000001 + 1e-15 * np.abs(np.where(np.isfinite(want), want, 0)))
    tol = 1e-9 * (abs(dx) * nx + abs(dy) * ny) + 1e-12 * (np.abs(x).max() + np.abs(y).max())
    c.close("x", gx, x, tol)
    c.close("y", gy, y, tol)
    if cfg["style"] == 1:
        c.true(isinstance(cell, tuple) and len(cell) == 2, "cell size %r" % (cell,))
        c.close("cell size", cell, [dx, dy], scale)
    else:
        c.close("cell size", cell, dx, scale)
    c.close("no-data value", gnd, nd, 0.005000001 + 1e-15 * abs(nd))
    c.close("masked points hold the no-data value", g[m], np.full(m.sum(), float(gnd)), 0.0)
    # what was read can be written again, with the same content
    if cfg["style"] == 1 and cfg["via"] == "plain":
        p2 = os.path.join(d, "h.asc")
        c.ok("write again", lambda: kt.write_asc_grid(gx, gy, g, filename=p2, no_data=gnd, style=1))
        g2, x2, y2, cell2, nd2 = c.ok("read again", lambda: kt.read_asc_grid(p2))
        c.same("second round of values", g2, g)
        c.close("second round of x", x2, x, 2 * tol)
        c.close("second round of y", y2, y, 2 * tol)
    c.out(g, gx, gy)


def _inf(a):
    """Infinities as sentinels, so that differences stay defined."""
    a = np.array(a, float)
    return np.where(a == np.inf, 1.25e301, np.where(a == -np.inf, -1.25e301, a))


OLD = "keep me\n"


def rejected(c, cfg):
    from pykrige import kriging_tools as kt

    ny, nx = cfg["shape"]
    x, y = 10.0 + 2.0 * np.arange(nx), -5.0 + 2.0 * np.arange(ny)
    z = values("small", ny, nx)
    kw = dict(style=cfg["style"])
    what = cfg["what"]
    i = cfg["at"] % (nx if cfg["axis"] == "x" else ny)
    a = x if cfg["axis"] == "x" else y
    if what == "jitter":
        a[i] += 0.3
    elif what == "doubled":
        a[i:] += 2.0
        if i == 0 or len(a) < 3:
            return c.skip("a shift of everything")
    elif what == "swapped":
        if i == 0 or len(a) < 3:
            return c.skip("nothing to swap")
        a[[i - 1, i]] = a[[i, i - 1]]
    elif what == "unequal":
        if cfg["style"] == 1:
            return c.skip("allowed in style 1")
        a *= [1.5, 1.0005, 0.9, 1.00005][cfg["at"] % 4]
    elif what == "style":
        kw["style"] = [0, 3, "1", None, -1][cfg["at"] % 5]
    elif what == "1d":
        z = z.ravel()
    elif what == "3d":
        z = np.stack([z, z])
    elif what == "2d axes":
        x, y = np.meshgrid(x, y)
    elif what == "none":
        with Scratch() as d:
            p = os.path.join(d, "g.asc")
            c.ok("valid", lambda: kt.write_asc_grid(x, y, z, filename=p, **kw))
            c.out(kt.read_asc_grid(p)[0])
        return
    if len(a) == 2 and what in ("jitter",) and cfg["style"] == 1:
        return c.skip("two coordinates are always equally spaced")
    with Scratch() as d:
        p = os.path.join(d, "g.asc")
        open(p, "w").write(OLD)
        c.raises("%s of %s at %d" % (what, cfg["axis"], i), lambda: kt.write_asc_grid(x, y, z, filename=p, **kw), Exception)
        c.true(open(p).read() == OLD, "a rejected request changed the existing file")
        q = os.path.join(d, "new.asc")
        c.raises("%s of %s at %d" % (what, cfg["axis"], i), lambda: kt.write_asc_grid(x, y, z, filename=q, **kw), Exception)
        c.true(not os.path.exists(q), "a rejected request created a file")


def suspicious(c, cfg):
    """Grids that cannot be right are reported by a warning."""
    from pykrige import kriging_tools as kt

    ny, nx = cfg["shape"]
    x, y = 10.0 + 2.0 * np.arange(nx), -5.0 + 3.0 * np.arange(ny)
    z = values("small", ny, nx)
    if cfg["what"] == "descending x":
        x = x[::-1]
    elif cfg["what"] == "descending y":
        y = y[::-1]
    elif cfg["what"] == "transposed":
        if nx == ny:
            return c.skip("square")
        z = z.T
    with Scratch() as d, warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            kt.write_asc_grid(x, y, z, filename=os.path.join(d, "g.asc"))
            raised = False
        except Exception:
            raised = True
        c.out("raised" if raised else "warned")
        c.true(raised or any("Incorrect" in str(v.message) for v in w), "neither a warning nor an error")


def spaces(tier):
    q = tier == "quick"
    sizes = [2, 3, 4, 5, 7, 11] if q else [2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 30]
    shapes = [(a, b) for a in sizes for b in sizes]
    few = [(2, 2), (3, 5), (5, 3), (7, 4)]
    spacing = [(1.0, 1.0), (0.1, 0.1), (0.25, 1.5), (1 / 3, 1 / 7), (1000.0, 1000.0), (0.001, 0.002), (30.0, 7.1), (1e-4, 1e-4), (12345.678, 0.3)]
    offset = [(0.0, 0.0), (-1.0, 2.5), (0.1, 0.2), (431234.56, 5412345.67), (-123456.789, -0.001), (1e-3, -1e-3), (-180.0, -90.0)]
    geo = dict(spacing=spacing, offset=offset, build=["exact", "linspace", "rounded"])
    rest = dict(
        values=list(PALETTES), mask=["none", "corner", "last", "checker", "row", "column", "all"],
        dtype=["float64"] + DTYPES, masked=[False, True], nodata=[None, -9999.0, 0.0, 1e20, -1.25, 255, -99999999.0, 1234567.25, -2147483648, 0.5],
        form=list(FORMS), existing=[False, True],
        via=["plain", "lower", "footer", "newline", "crlf", "order", "rewritten header"],
    )
    one = {k: v[:1] for k, v in geo.items()}
    return [
        Space("shapes", case, dict(shape=shapes, style=[1, 2], via=["plain"]), dict(rest, via=["plain"], spacing=spacing, offset=offset, build=geo["build"]), bound=1),
        Space("large", case, dict(shape=[(2, 1000), (1000, 2), (100, 101), (64, 65), (65, 63), (129, 33), (257, 3), (3, 257), (2, 4097), (513, 5), (300, 200)] + ([] if q else [(4097, 2), (512, 513), (1001, 100)]), style=[1, 2], build=geo["build"], spacing=[(1.0, 1.0), (0.1, 0.1), (1 / 3, 1 / 3), (30.0, 7.1)], offset=offset[:4]),
              {k: v[:1] for k, v in rest.items()}, bound=0),
        Space("coordinates", case, dict(geo, shape=few if q else few + [(2, 30), (30, 2), (11, 13)], style=[1, 2]), {k: v[:1] for k, v in rest.items()}, bound=0),
        Space("content", case, dict(one, shape=few, style=[1, 2]), rest, bound=2 if q else 3),
        Space("rejected", rejected, dict(shape=few + [(2, 6), (6, 2)], style=[1, 2], axis=["x", "y"], at=list(range(8)),
                                         what=["jitter", "doubled", "swapped", "unequal", "style", "1d", "3d", "2d axes", "none"])),
        Space("suspicious", suspicious, dict(shape=few, what=["descending x", "descending y", "transposed"])),
    ]
