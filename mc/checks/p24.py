"""P24: grids survive write_zmap_grid and read_zmap_grid."""
import os
import warnings

import numpy as np

from ..engine import Space
from .p23 import DTYPES, FORMS, OLD, Scratch, axes, mask_of, typed
from .p23 import values as values23, PALETTES as P23

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of grid shapes (all remainders modulo the nodes per line), coordinates, value magnitudes, masks and texts; every written file is parsed by an independent reader and read back"
ASSUMPTIONS = [
    "coordinates are ascending and equally spaced unless the case says otherwise; grids have at least two rows and columns",
    "data below 1e6 are stored with four decimals, others with eight significant digits; the no-data value of a data entry follows the same rule, the one of the header is exact",
]

PALETTES = dict(P23)
PALETTES.update({
    "rounding": [0.00004, 0.00006, -0.00004, 0.99996, 999999.99, -999999.99999, 999999.99996, 123456.78905],
    "scales": [999999.0, 1e6, 1000000.5, 1.23456789e7, -1e6, -9.87654321e9, 1e99, -9.9999999e99],
})
del PALETTES["inf"]  # not covered by the property


def values(palette, ny, nx):
    if palette in P23 and palette != "rounding":
        return values23(palette, ny, nx)
    p = PALETTES[palette]
    return np.array([[p[(i + 3 * j + (i * j) % 5) % len(p)] for i in range(nx)] for j in range(ny)], float)


def tolerance(v):
    a = np.abs(v)
    return np.where(a < 1e6, 0.5000001e-4 + 1e-15 * a, 0.51e-7 * a)


def parse(path):
    """Independent reader: (comments, header fields, data words)."""
    comments, head, rows, at = [], [], [], 0
    for ln in open(path).read().split("\n"):
        if ln.startswith("!"):
            comments.append(ln)
        elif ln.startswith("@"):
            at += 1
            if at == 1:
                head.append([w.strip() for w in ln[1:].split(",")])
        elif at == 1:
            head.append([w.strip() for w in ln.split(",")])
        elif ln.strip():
            rows.append(ln.split())
    return comments, head, rows


TEXT = ["<null>", "WGS 84", "EPSG:4326", "a: b: c", "UTM zone 32N / ETRS89", "x", "m@n", "  padded  ", "COORDINATE REFERENCE SYSTEM", "1 2 3"]


def case(c, cfg):
    with Scratch() as d:
        return _case(c, cfg, d)


def _case(c, cfg, d):
    from pykrige import kriging_tools as kt

    ny, nx = cfg["shape"]
    x, y = axes(cfg, ny, nx)
    xf, yf = FORMS[cfg["form"]](x), FORMS[cfg["form"]](y)
    x, y = np.asarray(xf, float).ravel(), np.asarray(yf, float).ravel()
    z = values(cfg["values"], ny, nx)
    m = mask_of(cfg["mask"], ny, nx)
    zz, z = typed(z, "float32" if cfg["form"] == "float32" and cfg["dtype"] == "float64" else cfg["dtype"])
    if cfg["mask"] != "none" or cfg["masked"]:
        zz = np.ma.array(zz, mask=m)
    elif cfg["form"] == "list":
        zz = zz.tolist()
    elif cfg["form"] == "strided":
        zz = np.asfortranarray(zz)
    path = os.path.join(d, cfg["name"])
    if cfg["existing"]:
        open(path, "w").write("@ 999\n" * 400)
    kw = {}
    if cfg["nodata"] is not None:
        kw["no_data"] = cfg["nodata"]
    if cfg["text"] is not None:
        kw["coord_sys"] = cfg["text"]
    nd = -999.0 if cfg["nodata"] is None else cfg["nodata"]
    text = "<null>" if cfg["text"] is None else cfg["text"]
    before = [np.array(xf, copy=True), np.array(yf, copy=True), np.ma.getdata(np.ma.array(zz)).copy()]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        c.ok("write", lambda: kt.write_zmap_grid(xf, yf, zz, filename=path, **kw))
    c.true(not [v for v in w if "Incorrect" in str(v.message)], "warns about a regular grid")
    for name, a, b in zip("xyz", before, (xf, yf, np.ma.getdata(np.ma.array(zz)))):
        c.same("write changes " + name, b, a)
    want = np.where(m | np.isnan(z), nd, z)
    dx, dy = x[1] - x[0], y[1] - y[0]
    # the file: one column of the grid after the other, each from the top
    comments, head, rows = parse(path)
    words = [v for r in rows for v in r]
    c.true(len(words) == nx * ny, "the body has %d values instead of %d" % (len(words), nx * ny))
    if not c.fails:
        c.close("body", np.array([float(v) for v in words]).reshape(nx, ny).T[::-1], want, tolerance(want))
        per = int(head[0][2])
        width = int(head[1][0])
        lines = [ln for ln in open(path).read().split("\n@\n")[1].split("\n") if ln]
        c.true(all(len(r) <= per for r in rows), "more than %d values per line" % per)
        need = -(-ny // per)
        c.true(len(lines) == nx * need, "%d lines instead of %d (every column starts a line)" % (len(lines), nx * need))
        # three digits of exponent and a sign need one more
        wide = lambda v: width + (v[0] == "-" and len(v) > 14)
        c.true(all(len(ln) == sum(map(wide, r)) for ln, r in zip(lines, rows)), "fields are not %d wide" % width)
        c.true([int(v) for v in head[2][:2]] == [ny, nx], "header size %s" % head[2])
        scale = 1e-12 * (np.abs(x).max() + np.abs(y).max())
        c.close("header", [float(v) for v in head[2][2:]], [x[0], x[-1], y[0], y[-1]], scale + 1e-9 * (abs(dx) * nx + abs(dy) * ny))
        c.close("no-data value of the header", float(head[1][1]), nd, 0.0)
    if cfg["via"] == "crlf":
        b = open(path, "rb").read().replace(b"\n", b"\r\n")
        open(path, "wb").write(b)
    elif cfg["via"] == "one per line":
        s = open(path).read()
        h = s.index("\n@\n") + 3
        open(path, "w").write(s[:h] + "\n".join(words) + "\n")
    elif cfg["via"] == "no comments":
        ls = [v for v in open(path).read().split("\n") if not v.startswith("!")]
        open(path, "w").write("\n".join(ls))
        text = "<null>"
    elif cfg["via"] == "no final newline":
        s = open(path).read().rstrip()
        open(path, "w").write(s)
    elif cfg["via"] == "blank end":
        open(path, "a").write("\n\n")
    got = c.ok("read", lambda: kt.read_zmap_grid(path))
    c.true(len(got) == 6, "%d results" % len(got))
    g, gx, gy, cell, gnd, gtext = got
    c.close("values", g, want, tolerance(want))
    tol = 1e-9 * (abs(dx) * nx + abs(dy) * ny) + 1e-12 * (np.abs(x).max() + np.abs(y).max())
    c.close("x", gx, x, tol)
    c.close("y", gy, y, tol)
    c.true(isinstance(cell, tuple) and len(cell) == 2, "cell size %r" % (cell,))
    c.close("cell size", cell, [dx, dy], tol)
    c.close("no-data value", gnd, nd, 0.0)
    c.true(gtext == text.strip(), "coordinate system %r instead of %r" % (gtext, text))
    if cfg["via"] == "plain":
        p2 = os.path.join(d, "h.zmap")
        c.ok("write again", lambda: kt.write_zmap_grid(gx, gy, g, filename=p2, no_data=gnd, coord_sys=gtext))
        g2, x2, y2, cell2, nd2, t2 = c.ok("read again", lambda: kt.read_zmap_grid(p2))
        c.same("second round of values", g2, g)
        c.close("second round of x", x2, x, 2 * tol)
        c.close("second round of y", y2, y, 2 * tol)
        c.true(nd2 == gnd and t2 == gtext, "second round of no-data value and text")
    c.out(g, gx, gy)


def rejected(c, cfg):
    from pykrige import kriging_tools as kt

    ny, nx = cfg["shape"]
    x, y = 10.0 + 2.0 * np.arange(nx), -5.0 + 3.0 * np.arange(ny)
    z = values("small", ny, nx)
    i = cfg["at"] % (nx if cfg["axis"] == "x" else ny)
    a = x if cfg["axis"] == "x" else y
    if len(a) == 2:
        return c.skip("two coordinates are always equally spaced")
    if cfg["what"] == "jitter":
        a[i] += 0.3
    elif cfg["what"] == "doubled":
        a[i:] += 2.0
    elif cfg["what"] == "swapped" and i:
        a[[i - 1, i]] = a[[i, i - 1]]
    if i == 0 and cfg["what"] != "jitter":
        return c.skip("not a change")
    with Scratch() as d:
        p = os.path.join(d, "g.zmap")
        open(p, "w").write(OLD)
        c.raises("%s of %s at %d" % (cfg["what"], cfg["axis"], i), lambda: kt.write_zmap_grid(x, y, z, filename=p), Exception)
        c.true(open(p).read() == OLD, "a rejected request changed the existing file")


def suspicious(c, cfg):
    from pykrige import kriging_tools as kt

    ny, nx = cfg["shape"]
    x, y = 10.0 + 2.0 * np.arange(nx), -5.0 + 3.0 * np.arange(ny)
    if cfg["what"] == "descending x":
        x = x[::-1]
    else:
        y = y[::-1]
    with Scratch() as d, warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            kt.write_zmap_grid(x, y, values("small", ny, nx), filename=os.path.join(d, "g.zmap"))
            raised = False
        except Exception:
            raised = True
        c.out("raised" if raised else "warned")
        c.true(raised or any("Incorrect" in str(v.message) for v in w), "neither a warning nor an error")


def spaces(tier):
    q = tier == "quick"
    sizes = list(range(2, 12)) if q else list(range(2, 22))
    shapes = [(a, b) for a in sizes for b in ([2, 3, 5, 8] if q else sizes)]
    few = [(2, 2), (3, 5), (5, 3), (7, 4), (10, 2), (11, 3)]
    spacing = [(1.0, 1.0), (0.1, 0.1), (0.25, 1.5), (1 / 3, 1 / 7), (1000.0, 1000.0), (0.001, 0.002), (30.0, 7.1), (1e-4, 1e-4), (12345.678, 0.3)]
    offset = [(0.0, 0.0), (-1.0, 2.5), (0.1, 0.2), (431234.56, 5412345.67), (-123456.789, -0.001), (1e-3, -1e-3), (-180.0, -90.0)]
    geo = dict(spacing=spacing, offset=offset, build=["exact", "linspace", "rounded"])
    rest = dict(
        values=list(PALETTES), mask=["none", "corner", "last", "checker", "row", "column", "all"],
        dtype=["float64"] + DTYPES, masked=[False, True], nodata=[None, -9999.0, 0.0, 1e20, -1.25, 255, -99999999.0, 1234567.25, -2147483648, 0.5, 1e30, 0.1],
        form=list(FORMS), existing=[False, True], text=[None] + TEXT,
        name=["g.zmap", "with space.dat", "noext", "a:b.zmap", "@x", "COORDINATE REFERENCE SYSTEM: no"],
        via=["plain", "crlf", "one per line", "no comments", "no final newline", "blank end"],
    )
    one = {k: v[:1] for k, v in geo.items()}
    return [
        Space("shapes", case, dict(shape=shapes), dict(rest, **geo), bound=1),
        Space("large", case, dict(shape=[(2, 1000), (1000, 2), (100, 101), (64, 65), (65, 63), (129, 33), (257, 3), (3, 257), (2, 4097), (513, 5), (300, 200)] + ([] if q else [(4097, 2), (512, 513), (1001, 100)]), build=geo["build"], spacing=[(1.0, 1.0), (0.1, 0.1), (1 / 3, 1 / 3), (30.0, 7.1)], offset=offset[:4]),
              {k: v[:1] for k, v in rest.items()}, bound=0),
        Space("coordinates", case, dict(geo, shape=few), {k: v[:1] for k, v in rest.items()}, bound=0),
        Space("content", case, dict(one, shape=few), rest, bound=2 if q else 3),
        Space("rejected", rejected, dict(shape=few + [(2, 6), (6, 2)], axis=["x", "y"], at=list(range(8)), what=["jitter", "doubled", "swapped"])),
        Space("suspicious", suspicious, dict(shape=few, what=["descending x", "descending y"])),
    ]
