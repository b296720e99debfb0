"""P25: damaged grid files are rejected, never misread."""
import os
import re
import resource
import signal
import warnings

import numpy as np

from ..engine import Space
from .p23 import PALETTES, Scratch, values

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault enumeration: every truncation point, every removed, repeated, emptied or exchanged word and line, every wrong count in the header and every failing write position of files written by the real writers, read by the real readers"
ASSUMPTIONS = [
    "a cut inside the digits of the very last value cannot be noticed by any reader: there only the other values are compared",
    "entries of the header which do not count values (offsets, cell sizes, texts) carry no redundancy: damage to them must not change the data",
    "ZMAP files are counted by the number of values only (the format has no rows)",
]

FORMATS = ["asc1", "asc2", "zmap"]


def write(kt, fmt, path, shape, palette, ints=False):
    ny, nx = shape
    z = values(palette, ny, nx)
    x, y = 10.0 + 2.0 * np.arange(nx), -5.0 + 2.0 * np.arange(ny)
    if ints:
        x, y = x.astype(int), y.astype(int)
    if fmt == "zmap":
        kt.write_zmap_grid(x, y, z, filename=path)
    else:
        kt.write_asc_grid(x, y, z, filename=path, style=int(fmt[3]))
    return z


def read(kt, fmt, path, **kw):
    """(values, x, y) or the exception."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = kt.read_zmap_grid(path) if fmt == "zmap" else kt.read_asc_grid(path, **kw)
        except Exception as e:
            return e
    return np.array(r[0], float), np.array(r[1], float), np.array(r[2], float)


def body(fmt, text):
    """Offset of the first value."""
    if fmt == "zmap":
        return text.index("\n@\n") + 3
    return text.index("\n", text.index("NODATA_VALUE")) + 1


def position(fmt, i, shape):
    """Grid index of the i-th value of a file."""
    ny, nx = shape
    if fmt == "zmap":
        return ny - 1 - i % ny, i // ny
    return ny - 1 - i // nx, i % nx


class Box:
    """Writes damaged variants of one file and judges what is read."""

    def __init__(self, c, kt, fmt, d, cfg):
        self.c, self.kt, self.fmt, self.cfg = c, kt, fmt, cfg
        self.p = os.path.join(d, "g")
        write(kt, fmt, self.p, cfg["shape"], cfg["values"], cfg["ints"])
        self.text = open(self.p).read()
        self.start = body(fmt, self.text)
        self.words = [m.span() for m in re.finditer(r"\S+", self.text)]
        self.data = [w for w in self.words if w[0] >= self.start]
        self.head = [w for w in self.words if w[0] < self.start]
        self.good = read(kt, fmt, self.p)
        if isinstance(self.good, Exception) or len(self.data) != cfg["shape"][0] * cfg["shape"][1]:
            c.fail("the intact file: %r" % (self.good,))

    def get(self, text, **kw):
        with open(self.p, "w") as f:
            f.write(text)
        self.c.count("faults")
        return read(self.kt, self.fmt, self.p, **kw)

    def bad(self, what, text, **kw):
        r = self.get(text, **kw)
        self.c.comparisons += 1
        if isinstance(r, Exception):
            self.c.count("rejected")
        else:
            self.c.fail("%s: accepted, values %s" % (what, r[0].tolist()))

    def harmless(self, what, text, but=None, coords=True, **kw):
        """Rejected, or read with the original content (except for one value)."""
        r = self.get(text, **kw)
        self.c.comparisons += 1
        if isinstance(r, Exception):
            self.c.count("rejected")
            return
        self.c.count("read unharmed" if but is None else "last value cut")
        a, b = r[0].copy(), self.good[0].copy()
        if but is not None and a.shape == b.shape:
            a[position(self.fmt, but, self.cfg["shape"])] = b[position(self.fmt, but, self.cfg["shape"])] = 0
        same = np.array_equal(a, b, equal_nan=True)
        if coords:
            same = same and np.array_equal(r[1], self.good[1]) and np.array_equal(r[2], self.good[2])
        if not same:
            self.c.fail("%s: misread, values %s at %s, %s" % (what, r[0].tolist(), r[1].tolist(), r[2].tolist()))


def case(c, cfg):
    from pykrige import kriging_tools as kt

    with Scratch() as d:
        b = Box(c, kt, cfg["format"], d, cfg)
        if not c.fails:
            DAMAGE[cfg["damage"]](b)
        c.out("%s" % sorted(c.counts.items()))


def cut(b):
    last = b.data[-1]
    for n in range(len(b.text)):
        t = b.text[:n]
        if n <= last[0]:
            b.bad("cut after %d of %d characters" % (n, len(b.text)), t)
        elif n < last[1]:
            b.harmless("cut within the last value", t, but=len(b.data) - 1)
        else:
            b.harmless("cut after the last value", t)


def cut_line(b):
    """A file that was cut and then ended by a newline (editors, transfers)."""
    last = b.data[-1]
    for n in range(len(b.text)):
        t = b.text[:n].rstrip() + "\n"
        if n <= last[0]:
            b.bad("cut after %d of %d characters" % (n, len(b.text)), t)


def drop_word(b):
    for i, (s, e) in enumerate(b.data):
        b.bad("value %d removed" % i, b.text[:s] + b.text[e:])
    for i, (s, e) in enumerate(b.head):
        b.harmless("header word %r removed" % b.text[s:e], b.text[:s] + b.text[e:])


def repeat_word(b):
    for i, (s, e) in enumerate(b.data):
        b.bad("value %d repeated" % i, b.text[:e] + " " + b.text[s:e] + " " + b.text[e:])
    for i, (s, e) in enumerate(b.head):
        b.harmless("header word %r repeated" % b.text[s:e], b.text[:e] + " " + b.text[s:e] + b.text[e:], coords=False)


def join_word(b):
    """The separator of two values is lost."""
    for i in range(len(b.data) - 1):
        b.bad("values %d and %d joined" % (i, i + 1), b.text[: b.data[i][1]] + b.text[b.data[i + 1][0]:])


def spoil_word(b):
    """A value is no number: rejected, or not a number."""
    for junk in ("x", "--", "1.2.3", "1,5", "1e", "?"):
        for i, (s, e) in enumerate(b.data):
            t = b.text[:s] + junk + b.text[e:]
            if junk == "1,5":
                continue  # another number in ZMAP files, which drop commas
            r = b.get(t)
            b.c.comparisons += 1
            if isinstance(r, Exception):
                continue
            v = r[0][position(b.fmt, i, b.cfg["shape"])]
            if not np.isnan(v):
                b.c.fail("value %d replaced by %r: read as %r" % (i, junk, v))
            b.harmless("value %d replaced by %r" % (i, junk), t, but=i)


def lines_of(b):
    ls = b.text.split("\n")
    first = b.text[: b.start].count("\n")
    return ls, first


def drop_line(b):
    ls, first = lines_of(b)
    for i in range(len(ls)):
        t = "\n".join(ls[:i] + ls[i + 1:])
        if i >= first and ls[i].strip():
            b.bad("line %d of the body removed" % (i - first), t)
        else:
            b.harmless("header line %r removed" % ls[i], t)


def drop_lines(b):
    """Every range of lines."""
    ls, first = lines_of(b)
    for i in range(len(ls)):
        for j in range(i + 2, len(ls) + 1):
            t = "\n".join(ls[:i] + ls[j:])
            if any(v.strip() for v in ls[max(i, first):j]):
                b.bad("lines %d to %d removed" % (i, j - 1), t)
            else:
                b.harmless("lines %d to %d removed" % (i, j - 1), t)


def repeat_line(b):
    ls, first = lines_of(b)
    for i in range(len(ls)):
        t = "\n".join(ls[: i + 1] + ls[i:])
        if i >= first and ls[i].strip():
            b.bad("line %d of the body repeated" % (i - first), t)
        else:
            b.harmless("header line %r repeated" % ls[i], t)


def blank_line(b):
    ls, first = lines_of(b)
    for i in range(len(ls)):
        for junk in ("", "   "):
            b.harmless("blank line before line %d" % i, "\n".join(ls[:i] + [junk] + ls[i:]))


def extra(b):
    """Surplus content at the end."""
    ny, nx = b.cfg["shape"]
    for n in range(1, nx + ny + 2):
        for v in ("7.5", "-999.0"):
            b.bad("%d surplus values" % n, b.text.rstrip() + "\n" + " ".join([v] * n) + "\n")
            b.bad("%d surplus values at the last line" % n, b.text.rstrip() + " " + " ".join([v] * n) + "\n")
    b.bad("the body twice", b.text.rstrip() + "\n" + b.text[b.start:])
    if b.fmt != "zmap":
        b.bad("the file twice", b.text.rstrip() + "\n" + b.text)


def counts(b):
    """Every small size in the header except for the true one."""
    ny, nx = b.cfg["shape"]
    for i in range(-1, ny + 4):
        for j in range(-1, nx + 4):
            if (i, j) == (ny, nx):
                continue
            if b.fmt == "zmap":
                if i * j == ny * nx and (i > 0 or j > 0):
                    continue  # not noticeable
                t = b.text.replace("   %d,  %d,  " % (ny, nx), "   %d,  %d,  " % (i, j), 1)
            else:
                t = re.sub(r"NCOLS( +)\d+", r"NCOLS\g<1>%d" % j, b.text)
                t = re.sub(r"NROWS( +)\d+", r"NROWS\g<1>%d" % i, t)
            if t == b.text:
                b.c.fail("the size was not found in the header")
            b.bad("header says %d rows and %d columns instead of %d and %d" % (i, j, ny, nx), t)


def footer(b):
    """The number of footer lines disagrees with the file."""
    if b.fmt == "zmap":
        return
    for n in range(1, 4):
        b.bad("footer=%d without a footer" % n, b.text, footer=n)
        foot = "\n" + "\n".join(" ".join(["w"] * b.cfg["shape"][1]) for _ in range(n)) + "\n"
        for k in range(0, n + 3):
            if k == n:
                r = b.get(b.text + foot, footer=k)
                b.c.true(not isinstance(r, Exception) and np.array_equal(r[0], b.good[0], equal_nan=True), "footer of %d lines: %r" % (n, r))
            else:
                b.bad("footer=%d with %d footer lines" % (k, n), b.text + foot, footer=k)


def swap_words(b):
    """Exchange of words of the header (names and values)."""
    hs = b.head
    for i in range(len(hs)):
        for j in range(i + 1, len(hs)):
            (s, e), (u, v) = hs[i], hs[j]
            t = b.text[:s] + b.text[u:v] + b.text[e:u] + b.text[s:e] + b.text[v:]
            ny, nx = b.cfg["shape"]
            if {b.text[s:e].strip(","), b.text[u:v].strip(",")} == {str(ny), str(nx)}:
                if b.fmt == "zmap" or b.cfg["values"] == "nan":
                    continue  # the same number of values
            r = b.get(t)
            b.c.comparisons += 1
            if not isinstance(r, Exception) and not np.array_equal(np.sort(r[0].ravel()), np.sort(b.good[0].ravel()), equal_nan=True):
                b.c.fail("header words %r and %r exchanged: values %s" % (b.text[s:e], b.text[u:v], r[0].tolist()))


def full(b):
    """Writing fails after every number of bytes (full disk): the error is
    reported and what was stored is not taken for a grid."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    last = b.data[-1]
    ny, nx = b.cfg["shape"]
    q = b.p + "2"
    try:
        for n in range(0, len(b.text), b.cfg["step"]):
            if os.path.exists(q):
                os.remove(q)
            err = None
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
            try:
                write(b.kt, b.fmt, q, b.cfg["shape"], b.cfg["values"], b.cfg["ints"])
            except OSError as e:
                err = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            b.c.count("faults")
            b.c.true(err is not None, "no error when only %d of %d bytes can be written" % (n, len(b.text)))
            if not os.path.exists(q):
                continue
            t = open(q).read()
            b.c.true(len(t) <= n, "more than the limit was written")
            r = read(b.kt, b.fmt, q)
            b.c.comparisons += 1
            if isinstance(r, Exception):
                b.c.count("rejected")
            elif len(t) <= last[0] - 2:  # the name and the time of the file vary
                b.c.fail("file of %d of %d bytes: accepted, values %s" % (len(t), len(b.text), r[0].tolist()))
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)


DAMAGE = dict(
    cut=cut, cut_line=cut_line, drop_word=drop_word, repeat_word=repeat_word, join_word=join_word, spoil_word=spoil_word,
    drop_line=drop_line, drop_lines=drop_lines, repeat_line=repeat_line, blank_line=blank_line, extra=extra,
    counts=counts, footer=footer, swap_words=swap_words, full=full,
)


def missing(c, cfg):
    """No file, an empty file, another format, binary content."""
    from pykrige import kriging_tools as kt

    with Scratch() as d:
        p = os.path.join(d, "g")
        what, fmt = cfg["what"], cfg["format"]
        if what == "missing":
            pass
        elif what == "directory":
            os.mkdir(p)
        elif what == "other format":
            write(kt, "asc1" if fmt == "zmap" else "zmap", p, (3, 4), "small")
        else:
            content = {"empty": b"", "newline": b"\n", "blank": b"   \n  \n", "zeros": b"\0" * 500, "binary": bytes(range(256)) * 4,
                       "text": b"some text\nof two words\n", "numbers": b"1 2\n3 4\n5 6\n", "html": b"<html> <body>\n404 Found\n</html>\n"}[what]
            open(p, "wb").write(content)
        r = read(kt, fmt, p)
        c.true(isinstance(r, Exception), "%s: read as %r" % (what, r))
        c.out("%s %s" % (what, type(r).__name__))


def spaces(tier):
    q = tier == "quick"
    shapes = [(2, 2), (2, 3), (3, 2), (4, 4), (6, 3), (3, 6), (11, 2)]
    if not q:
        shapes += [(a, b) for a in range(2, 9) for b in range(2, 9) if (a, b) not in shapes]
    pal = [v for v in PALETTES if v != "inf"] if not q else ["small", "wide", "nodata-like", "nan", "huge"]
    return [
        Space("damage", case, dict(format=FORMATS, shape=shapes, damage=[d for d in DAMAGE if d != "full"]), dict(values=pal, ints=[False, True]), bound=1 if q else 2),
        Space("full disk", case, dict(format=FORMATS, shape=shapes[:4] if q else shapes, damage=["full"], values=["small", "wide"], ints=[False], step=[1])),
        Space("no grid", missing, dict(format=FORMATS, what=["missing", "directory", "other format", "empty", "newline", "blank", "zeros", "binary", "text", "numbers", "html"])),
    ]
