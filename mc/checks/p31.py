"""P31: copies of kriging objects are equal and independent."""
import contextlib
import copy
import io
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import objects as ob
from ..engine import Search, Space

NEEDS_EXT = True
LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of histories over an object and its copies (deepcopy, pickle of every protocol, another process), each state compared with freshly constructed objects"
ASSUMPTIONS = [
    "states are merged by a digest of all attributes of both objects",
    "functions given by the user (drifts, variograms) are themselves importable, as pickle demands",
]

_FRESH = {}


def fresh(cls, setting, stats):
    kw = dict(enable_statistics=True) if stats and ob.base_of(cls) == "ok" else {}
    key = (cls, setting, stats)
    if key not in _FRESH:
        _FRESH[key] = ob.observe(cls, ob.construct(cls, ob.settings(cls)[setting], **kw))
    return _FRESH[key]


def clone(how, k):
    if how == "deepcopy":
        return copy.deepcopy(k)
    if how == "mixed":
        return pickle.loads(pickle.dumps(copy.deepcopy(k)))
    return pickle.loads(pickle.dumps(k, protocol=int(how[6:] or pickle.HIGHEST_PROTOCOL)))


class Pair:
    """An object, its copy and what is expected of them."""

    def __init__(self, c, cls, start):
        self.c, self.cls = c, cls
        self.S = ob.settings(cls)
        self.slots = [[c.ok("construct", lambda: ob.construct(cls, self.S[start])), start, False, False], None]

    def apply(self, op):
        c = self.c
        kind, _, arg = op.partition(":")
        if kind.startswith(("deepcopy", "pickle", "mixed")):
            k, *rest = self.slots[0]
            before = ob.digest(k)
            new = c.ok(op, lambda: clone(kind, k))
            c.true(ob.digest(k) == before, "%s changes the original" % kind)
            c.true(type(new) is type(k) and new is not k, "the copy is %r" % type(new))
            self.slots[1] = [new] + rest
        elif kind == "swap":
            if self.slots[1] is None:
                return False
            self.slots.reverse()
        else:
            s = self.slots[int(kind[-1])]
            if s is None:
                return False
            kind = kind[:-1]
            if kind == "update":
                c.ok(op, lambda: ob.update(self.cls, s[0], self.S[arg]))
                s[1], s[2] = arg, True
            elif kind == "bad":
                c.raises(op, lambda: ob.bad_updates(self.cls)[arg](s[0]), Exception)
            elif kind == "run":
                c.ok(op, lambda: ob.requests(self.cls)[arg](s[0]))
            elif kind == "verbose":
                s[0].switch_verbose()
                s[3] = not s[3]
            elif kind == "spoil":  # the owner overwrites results and data of one object
                for a in ("lags", "semivariance"):
                    v = getattr(s[0], a)
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v[...] = np.nan
                z, v = ob.requests(self.cls)["points"](s[0])
                z[...], v[...] = -1.0, -1.0
                # only the update puts the variogram in order again
                c.ok(op, lambda: ob.update(self.cls, s[0], self.S[s[1]]))
                s[2] = True
        return True

    def check(self):
        for i, s in enumerate(self.slots):
            if s is None:
                continue
            with contextlib.redirect_stdout(io.StringIO()) as out:
                got = self.c.ok("observe object %d" % i, lambda: ob.observe(self.cls, s[0]))
            self.c.true(bool(out.getvalue()) == s[3], "object %d prints %r" % (i, out.getvalue()[:80]))
            ob.compare(self.c, "object %d" % i, got, fresh(self.cls, s[1], s[2]))
            self.c.out(*[v for a, v in sorted(got.items())])


def runner(cls, start):
    def run(c, hist):
        w = Pair(c, cls, start)
        with contextlib.redirect_stdout(io.StringIO()):
            for op in hist:
                if not w.apply(op):
                    return None
        state = "|".join("-" if s is None else ob.digest(s[0]) for s in w.slots)
        w.check()
        return state

    return run


def searches(tier):
    q = tier == "quick"
    ops = ["deepcopy", "pickle", "swap", "update0:exp-an", "update1:sph-auto", "update1:gau-sc", "bad1:custom failing late", "run0:masked", "run1:points", "verbose1", "spoil1"]
    if not q:
        ops += ["pickle0", "mixed", "update0:gst", "update1:cus-b", "bad0:text parameters", "verbose0", "run1:loop", "spoil0"]
    out = []
    for i, cls in enumerate(ob.CLASSES):
        starts = ["lin", "exp-an", "gst", "pow-dict"]
        for start in [starts[i % 4]] if q else starts:
            out.append(Search("%s from %s" % (cls, start), ops, runner(cls, start), depth=3 if q else 5))
    return out


def talk(c, cls, k, setting):
    """What a request, an update and a further request print, and the number of plots."""
    import matplotlib.pyplot as plt

    plots = []
    show, plt.show = plt.show, lambda *a, **kw: plots.append(1)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            c.ok("run", lambda: ob.requests(cls)["masked"](k))
            c.ok("update", lambda: ob.update(cls, k, setting))
            c.ok("run", lambda: ob.requests(cls)["points"](k))
    finally:
        plt.show = show
        plt.close("all")
    return out.getvalue(), len(plots)


def same(c, cfg):
    """A copy is bitwise the same, whatever was done before."""
    cls = cfg["cls"]
    S = ob.settings(cls)
    kw = dict(enable_statistics=True) if cfg["stats"] and ob.base_of(cls) == "ok" else {}
    k = c.ok("construct", lambda: ob.construct(cls, S[cfg["setting"]], **kw))
    if cfg["before"] == "update":
        c.ok("update", lambda: ob.update(cls, k, S["exp-an"]))
    elif cfg["before"] == "bad":
        c.raises("bad update", lambda: ob.bad_updates(cls)["no lags"](k), Exception)
    elif cfg["before"] == "switches":
        with contextlib.redirect_stdout(io.StringIO()):
            k.switch_verbose()
            k.switch_plotting()
    elif cfg["before"] != "-":
        c.ok("run", lambda: ob.requests(cls)[cfg["before"]](k))
    new = c.ok(cfg["how"], lambda: clone(cfg["how"], k))
    if cfg["before"] == "switches":
        said = [talk(c, cls, o, S["gau-sc"]) for o in (k, new)]
        c.true(said[0] == said[1], "the original prints and plots %r, its copy %r" % tuple(said))
        c.true(bool(said[0][0]) and said[0][1] > 0, "switches have no effect: %r" % (said[0],))
        k.switch_verbose()
        k.switch_plotting()
        a, b = (talk(c, cls, o, S["gau-sc"]) for o in (k, new))
        c.true(not a[0] and not a[1], "the original prints and plots %r after it was silenced" % (a,))
        c.true(bool(b[0]) and b[1] == said[0][1], "the copy prints and plots %r after the original was silenced" % (b,))
        c.out([len(said[0][0]), said[0][1]])
        return
    a = c.ok("observe", lambda: ob.observe(cls, k))
    b = c.ok("observe the copy", lambda: ob.observe(cls, new))
    ob.compare(c, "copy", b, a, exact=True)
    ups = [n for n in ("gau-sc", "sph-auto") if n != cfg["setting"]]
    c.ok("update of the copy", lambda: ob.update(cls, new, S[ups[0]]))
    ob.compare(c, "updated copy", ob.observe(cls, new), fresh(cls, ups[0], True))
    ob.compare(c, "original after the update of its copy", ob.observe(cls, k), a, exact=True)
    del k
    ob.compare(c, "copy without its original", ob.observe(cls, new), fresh(cls, ups[0], True))
    c.out(*[v for n, v in sorted(b.items())])


CHILD = """
import pickle, sys, warnings
warnings.simplefilter("ignore")
sys.path[:0] = pickle.loads(bytes.fromhex(sys.argv[3]))
objs = pickle.load(open(sys.argv[1], "rb"))
from mc import objects as ob
pickle.dump({n: ob.observe(c, k) for n, (c, k) in objs.items()}, open(sys.argv[2], "wb"))
"""


def process(c, cfg):
    """Objects sent to another process predict the same there."""
    cls = cfg["cls"]
    objs = {n: (cls, c.ok("construct", lambda: ob.construct(cls, s))) for n, s in ob.settings(cls).items()}
    want = {n: ob.observe(cls, k) for n, (_, k) in objs.items()}
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        with open(a, "wb") as f:
            pickle.dump(objs, f)
        env = dict(os.environ, PYTHONHASHSEED=cfg["hashseed"])
        p = subprocess.run([sys.executable, "-c", CHILD, a, b, pickle.dumps([v for v in sys.path if v] + [os.getcwd()]).hex()], capture_output=True, text=True, env=env, timeout=150)
        c.true(p.returncode == 0, "the other process fails: %s" % p.stderr[-500:])
        if p.returncode:
            return
        got = pickle.load(open(b, "rb"))
    for n in want:
        ob.compare(c, n + " in another process", got[n], want[n], exact=True)
    c.out(*[v for n in sorted(got) for _, v in sorted(got[n].items())])


def spaces(tier):
    q = tier == "quick"
    names = list(ob.settings("ok"))
    return [
        Space("copies", same, dict(cls=ob.CLASSES, setting=names, how=["deepcopy", "pickle", "pickle0", "pickle2", "mixed"], before=["-", "update", "masked", "bad", "switches"] if q else ["-", "update", "bad", "switches"] + list(ob.requests("ok")), stats=[False] if q else [False, True])),
        Space("processes", process, dict(cls=ob.CLASSES, hashseed=["0", "12345"])),
    ]
