"""P14: a rejected operation has no effect."""
import contextlib
import io
import sys

import numpy as np

from .. import objects as ob
from ..engine import Search, Space
from .p13 import World

LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of histories with rejected operations, and enumeration of all fault points of updates and executes, on the real objects"
ASSUMPTIONS = [
    "fault points are the calls of user callbacks and the calls from PyKrige into numpy, scipy and matplotlib",
    "an operation that succeeds in spite of the fault is not judged",
]


# ------------------------------------------------------------- fault points
class Fault:
    """Raises at the n-th call from PyKrige into a numerical library."""

    def __init__(self, n, exc):
        self.n, self.exc, self.seen = n, exc, 0

    def __call__(self, frame, event, arg):
        if event == "call":
            b = frame.f_back
            if b is None or "pykrige" not in b.f_code.co_filename:
                return
            f = frame.f_code.co_filename
            if "pykrige" in f or "site-packages" not in f:
                return
        elif event == "c_call":
            if "pykrige" not in frame.f_code.co_filename:
                return
            mod = getattr(arg, "__module__", None) or ""
            if not (mod.startswith(("numpy", "scipy")) or isinstance(getattr(arg, "__self__", None), np.ndarray)):
                return
        else:
            return
        self.seen += 1
        if self.seen == self.n:
            raise self.exc("injected")


def attempt(fn, prof=None):
    """Runs fn under a profile function; True if it raised."""
    if prof is not None:
        sys.setprofile(prof)
    try:
        fn()
        return False
    except Exception:
        return True
    finally:
        sys.setprofile(None)


FLAGS = {"": {}, "verbose": dict(verbose=True), "plotting": dict(enable_plotting=True)}


def build(cls, setting, flag, **more):
    kw = dict(FLAGS[flag])
    kw.update(more)
    return ob.construct(cls, ob.settings(cls)[setting], **kw)


def _close(flag):
    if flag == "plotting":
        import matplotlib.pyplot as plt

        plt.close("all")


def observe(cls, k, names=None):
    """What a user sees of the object, with its flags and all that is printed."""
    with contextlib.redirect_stdout(io.StringIO()) as said:
        o = ob.observe(cls, k, names)
    o["switches"] = "verbose %r, plotting %r" % (getattr(k, "verbose", None), getattr(k, "enable_plotting", None))
    o["printed text"] = said.getvalue()
    return o


def watch(cls, k, want, names, c, what):
    got = c.ok("observe after " + what, lambda: observe(cls, k, names))
    ob.compare(c, "after " + what, got, want, exact=True)
    return not c.fails


def points(c, cfg):
    """Every fault point of one operation."""
    cls, names = cfg["cls"], ["points", "masked-loop"]
    S = ob.settings(cls)
    kind, _, arg = cfg["op"].partition(":")
    if kind == "update":
        op = lambda k: ob.update(cls, k, S[arg])
    else:
        op = lambda k: ob.requests(cls)[arg](k)
    k = c.ok("construct", lambda: build(cls, cfg["start"], cfg["flag"]))
    want = observe(cls, k, names)
    count = Fault(0, MemoryError)
    k2 = build(cls, cfg["start"], cfg["flag"])
    if attempt(lambda: op(k2), count):
        return c.skip("rejected")
    _close(cfg["flag"])
    n = 0
    exc = [MemoryError, np.linalg.LinAlgError, ValueError, KeyError]
    total = count.seen if cfg["limit"] is None else min(count.seen, cfg["limit"])
    step = 1
    for i in range(1, total + 1, step):
        if not attempt(lambda: op(k), Fault(i, exc[i % 4])):
            # handled by the library: the operation took place
            c.count("faults survived")
            k = build(cls, cfg["start"], cfg["flag"])
            continue
        n += 1
        if not watch(cls, k, want, names, c, "%s failing at fault point %d" % (cfg["op"], i)):
            break
        if i % 20 == 0:
            _close(cfg["flag"])
    _close(cfg["flag"])
    c.count("fault points", n)
    c.impl_runs += n
    c.out("%d" % count.seen, *want.values())


def callbacks(c, cfg):
    """A user callback that fails at its n-th call, for every n."""
    cls, names = cfg["cls"], ["points", "grid", "loop"]
    S = ob.settings(cls)
    armed = [0, 0]

    def vario(p, d):
        armed[0] += 1
        if armed[0] == armed[1]:
            raise ob.Boom("variogram")
        return ob.custom_b(p, d)

    def drift(*x):
        armed[0] += 1
        if armed[0] == armed[1]:
            raise ob.Boom("drift")
        return ob.f_quad(*x)

    more = {}
    if cfg["callback"] == "drift":
        if not cls.endswith("-all"):
            return c.skip("no functional drift")
        more["functional_drift"] = [drift]
    start = dict(S[cfg["start"]])
    custom = dict(S["cus-b"], variogram_function=vario)
    kind, _, arg = cfg["op"].partition(":")
    if kind == "run" and cfg["callback"] == "variogram":
        start = custom
    make = lambda: ob.construct(cls, start, **more)
    if kind == "update":
        upd = custom if cfg["callback"] == "variogram" else S["exp-an"]
        op = lambda k: ob.update(cls, k, upd)
    else:
        if arg not in ob.requests(cls):
            return c.skip("no such request")
        op = lambda k: ob.requests(cls)[arg](k)
    armed[:] = [0, 0]
    k = c.ok("construct", make)
    want = observe(cls, k, names)
    k2 = make()
    armed[:] = [0, 0]
    if attempt(lambda: op(k2)):
        return c.fail("%s failed" % cfg["op"])
    calls = armed[0]
    for i in range(1, calls + 1):
        armed[:] = [0, i]
        r = attempt(lambda: op(k))
        armed[:] = [0, 0]
        c.true(r, "a failing callback was ignored")
        if not watch(cls, k, want, names, c, "%s with a callback failing at call %d" % (cfg["op"], i)):
            break
    c.count("callback faults", calls)
    c.impl_runs += calls
    c.out("%d" % calls, *want.values())


def rejected(c, cfg):
    """One rejected operation on every kind of object."""
    cls = cfg["cls"]
    bad = dict(ob.bad_updates(cls))
    bad.update(("run " + n, f) for n, f in ob.bad_runs(cls).items())
    k = c.ok("construct", lambda: build(cls, cfg["start"], cfg["flag"]))
    want = observe(cls, k)
    for n, f in bad.items():
        if not attempt(lambda: f(k)):
            c.count("accepted: " + n)
            k = build(cls, cfg["start"], cfg["flag"])
            continue
        c.count("rejections")
        if not watch(cls, k, want, None, c, n):
            break
    _close(cfg["flag"])
    c.out(*want.values())


# --------------------------------------------------------------- histories
class BadWorld(World):
    def apply(self, op):
        kind, _, arg = op.partition(":")
        if kind == "bad":
            if not attempt(lambda: self.bad[arg](self.k)):
                self.c.count("accepted: " + arg)
                return False
            return True
        if kind == "badrun":
            if not attempt(lambda: self.badrun[arg](self.k)):
                self.c.count("accepted: " + arg)
                return False
            return True
        World.apply(self, op)
        return True


def runner(cls, start, stats):
    def run(c, hist):
        w = BadWorld(c, cls, start, stats)
        w.bad, w.badrun = ob.bad_updates(cls), ob.bad_runs(cls)
        for op in hist:
            if not w.apply(op):
                return None
        w.check()
        return ob.digest(w.k)

    return run


GOOD = ["update:lin", "update:exp-an", "update:cus-a", "update:gst", "run:grid", "run:masked-loop", "statistics"]
BAD = ["missing key", "custom without parameters", "custom failing late", "custom singular", "gst dimension", "no lags"]
BADRUN = ["unknown backend", "mask shape", "point lengths"]


def searches(tier):
    q = tier == "quick"
    out = []
    for cls in ob.CLASSES:
        bad = BAD if q else list(ob.bad_updates(cls))
        badrun = BADRUN if q else list(ob.bad_runs(cls))
        ops = GOOD + ["bad:" + b for b in bad] + ["badrun:" + b for b in badrun]
        out.append(Search("%s histories" % cls, ops, runner(cls, "sph-auto" if cls in ("uk", "ok3") else "exp-an", False), depth=3 if q else 5))
    return out


def spaces(tier):
    q = tier == "quick"
    cl = ob.CLASSES
    names = list(ob.settings("ok"))
    ops = ["update:exp-an", "update:sph-auto", "update:cus-a", "run:grid", "run:masked-loop"]
    if not q:
        ops += ["update:gst", "update:pow-dict", "update:lin-auto-rot", "run:points", "run:masked", "run:window"]
    return [
        Space("rejected", rejected, dict(cls=cl, start=names if not q else ["lin", "exp-an", "cus-b", "gst", "sph-auto"]), dict(flag=["", "verbose", "plotting"]), bound=1),
        Space("callbacks", callbacks, dict(cls=cl, callback=["variogram", "drift"], start=["lin", "exp-an", "gst"] if not q else ["exp-an"],
                                           op=["update:x", "run:points", "run:grid", "run:loop", "run:masked", "run:masked-loop", "run:window"])),
        Space("fault points", points, dict(cls=cl, op=ops, start=["lin"] if q else ["lin", "exp-an", "gst"], limit=[None]),
              dict(flag=["", "verbose", "plotting"] if not q else ["", "plotting"]), bound=1,
              valid=lambda g: not q or g["flag"] == "" or g["op"] == "update:exp-an"),
    ]
