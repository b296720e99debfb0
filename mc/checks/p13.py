"""P13: an updated object equals a freshly constructed one."""
import numpy as np

from .. import objects as ob
from ..engine import Search, Space

LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of operation histories on the real objects, each state compared with a freshly constructed object"
ASSUMPTIONS = [
    "states are merged by a digest of all attributes of the object; unmerged sequences up to the given length are explored as well",
    "predictions of equal settings are compared up to a relative error of 1e-8",
]


def ops_of(cls):
    return ["update:" + s for s in ob.settings(cls)] + ["run:" + r for r in ob.requests(cls)] + \
        ["verbose", "plotting", "points", "statistics"]


_FRESH = {}  # observations of freshly constructed objects (per worker process)


class World:
    """The object under test and the model: the last successful setting."""

    def __init__(self, c, cls, start, stats):
        self.c, self.cls = c, cls
        self.S = ob.settings(cls)
        self.setting = start
        self.stats = stats
        self.flags = dict(enable_statistics=True) if stats and ob.base_of(cls) == "ok" else {}
        self.k = c.ok("construct", lambda: ob.construct(cls, self.S[start], **self.flags))
        self.updated = False
        self.verbose = self.plotting = False

    def apply(self, op):
        c, k = self.c, self.k
        kind, _, arg = op.partition(":")
        if kind == "update":
            c.ok(op, lambda: ob.update(self.cls, k, self.S[arg]))
            self.setting = arg
            self.updated = True
        elif kind == "run":
            c.ok(op, lambda: ob.requests(self.cls)[arg](k))
        elif kind == "verbose":
            k.switch_verbose()
        elif kind == "plotting":
            k.switch_plotting()
            self.plotting = not self.plotting
        elif kind == "points":
            if hasattr(k, "get_variogram_points"):
                c.ok(op, k.get_variogram_points)
        elif kind == "statistics":
            c.ok(op, lambda: (k.get_statistics(), k.get_epsilon_residuals()))

    def check(self):
        kw = {}
        if ob.base_of(self.cls) == "ok":
            kw = dict(enable_statistics=bool(self.stats or self.updated))
        key = (self.cls, self.setting, str(kw))
        if key not in _FRESH:
            _FRESH[key] = ob.observe(self.cls, ob.construct(self.cls, self.S[self.setting], **kw))
        want = _FRESH[key]
        got = self.c.ok("observe", lambda: ob.observe(self.cls, self.k))
        ob.compare(self.c, "after the last operation", got, want)
        self.c.out(*[v for k, v in sorted(got.items())])
        if self.plotting:
            import matplotlib.pyplot as plt

            plt.close("all")


def runner(cls, start, stats):
    def run(c, hist):
        w = World(c, cls, start, stats)
        for op in hist:
            w.apply(op)
        state = ob.digest(w.k)
        w.check()
        return state

    return run


def searches(tier):
    q = tier == "quick"
    out = []
    for cls in ob.CLASSES:
        all_starts = (("lin", False), ("exp-an", True), ("gst", False), ("sph-auto", True))
        for start, stats in [all_starts[0 if cls in ("uk", "ok3", "uk-all") else 1]] if q else all_starts:
            out.append(Search("%s from %s%s" % (cls, start, " with statistics" if stats else ""), ops_of(cls),
                              runner(cls, start, stats), depth=3 if q else 5))
    return out


def sequence(c, cfg):
    """Sequences of updates without merging of states."""
    w = World(c, cfg["cls"], cfg["s0"], False)
    for s in (cfg["s1"], cfg["s2"], cfg.get("s3")):
        if s:
            if s != cfg["s1"] or cfg["run"] != "-":
                if cfg["run"] != "-":
                    w.apply("run:" + cfg["run"])
            w.apply("update:" + s)
    w.check()


STEPS = {"large": (1.6, 33.0, 1.4, 2), "small": (1.008, 0.2, 1.005, 1), "tiny": (1.00004, 0.002, 1.00003, 1)}


def changed(cls, base, step="large"):
    """name -> setting that differs from the base setting in one keyword (or one component of it)."""
    by_scaling, by_angle, by_parameter, by_lags = STEPS[step]
    dim = ob.lib.dim_of(ob.base_of(cls))
    out = {}
    for i in range(dim - 1):
        s = list(base.get("scaling", [1.0] * (dim - 1)))
        s[i] *= by_scaling
        out["scaling%d" % i] = dict(base, scaling=s)
    for i in range(1 if dim == 2 else 3):
        a = list(base.get("angles", [0.0] * (1 if dim == 2 else 3)))
        a[i] += by_angle
        out["angle%d" % i] = dict(base, angles=a)
    for key in ("scaling", "angles"):
        if key in base:
            s = dict(base)
            del s[key]
            out["no " + key] = s
    out["nlags"] = dict(base, nlags=base.get("nlags", 6) + by_lags)
    out["weight"] = dict(base, weight=not base.get("weight", False))
    if isinstance(base.get("params"), list):
        for i in range(len(base["params"])):
            p = list(base["params"])
            p[i] *= by_parameter
            out["parameter%d" % i] = dict(base, params=p)
        out["automatic"] = {k: v for k, v in base.items() if k != "params"} if base["model"] != "custom" else dict(base)
    if base["model"] == "spherical":
        out["model"] = dict(base, model="gaussian")
    if base["model"] == "custom":
        out["function"] = dict(base, variogram_function=lambda p, d: ob.custom_a(p, d) * by_parameter)
    return out


def single(c, cfg):
    """Updates that change a single setting."""
    cls = cfg["cls"]
    full = dict(scaling=[2.5, 0.7], angles=[35.0, -20.0, 60.0])
    dim = ob.lib.dim_of(ob.base_of(cls))
    full = dict(scaling=full["scaling"][: dim - 1], angles=full["angles"][: 1 if dim == 2 else 3])
    L = 6.0 if cls != "ok-geo" else 90.0
    base = {
        "sph": dict(model="spherical", params=[1.9, 0.6 * L, 0.3]),
        "sph-an": dict(model="spherical", params=[1.9, 0.6 * L, 0.3], **full),
        "sph-0": dict(model="spherical", params=[1.9, 0.6 * L, 0.0]),
        "pow": dict(model="power", params=[0.4, 1.3, 0.0], **full),
        "lin-auto": dict(model="linear", **full),
        "cus": dict(model="custom", params=[1.5, 0.5 * L, 0.2], variogram_function=ob.custom_a, **full),
    }[cfg["base"]]
    variants = changed(cls, base, cfg["step"])
    if cfg["step"] != "large" and not cfg["change"].startswith(("scaling", "angle", "parameter", "nlags", "function")):
        return c.skip("no small change")
    if cfg["change"] not in variants:
        return c.skip("does not apply")
    first, second = base, variants[cfg["change"]]
    if cfg["back"]:
        first, second = second, first
    if cfg["via"] == "construct":
        k = c.ok("construct", lambda: ob.construct(cls, first))
    else:  # the first setting is that of an update, too
        k = c.ok("construct", lambda: ob.construct(cls, dict(model="exponential", params=[1.1, 0.4 * L, 0.1])))
        c.ok("first update", lambda: ob.update(cls, k, first, ignored=True))
    if cfg["run"] != "-":
        c.ok("run", lambda: ob.requests(cls)[cfg["run"]](k))
    # anisotropy is ignored for geographic coordinates (with a warning)
    c.ok("update", lambda: ob.update(cls, k, second, ignored=True))
    kw = dict(enable_statistics=True) if ob.base_of(cls) == "ok" else {}
    want = ob.observe(cls, ob.construct(cls, second, **kw))
    got = c.ok("observe", lambda: ob.observe(cls, k))
    ob.compare(c, "after the update", got, want)
    c.out(*[v for k, v in sorted(got.items())])


def spaces(tier):
    q = tier == "quick"
    one = Space("single", single, dict(
        cls=ob.CLASSES, base=["sph", "sph-an", "sph-0", "pow", "lin-auto", "cus"], back=[False, True], run=["grid"] if q else ["-", "grid", "masked", "loop"],
        change=["scaling0", "scaling1", "angle0", "angle1", "angle2", "no scaling", "no angles", "nlags", "weight",
                "parameter0", "parameter1", "parameter2", "automatic", "model", "function"]),
        dict(step=["large", "small", "tiny"], via=["update", "construct"]))
    names = list(ob.settings("ok"))
    core = dict(cls=ob.CLASSES, s0=names if not q else ["exp-an"], s1=names, s2=names, run=["grid"] if q else ["-", "grid", "loop"])
    if not q:
        core["s3"] = ["", "exp-an", "gst", "sph-auto", "lin"]
    return [Space("sequences", sequence, core, {}), one]
