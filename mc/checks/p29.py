"""P29: diagnostics do not influence results, and report the values of the object."""
import contextlib
import io
import re
import sys

import numpy as np

from .. import objects as ob
from ..engine import Search, Space
from .p13 import World

NEEDS_EXT = True
LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of histories of diagnostic operations on the real objects against objects that never saw them, and enumeration of all flag combinations"
ASSUMPTIONS = [
    "states are merged by a digest of all attributes of the object",
    "of printed text only the numbers are judged",
]

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")


def numbers(text):
    return np.array([float(v) for v in NUM.findall(text)] + [])


def has(c, what, text, values):
    """Every value appears among the numbers of the text."""
    n = numbers(text)
    for v in values:
        ok = len(n) and bool(np.any(np.abs(n - v) <= 1e-6 * abs(v) + 1e-12))
        c.true(ok, "%s: %.12g is not in %r" % (what, v, text))


def parameters(k):
    """The values of a fitted or given model, as printed: the parameters, and
    the full sill for models which have one."""
    p = [float(v) for v in k.variogram_model_parameters]
    if k.variogram_model not in ("linear", "power", "custom"):
        p.append(p[0] + p[2])
    return p


def environment():
    """Global settings which no diagnostic may change."""
    return (sorted(np.geterr().items()), sorted((k, str(v)) for k, v in np.get_printoptions().items()))


def pyplot():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    SHOWN[0] = 0

    def show(*args, **kwargs):
        SHOWN[0] += 1

    plt.show = matplotlib.figure.Figure.show = show
    return plt


SHOWN = [0]  # calls of show since the last operation


class Diag(World):
    def apply(self, op):
        c, k = self.c, self.k
        plt = pyplot()
        out = io.StringIO()
        env = environment()
        with contextlib.redirect_stdout(out):
            if op == "display":
                c.ok(op, k.display_variogram_model)
            elif op == "print":
                c.ok(op, k.print_statistics)
            elif op == "residuals":
                try:
                    k.plot_epsilon_residuals()
                except Exception as e:
                    # there is nothing to plot without statistics
                    c.true(k.get_epsilon_residuals() is None, "residuals: %r" % e)
            else:
                World.apply(self, op)
        st = k.get_statistics()
        if op == "print" and None not in st:
            has(c, op, out.getvalue(), st)
        if op == "verbose":
            self.verbose = not self.verbose
        if op.startswith("run") or op.startswith("update"):
            c.true(bool(out.getvalue().strip()) == self.verbose, "output of %s with verbose=%s: %r" % (op, self.verbose, out.getvalue()[:200]))
        if op.startswith("update") and self.verbose and k.variogram_model != "custom" and not hasattr(getattr(k, "model", None), "pykrige_kwargs"):
            has(c, op, out.getvalue(), parameters(k))
        if op.startswith("update") and self.verbose and None not in st:
            has(c, op + ": statistics", out.getvalue(), st)
        figs = plt.get_fignums()
        if op == "residuals" and k.get_epsilon_residuals() is None:
            figs = []  # the canvas of the failed plot
        want = op in ("display",) or op.startswith("update") and self.plotting or op == "residuals" and k.get_epsilon_residuals() is not None
        c.true(bool(figs) == bool(want), "%d figures after %s with enable_plotting=%s" % (len(figs), op, self.plotting))
        c.true(bool(SHOWN[0]) == bool(want), "%s: show was called %d times" % (op, SHOWN[0]))
        if figs and op != "residuals":
            variogram_plot(c, op, k, plt)
        if figs and op == "residuals":
            e = np.asarray(k.get_epsilon_residuals(), float)
            ax = plt.gcf().axes[0]
            shown = [np.asarray(a.get_offsets(), float)[:, 1] for a in ax.collections] + [np.asarray(a.get_ydata(), float) for a in ax.get_lines()]
            c.true(any(len(y) == len(e) and np.allclose(y, e, rtol=1e-9, atol=1e-12) for y in shown), "the residuals are not shown")
        plt.close("all")
        c.true(environment() == env, "%s changes global settings of numpy" % op)


def variogram_plot(c, op, k, plt):
    lines = plt.gcf().axes[0].get_lines()
    c.true(len(lines) >= 2, "%d lines in the plot of the variogram" % len(lines))
    if len(lines) < 2:
        return
    emp = [ln for ln in lines if len(ln.get_xdata()) == len(k.lags) and np.allclose(ln.get_ydata(), k.semivariance, rtol=1e-9)]
    c.true(bool(emp), "%s: the semivariances are not shown" % op)
    f = np.asarray(k.variogram_function(k.variogram_model_parameters, np.asarray(k.lags)), float)
    mod = [ln for ln in lines if len(ln.get_xdata()) == len(k.lags) and np.allclose(np.asarray(ln.get_ydata(), float), f, rtol=1e-9)]
    c.true(bool(mod), "%s: the model is not shown" % op)


def ops_of(cls):
    s = list(ob.settings(cls))
    return ["verbose", "plotting", "display", "print", "residuals", "points", "statistics", "update:" + s[0], "update:" + s[2], "update:" + s[5], "run:points", "run:masked-loop"]


def runner(cls, start, stats):
    def run(c, hist):
        w = Diag(c, cls, start, stats)
        for op in hist:
            w.apply(op)
        state = ob.digest(w.k)
        if w.verbose:
            with contextlib.redirect_stdout(io.StringIO()):
                w.check()
        else:
            w.check()
        return state

    return run


def searches(tier):
    q = tier == "quick"
    out = []
    for cls in ob.CLASSES:
        for start, stats in [("lin", False)] if q and ob.base_of(cls) != "ok" else [("lin", False), ("exp-an", True)]:
            out.append(Search("%s from %s%s" % (cls, start, " with statistics" if stats else ""), ops_of(cls), runner(cls, start, stats), depth=3 if q else 5))
    return out


_BASE = {}


def flags(c, cfg):
    """Construction and requests under every combination of flags."""
    cls, s = cfg["cls"], ob.settings(cfg["cls"])[cfg["setting"]]
    ok = ob.base_of(cls) == "ok"
    fl = {}
    for name, key in (("verbose", "verbose"), ("plotting", "enable_plotting")):
        if cfg[name] is not None:
            fl[key] = cfg[name]
    if ok and cfg["stats"] is not None:
        fl["enable_statistics"] = cfg["stats"]
    elif cfg["stats"] is not None:
        return c.skip("no such flag")
    key = (cls, cfg["setting"], bool(cfg["stats"]))
    if key not in _BASE:
        _BASE[key] = ob.observe(cls, ob.construct(cls, s, **(dict(enable_statistics=True) if cfg["stats"] and ok else {})))
    plt = pyplot()
    env = environment()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        k = c.ok("construct", lambda: ob.construct(cls, s, **fl))
    text = out.getvalue()
    c.true(bool(text.strip()) == bool(cfg["verbose"]), "output %r with verbose=%s" % (text[:200], cfg["verbose"]))
    c.true(bool(plt.get_fignums()) == bool(cfg["plotting"]), "%d figures with enable_plotting=%s" % (len(plt.get_fignums()), cfg["plotting"]))
    if plt.get_fignums():
        variogram_plot(c, "construction", k, plt)
    plt.close("all")
    if cfg["verbose"]:
        if not callable(s["model"]) and s["model"] != "custom" and not hasattr(s["model"], "pykrige_kwargs"):
            has(c, "printed parameters", text, parameters(k))
        if ok and cfg["stats"] or not ok:
            st = k.get_statistics()
            if None not in st:
                has(c, "printed statistics", text, st)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = c.ok("observe", lambda: ob.observe(cls, k))
    c.true(bool(out.getvalue().strip()) == bool(cfg["verbose"]), "output of requests with verbose=%s: %r" % (cfg["verbose"], out.getvalue()[:200]))
    ob.compare(c, "with flags %s" % fl, got, _BASE[key])
    if ok:
        # without statistics there are no values, and all else is equal
        other = _BASE.get((cls, cfg["setting"], not bool(cfg["stats"])))
        if other:
            stat = ("statistics", "epsilon", "delta", "sigma")
            ob.compare(c, "with and without statistics", {a: b for a, b in got.items() if a not in stat}, {a: b for a, b in other.items() if a not in stat})
        c.true((None in k.get_statistics()) == (not cfg["stats"]), "statistics %r with enable_statistics=%s" % (k.get_statistics(), cfg["stats"]))
    # the setting is switched on the living object and back
    with contextlib.redirect_stdout(io.StringIO()):
        for op in cfg["switch"]:
            {"v": k.switch_verbose, "p": k.switch_plotting, "d": k.display_variogram_model, "s": k.print_statistics}[op]()
            c.true((bool(k.verbose), bool(k.enable_plotting)) == (bool(cfg["verbose"]) ^ (cfg["switch"][: cfg["switch"].index(op) + 1].count("v") % 2 == 1), bool(cfg["plotting"]) ^ (cfg["switch"][: cfg["switch"].index(op) + 1].count("p") % 2 == 1)) or len(set(cfg["switch"])) < len(cfg["switch"]),
                   "flags after %s" % op)
        again = c.ok("observe", lambda: ob.observe(cls, k))
    plt.close("all")
    ob.compare(c, "after %s" % cfg["switch"], again, _BASE[key])
    c.true(environment() == env, "global settings of numpy changed")
    c.out(*[v for a, v in sorted(got.items())])


def bare(c, cfg):
    """Without matplotlib everything but the plots works."""
    cls, s = cfg["cls"], ob.settings(cfg["cls"])[cfg["setting"]]
    want = ob.observe(cls, ob.construct(cls, s))
    saved = {m: sys.modules[m] for m in list(sys.modules) if m == "matplotlib" or m.startswith("matplotlib.")}
    for m in saved:
        del sys.modules[m]
    sys.modules["matplotlib"] = None
    sys.modules["matplotlib.pyplot"] = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            k = c.ok("construct without matplotlib", lambda: ob.construct(cls, s, verbose=True))
            c.ok("print", k.print_statistics)
            got = c.ok("observe", lambda: ob.observe(cls, k))
    finally:
        del sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"]
        sys.modules.update(saved)
    ob.compare(c, "without matplotlib", got, want)
    c.out(*[v for a, v in sorted(got.items())])


def spaces(tier):
    names = list(ob.settings("ok"))
    q = tier == "quick"
    return [
        Space("flags", flags, dict(cls=ob.CLASSES, setting=names, verbose=[None, False, True], plotting=[None, True], stats=[None, False, True]),
              dict(switch=["", "v", "p", "d", "s", "vp", "vpds", "vv", "ppv"]), bound=0 if q else 1),
        Space("switches", flags, dict(cls=ob.CLASSES, setting=["exp-an", "sph-auto"], verbose=[False, True], plotting=[False, True], stats=[None, True], switch=["v", "p", "d", "s", "vp", "vpds", "vv", "ppv"])),
        Space("without matplotlib", bare, dict(cls=ob.CLASSES, setting=names)),
    ]
