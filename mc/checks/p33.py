"""P33: optional packages may be missing in any combination."""
import itertools
import os
import pickle
import subprocess
import sys
import warnings

import numpy as np

from ..engine import Space
from . import p32
from .p32 import alone, equal, make_tol, names

NEEDS_EXT = True
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the combinations of missing or outdated optional packages, of the module imported first and of the uses of the library, each in a real interpreter; oracle: the same use with everything installed"
ASSUMPTIONS = [
    "a missing package is one whose import raises ModuleNotFoundError (ImportError for the compiled extension)",
    "uses are those of P32",
]
PACKAGES = ["matplotlib", "sklearn", "gstools", "extension"]
MODULES = {"matplotlib": ["matplotlib"], "sklearn": ["sklearn"], "gstools": ["gstools"], "extension": ["pykrige.lib.cok", "pykrige.lib.variogram_models"],
           "version": ["pykrige._version"]}
FIRST = ["pykrige", "pykrige.ok", "pykrige.uk", "pykrige.ok3d", "pykrige.uk3d", "pykrige.core", "pykrige.compat", "pykrige.compat_gstools", "pykrige.kriging_tools",
         "pykrige.variogram_models", "pykrige.rk", "pykrige.ck", "pykrige.lib", "pykrige.lib.cok"]


def needs(name):
    """The optional packages a use involves."""
    if name.startswith(("rk", "ck")):
        return {"sklearn"}
    if name == "show":
        return {"matplotlib"}
    if "gstools" in name:
        return {"gstools"}
    return set()


class Block:
    """An import hook: these modules cannot be imported."""

    def __init__(self, missing, how):
        self.missing, self.how = missing, how

    def find_spec(self, name, path=None, target=None):
        for m in self.missing:
            if name == m or name.startswith(m + "."):
                if m.startswith("pykrige.lib"):
                    raise {"missing": ImportError, "damaged": ValueError}[self.how]("no usable %s" % name)
                raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


MAIN = """
import sys
sys.path[:0] = %r
import warnings
warnings.simplefilter("ignore")
from mc.checks import p33
p33.serve(%r)
"""


def plot(cls, use):
    """One plotting use of a class, started from the documented entry points."""
    from .. import data, lib

    X = data.coords("n7", lib.dim_of(cls))
    Z = data.values("v", len(X))
    import pykrige

    make = lambda **kw: lib.classes()[cls](*[X[:, i].copy() for i in range(X.shape[1])], Z.copy(), **(dict(enable_statistics=True) if cls == "ok" else {}), variogram_model="linear", variogram_parameters=[1.0, 0.1], **kw)
    if use == "enable":
        make(enable_plotting=True)
        return
    k = make()
    if use == "switch":
        k.switch_plotting()
    elif use == "update":
        k.enable_plotting = True
    if use in ("switch", "update"):
        k.update_variogram_model("exponential", [1.0, 2.0, 0.1])
    elif use == "variogram":
        k.display_variogram_model()
    else:
        k.plot_epsilon_residuals()


PLOTS = [(c, u) for c in ("ok", "uk", "ok3", "uk3") for u in ("enable", "switch", "update", "variogram", "residuals")]


def serve(spec):
    """Body of an interpreter with some packages missing."""
    import importlib

    warnings.simplefilter("ignore")
    gone = [m for p in spec["missing"] for m in MODULES[p]]
    done = [m for m in sys.modules if any(m == g or m.startswith(g + ".") for g in gone) or m.startswith("pykrige")]
    if done:
        raise RuntimeError("already imported: %s" % done)
    sys.meta_path.insert(0, Block(gone, spec["how"]))
    if spec["gstools"] and "gstools" not in spec["missing"]:
        import gstools

        gstools.__version__ = spec["gstools"]
    out = {}
    try:
        importlib.import_module(spec["first"])
        out["import"] = ("ok", None)
    except Exception as e:
        out["import"] = ("error", type(e).__name__)
    for m in ("ok", "uk", "ok3d", "uk3d", "kriging_tools", "compat"):
        importlib.import_module("pykrige." + m)
    import pykrige

    out["version"] = ("ok", pykrige.__version__)

    def one(n):
        try:
            return ("ok", p32.make(n).go())
        except Exception as e:
            return ("error", "%s: %s" % (type(e).__name__, e))

    for cls, use in PLOTS:
        try:
            plot(cls, use)
            out["plot", cls, use] = ("ok", "")
        except Exception as e:
            out["plot", cls, use] = ("error", "%s: %s" % (type(e).__name__, e))
    L = spec["uses"]
    if spec["mode"] == "alone":
        for m in ("matplotlib.pyplot", "pykrige.rk", "pykrige.ck", "gstools", "sklearn.linear_model", "sklearn.naive_bayes"):
            try:
                importlib.import_module(m)
            except Exception:
                pass
        for n in L:
            st, r = p32.forked(lambda: one(n))
            out[n] = r if st == "ok" else ("died", r)
    else:
        if spec["mode"] == "reversed":
            L = L[::-1]
        for n in L:
            out[n] = one(n)
        for n in L:  # failures leave nothing behind
            if out[n][0] == "ok":
                r = one(n)
                if r[0] != "ok" or any(not np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True) for a, b in zip(r[1], out[n][1])):
                    out[n] = ("died", "%r differs the second time" % n)
    sys.stdout.buffer.write(b"BEGIN" + pickle.dumps(out))
    sys.stdout.flush()


def interpreter(c, spec):
    import pykrige

    place = os.path.dirname(os.path.dirname(os.path.abspath(pykrige.__file__)))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, "-c", MAIN % ([place, root], spec)], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"), capture_output=True, cwd="/")
    i = p.stdout.find(b"BEGIN")
    c.true(p.returncode == 0 and i >= 0, "interpreter without %s: %s" % (spec["missing"], p.stderr.decode(errors="replace")[-500:]))
    return pickle.loads(p.stdout[i + 5 :]) if i >= 0 else None


def case(c, cfg):
    missing = [p for p in PACKAGES if p in cfg["missing"]]
    L = [n for n in names() if cfg["uses"] == "all" or n in FEW]
    out = interpreter(c, dict(missing=missing + (["version"] if cfg["version"] else []), first=cfg["first"], mode=cfg["mode"], how=cfg["extension"], gstools=cfg["gstools"], uses=L))
    if out is None:
        return
    if cfg["first"] in ("pykrige.rk", "pykrige.ck") and "sklearn" in missing:
        c.true(out["import"][0] == "error", "%s can be imported without sklearn" % cfg["first"])
    elif cfg["first"] == "pykrige.lib.cok" and "extension" in missing:
        pass
    else:
        c.true(out["import"][0] == "ok", "import of %s fails without %s: %s" % (cfg["first"], missing, out["import"][1]))
    import pykrige

    if not cfg["version"]:
        c.true(out["version"][1] == pykrige.__version__, "version %s" % out["version"][1])
    for cls, use in PLOTS:
        st, r = out["plot", cls, use]
        c.impl_runs += 1
        if "matplotlib" in missing:
            c.true(st == "error" and r.split(":")[0] in ("ImportError", "ModuleNotFoundError"), "%s %s without matplotlib: %s" % (cls, use, r or "nothing is plotted and no error is raised"))
        else:
            c.true(st == "ok", "%s %s without %s: %s" % (cls, use, missing, r))
    old = cfg["gstools"] in ("1.0.0", "1.2.9", "0.9.1")
    middle = cfg["gstools"] in ("1.3.0", "1.3.12")
    for n in L:
        st, r = out[n]
        want = alone(c, n)
        c.impl_runs += 1
        if want is None:
            continue
        lost = needs(n) & set(missing)
        refused = lost or "gstools" in n and (old or middle and n.startswith("ok-geo"))
        free = ("-C" in n or "cwindow" in n) and "extension" in missing and cfg["extension"] == "damaged"
        if refused:
            c.true(st == "error", "%s without %s: %s" % (n, sorted(lost) or cfg["gstools"], "a result" if st == "ok" else r))
            if st == "error":
                c.true(r.split(":")[0] in ("ImportError", "ModuleNotFoundError", "SklearnException", "GSToolsException"), "%s without %s: %s" % (n, sorted(lost), r))
        elif st != "ok":
            c.true(free and st == "error", "%s without %s: %s" % (n, missing, r))
        if st == "ok":
            equal(c, "%s without %s" % (n, missing), r, want, make_tol(n))
    c.out(*[v for n in L if out[n][0] == "ok" for v in out[n][1][:1]])


FEW = ["ok:", "ok:request=points-C", "ok:window=3", "ok:cwindow=4", "ok:model=gstools", "ok:model=auto", "ok-geo:", "ok-geo:model=gstools", "ok-geo:request=points-C", "uk:", "uk:terms=rl1+pl1+ez1+sp1+fn1", "uk:model=gstools2",
       "ok3:", "ok3:model=gstools", "uk3:", "uk3:model=gstools", "krige-ordinary", "krige-universal3d", "rk-ordinary", "ck-ordinary", "file-zmap", "file-1", "functions", "show", "rejected-model"]


def subsets():
    return ["+".join(s) for k in range(len(PACKAGES) + 1) for s in itertools.combinations(PACKAGES, k)]


def spaces(tier):
    q = tier == "quick"
    p32.prepare()
    one = dict(first=["pykrige"], version=[False], gstools=[""], extension=["missing"], mode=["alone"], uses=["all"])
    return [
        Space("missing", case, dict(one, missing=subsets(), mode=["alone", "forward", "reversed"]), valid=lambda v: not q or v["mode"] != "reversed" or v["missing"].count("+") == 0),
        Space("first import", case, dict(one, missing=subsets(), first=FIRST, uses=["few"], mode=["forward"], version=[False, True]), valid=lambda v: not q or v["missing"] in ("", "sklearn", "extension", subsets()[-1]) and (not v["version"] or v["missing"] == "")),
        Space("versions", case, dict(one, missing=["", "sklearn", "extension"], gstools=["0.9.1", "1.0.0", "1.2.9", "1.3.0", "1.3.12", "1.4.0", "1.10.0", "2.0.0", "1.5.0rc1"], uses=["few"], mode=["alone"] if q else ["alone", "forward"])),
        Space("damaged extension", case, dict(one, missing=["extension", "matplotlib+sklearn+gstools+extension"], extension=["damaged"], mode=["alone", "forward"])),
    ]
