"""Mutation testing of the checks (a development aid, no check uses it).

  mutate.py list OUT.json            all mutants of the Python sources of /repo
  mutate.py tests IN.json OUT.json   those which pass the existing tests
  mutate.py checks IN.json OUT.json  runs the relevant quick checks against each; writes which check caught it
"""
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

BASE = os.environ.get("BASE", "/repo")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MC_FIRST="1", LOKY_MAX_CPU_COUNT="1")
FILES = ["core.py", "ok.py", "uk.py", "ok3d.py", "uk3d.py", "variogram_models.py", "kriging_tools.py", "rk.py", "ck.py", "compat.py", "compat_gstools.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
NAMES = {"amax": "amin", "amin": "amax", "zeros": "ones", "ones": "zeros", "sin": "cos", "cos": "sin", "max": "min", "min": "max", "logical_and": "logical_or", "mean": "sum", "sum": "mean", "all": "any", "any": "all", "x_array": "y_array", "floor": "ceil", "ceil": "floor", "X_ADJUSTED": "X_ORIG", "Y_ADJUSTED": "Y_ORIG", "Z_ADJUSTED": "Z_ORIG", "array": "asarray", "copy": "__pos__", "flatten": "ravel", "deepcopy": "copy"}


def mutants_of(path, name):
    src = open(path, newline="").read().replace("\r\n", "\n")
    tree = ast.parse(src)
    off = [0]
    for ln in src.split("\n"):
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, kind, func, a=None, e=None):
        s, t = span(n) if a is None else (a, e)
        old = b[s:t].decode()
        if old != new:
            out.append(dict(file=name, line=n.lineno, func=func, kind=kind, start=s, end=t, old=old, new=new))

    def walk(n, func, quiet):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = n.name if func is None else func + "." + n.name
        body_docs = set()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            body_docs.add(n.body[0])
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ("print", "warnings.warn") or f.endswith("Error"):
                return
        if func is not None and not quiet:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                l, r = span(n.left)[1], span(n.comparators[0])[0]
                if b"(" not in b[l:r] and b")" not in b[l:r]:
                    add(n, " %s " % CMP[type(n.ops[0])], "compare", func, l, r)
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                l, r = span(n.left)[1], span(n.right)[0]
                if b"(" not in b[l:r] and b")" not in b[l:r]:
                    add(n, " %s " % BIN[type(n.op)], "binop", func, l, r)
            if isinstance(n, ast.BoolOp):
                l, r = span(n.values[0])[1], span(n.values[1])[0]
                if b"(" not in b[l:r] and b")" not in b[l:r]:
                    add(n, " or " if isinstance(n.op, ast.And) else " and ", "boolop", func, l, r)
            if isinstance(n, ast.UnaryOp):
                s, t = span(n.operand)
                add(n, b[s:t].decode(), "unary", func)
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    add(n, str(not n.value), "const", func)
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), "const", func)
                    if n.value:
                        add(n, str(n.value - 1), "const", func)
                elif isinstance(n.value, float):
                    add(n, repr(n.value * 1.1 if n.value else 0.1), "const", func)
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                add(n.test, "True", "cond", func)
                add(n.test, "False", "cond", func)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if not (isinstance(n, ast.Expr) and ast.unparse(n.value.func) in ("print",)):
                    add(n, "pass", "delete", func)
            if isinstance(n, ast.Attribute) and n.attr in NAMES:
                t = span(n)[1]
                add(n, NAMES[n.attr], "name", func, t - len(n.attr), t)
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    s, t = off[k.lineno - 1] + k.col_offset, off[k.end_lineno - 1] + k.end_col_offset
                    m = re.compile(rb"\s*,").match(b, t)
                    add(k, "", "keyword", func, s, m.end() if m else t)
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                    s, t = span(n.args[0])[0], span(n.args[1])[1]
                    x, y = (b[slice(*span(a))].decode() for a in n.args[:2])
                    add(n, "%s, %s" % (y, x), "swap", func, s, t)
        for ch in ast.iter_child_nodes(n):
            if ch in body_docs:
                continue
            # type annotations and defaults of signatures stay in
            walk(ch, func, quiet)

    walk(tree, None, False)
    seen, res = set(), []
    for m in out:
        k = (m["start"], m["end"], m["new"])
        if k in seen:
            continue
        seen.add(k)
        t = b[: m["start"]] + m["new"].encode() + b[m["end"]:]
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        m["id"] = "%s:%d:%d:%s" % (name, m["line"], m["start"], m["new"][:12])
        res.append(m)
    return res


def apply(c, m):
    p = os.path.join(c, "src/pykrige", m["file"])
    b = open(os.path.join(BASE + "/src/pykrige", m["file"]), "rb").read()
    crlf = b"\r\n" in b
    b = b.replace(b"\r\n", b"\n")
    t = b[: m["start"]] + m["new"].encode() + b[m["end"]:]
    open(p, "wb").write(t.replace(b"\n", b"\r\n") if crlf else t)
    return p


def restore(c, m):
    shutil.copy(os.path.join(BASE + "/src/pykrige", m["file"]), os.path.join(c, "src/pykrige", m["file"]))


LOCAL = {}
STRIDE = int(os.environ.get("STRIDE", "1"))


def copy_of():
    if "c" not in LOCAL:
        d = tempfile.mkdtemp(prefix=os.environ["MUX"])
        subprocess.run(["cp", "-a", BASE, d + "/repo"], check=True)
        LOCAL["c"] = d + "/repo"
        shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        LOCAL["v"] = d + "/verif"
        if STRIDE > 1:  # a first pass over a part of the cases
            p = LOCAL["v"] + "/mc/engine.py"
            s = open(p).read().replace("cases = list(sp.cases())\n", "cases = list(sp.cases())[:: min(%d, 1 + len(list(sp.cases())) // 20)]\n" % STRIDE).replace("self.depth = depth", "self.depth = min(depth, 2)")
            open(p, "w").write(s)
        for cmd in filter(None, os.environ.get("PATCH", "").split(";")):
            subprocess.run(cmd, shell=True, cwd=LOCAL["v"], check=True)
    return LOCAL["c"]


def test(m):
    c = copy_of()
    apply(c, m)
    try:
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "tests/test_core.py", "tests/test_regression_krige.py", "tests/test_classification_krige.py", "tests/test_api.py"], cwd=c, capture_output=True, text=True, env=dict(ENV, PYTHONPATH=c + "/src"), timeout=240)
            m["survives"] = p.returncode == 0
        except subprocess.TimeoutExpired:
            m["survives"] = False
    finally:
        restore(c, m)
    return m


def relevant(m):
    f, fn = m["file"], m["func"] or ""
    last = fn.split(".")[-1]
    if f == "core.py":
        return {
            "great_circle_distance": ["P08"], "euclid3_to_great_circle": ["P08", "P06"],
            "_adjust_for_anisotropy": ["P07", "P28"], "_make_variogram_parameter_list": ["P10", "P28"],
            "_initialize_variogram_model": ["P11", "P12", "P28", "P10"], "_variogram_residuals": ["P12"],
            "_calculate_variogram_model": ["P12"], "_krige": ["P17"], "_find_statistics": ["P17"],
            "calcQ1": ["P17"], "calcQ2": ["P17"], "calc_cR": ["P17"],
        }.get(last, ["P11", "P12", "P17", "P28"])
    if f == "variogram_models.py":
        return ["P09", "P03"]
    if f == "kriging_tools.py":
        return (["P23", "P25"] if "asc" in last else ["P24", "P25"] if "zmap" in last else ["P23", "P24", "P25"])
    if f == "rk.py":
        return ["P21", "P20", "P28"]
    if f == "ck.py":
        return ["P22", "P28"]
    if f == "compat.py":
        return ["P20", "P21", "P22"]
    if f == "compat_gstools.py":
        return ["P19"]
    cls = {"__init__": ["P13", "P28", "P15", "P19"], "update_variogram_model": ["P13", "P14", "P28", "P19"], "execute": ["P04", "P28", "P03", "P06"]}
    uk = f.startswith("uk")
    kr = ["P02", "P05", "P18", "P26"] if uk else ["P01", "P05", "P18", "P06"]
    if last in cls:
        return cls[last] + kr[:1] + (["P26"] if uk and last != "update_variogram_model" else []) + (["P08"] if f == "ok.py" else [])
    if last in ("_exec_loop_moving_window",):
        return ["P06", "P05"]
    if "zscalar" in last:
        return ["P26", "P28"]
    if "switch" in last or "plot" in last or "display" in last or "print" in last or "statist" in last or "residual" in last or last == "get_variogram_points":
        return ["P29", "P17", "P11", "P13"]
    return kr + ["P03"]


def check(m):
    c = copy_of()
    apply(c, m)
    m["log"] = {}
    m["caught"] = None
    try:
        for p in m.get("checks") or relevant(m):
            try:
                q = subprocess.run(["./run", p, "quick", "--jobs", "1"], cwd=LOCAL["v"], capture_output=True, text=True, env=dict(ENV, MC_REPO=c), timeout=1500)
                m["log"][p] = q.returncode
                if q.returncode:
                    m["caught"] = p if q.returncode == 1 else "%s rc=%d %s" % (p, q.returncode, (q.stdout + q.stderr)[-300:])
                    if q.returncode == 1:
                        break
            except subprocess.TimeoutExpired:
                m["log"][p] = "timeout"
    finally:
        restore(c, m)
    return m


def main():
    mode = sys.argv[1]
    os.environ["MUX"] = "mux%d-" % os.getpid()
    if mode == "list":
        out = []
        for f in FILES:
            out += mutants_of(BASE + "/src/pykrige/" + f, f)
        json.dump(out, open(sys.argv[2], "w"), indent=0)
        print(len(out))
        for f in FILES:
            print(f, sum(m["file"] == f for m in out))
        return
    todo = json.load(open(sys.argv[2]))
    n = int(os.environ.get("WORKERS", "8"))
    done = []
    if os.path.exists(sys.argv[3]):
        done = json.load(open(sys.argv[3]))
        ids = {m["id"] for m in done}
        todo = [m for m in todo if m["id"] not in ids]
    if mode == "checks":
        todo = [m for m in todo if m.get("survives")]
    try:
        with cf.ProcessPoolExecutor(n) as ex:
            for i, m in enumerate(ex.map(test if mode == "tests" else check, todo)):
                done.append(m)
                if i % 20 == 19:
                    json.dump(done, open(sys.argv[3] + ".tmp", "w"), indent=0)
                    os.replace(sys.argv[3] + ".tmp", sys.argv[3])
                    print(i + 1, "of", len(todo), sum(bool(m.get("survives" if mode == "tests" else "caught")) for m in done), flush=True)
    finally:
        json.dump(done, open(sys.argv[3], "w"), indent=0)
        for d in os.listdir(tempfile.gettempdir()):
            if d.startswith(os.environ["MUX"]):
                shutil.rmtree(os.path.join(tempfile.gettempdir(), d))


main()
