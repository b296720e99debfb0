"""Makes and tries planted bugs.

  seed.py make SPEC.py...   writes seeded/<id>/ for every seed(...) in the specs, after confirming in a
                            scratch copy: applies, touches base lines, passes the stable tests,
                            demo passes without it and fails with it
  seed.py check ID...       runs the quick check of the seed's property against it (scratch copy)
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDS = os.path.join(V, "seeded")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def sh(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(ENV, **env), timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    c = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    return d, c


def ext(c):
    build = open(os.path.join(V, "mc", "build.py")).read()
    s = re.search(r'SETUP = """(.*?)"""', build, re.S).group(1)
    src = os.path.join(c, "src")
    open(os.path.join(src, "s.py"), "w").write(s)
    r = sh([PY, "s.py"], src)
    os.remove(os.path.join(src, "s.py"))
    return r


def stable_tests(c):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = json.dumps(base)
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests"], c, PYTHONPATH=os.path.join(c, "src"))
    failed = re.findall(r"^(?:FAILED|ERROR) \S+::(\S+)", out, re.M)
    bad = [f for f in failed if f.split("[")[0] in names]
    m = re.search(r"(\d+) passed", out)
    return (rc == 0 or not bad) and m, bad or out[-300:]


def base_lines(c):
    """Does the diff change lines of the base commit?"""
    root = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=c, capture_output=True, text=True).stdout.strip()
    d = subprocess.run(["git", "diff", "-U0"], cwd=c, capture_output=True).stdout.decode()
    ours = other = 0
    f = None
    for line in d.splitlines():
        if line.startswith("--- a/"):
            f = line[6:].strip()
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            n = int(m.group(2) or 1)
            for i in range(int(m.group(1)), int(m.group(1)) + n):
                b = subprocess.run(["git", "blame", "-l", "-s", "-L%d,%d" % (i, i), "HEAD", "--", f], cwd=c, capture_output=True).stdout.decode(errors="replace")
                if b.lstrip("^")[:38] == root[:38] or b[:1] == "^":
                    other += 1
                else:
                    ours += 1
    return other, ours


def make(s):
    sid = s["id"]
    d, c = scratch()
    try:
        out = os.path.join(d, sid)
        os.mkdir(out)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], c, 300)
        if rc:
            return sid, "DEMO FAILS ON CLEAN: " + o[-600:]
        pyx = False
        for f, old, new in s["edits"]:
            p = os.path.join(c, f if f.startswith("src") else "src/pykrige/" + f)
            b = open(p, "rb").read()
            crlf = b"\r\n" in b
            t = b.decode().replace("\r\n", "\n")
            if isinstance(old, tuple):  # the k-th occurrence
                parts = t.split(old[0])
                t = old[0].join(parts[: old[1] + 1]) + "\0" + old[0].join(parts[old[1] + 1 :])
                old = "\0"
            if t.count(old) != 1:
                return sid, "EDIT: %d matches of %r in %s" % (t.count(old), old[:60], f)
            t = t.replace(old, new)
            if crlf:
                t = t.replace("\n", "\r\n")
            open(p, "wb").write(t.encode())
            pyx |= f.endswith(".pyx")
        patch = subprocess.run(["git", "diff"], cwd=c, capture_output=True).stdout
        open(os.path.join(out, "patch.diff"), "wb").write(patch)
        other, ours = base_lines(c)
        if not other or ours:
            note = " [lines of base %d, of fixes %d]" % (other, ours)
        else:
            note = ""
        if pyx:
            rc, o = ext(c)
            if rc:
                return sid, "DOES NOT COMPILE " + o[-500:]
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], c, 300)
        if rc == 0:
            return sid, "DEMO PASSES WITH PATCH"
        tail = o.strip().splitlines()[-1:] or [""]
        ok, why = stable_tests(c)
        if not ok:
            return sid, "TESTS FAIL %s" % (why,)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        dst = os.path.join(SEEDS, sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return sid, "ok" + note + " | demo: " + tail[0][:120]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(sid, prop=None):
    meta = json.load(open(os.path.join(SEEDS, sid, "meta.json")))
    d, c = scratch()
    try:
        rc, o = sh(["git", "apply", os.path.join(SEEDS, sid, "patch.diff")], c)
        if rc:
            return sid, "DOES NOT APPLY " + o
        prop = prop or meta["property"]
        out = sh(["./run", prop, "quick", "--jobs", "4"], V, MC_REPO=c)
        v = [x for x in out[1].splitlines() if x.startswith("VIOLATION")]
        tail = "" if v else out[1][-300:]
        return sid, "%s rc=%d %s %s" % (prop, out[0], "CAUGHT" if out[0] == 1 and v else "MISSED", tail)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    specs = []
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            g = dict(seed=lambda **k: specs.append(k))
            exec(compile(open(f).read(), f, "exec"), g)
        fun, args = make, specs
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDS))
        fun, args = check, ids
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(fun, args):
            print("%-28s %s" % r, flush=True)


if __name__ == "__main__":
    main()
