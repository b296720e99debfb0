"""Exploration engine.

Three explorers share one reporting path:

* ``Space``    - exhaustive enumeration of a configuration space: the full
                 product of the *core* dimensions times every assignment of the
                 *dev* dimensions that departs from the defaults (first value)
                 in at most ``bound`` dimensions.
* ``Search``   - breadth-first search over operation sequences on the real
                 objects; states are canonicalised observations, every
                 transition replays its history on fresh objects.
* schedules    - see ``sched.py``; used inside the function of a ``Space``.

Every case is executed in a worker process that was forked for a contiguous
chunk of cases, so that a failure can be replayed exactly (chunk prefix).
"""
import hashlib
import itertools
import json
import math
import mmap
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings
from collections import OrderedDict

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """Raised by a check function: the property is broken."""


class Invalid(Exception):
    """Raised by a check function: the case is outside of the domain."""


def _round(a):
    """Canonical text of an observed number array (6 significant digits)."""
    out = []
    for v in np.asarray(a, dtype=float).ravel()[:64]:
        if not math.isfinite(v):
            out.append(repr(v))
        elif abs(v) < 1e-9:
            out.append("0")
        else:
            out.append("%.6g" % v)
    return ",".join(out)


class Ctx:
    """Collects what one case did and whether it was right."""

    def __init__(self):
        self.fails = []
        self.comparisons = 0
        self.impl_runs = 0
        self.skipped = 0
        self.maxratio = 0.0
        self.hash = hashlib.blake2b(digest_size=12)
        self.observed = 0
        self.counts = {}

    def fail(self, msg):
        if len(self.fails) < 5:
            self.fails.append(str(msg)[:2000])

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def skip(self, why="skipped"):
        self.skipped += 1
        self.count("skip:" + why)

    def out(self, *vals):
        """Records observed behaviour (for counting distinct outcomes)."""
        for v in vals:
            self.observed += 1
            if isinstance(v, str):
                self.hash.update(v.encode())
            else:
                self.hash.update(_round(np.ma.getdata(v)).encode())
            self.hash.update(b"|")

    def true(self, cond, msg):
        self.comparisons += 1
        if not cond:
            self.fail(msg)

    def same(self, name, got, want):
        """Bitwise equality of arrays (NaN equal to NaN)."""
        self.comparisons += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind == "f"):
            self.fail("%s: %s differs from %s" % (name, _show(g), _show(w)))

    def close(self, name, got, want, tol):
        """|got - want| <= tol elementwise; shapes must agree."""
        self.comparisons += 1
        g = np.asarray(np.ma.getdata(got), dtype=float)
        w = np.asarray(np.ma.getdata(want), dtype=float)
        if g.shape != w.shape:
            self.fail("%s: shape %s instead of %s" % (name, g.shape, w.shape))
            return False
        if g.size == 0:
            return True
        tol = np.broadcast_to(np.asarray(tol, dtype=float), g.shape)
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            bad = ~(err <= tol)
            bad &= ~(np.isnan(g) & np.isnan(w))
            r = np.where(tol > 0, err / np.where(tol > 0, tol, 1), 0)
            r = r[np.isfinite(r) & ~bad]
            if r.size:
                self.maxratio = max(self.maxratio, float(np.max(r)))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            self.fail(
                "%s: at %s got %.17g, expected %.17g (tolerance %.3g, %d of %d differ)"
                % (name, i, g[i], w[i], tol[i], int(bad.sum()), g.size)
            )
            return False
        return True

    def raises(self, name, fn, types):
        """fn must raise one of the types."""
        self.comparisons += 1
        try:
            r = fn()
        except types as e:
            self.out("E:" + type(e).__name__)
            return e
        except Exception as e:
            self.fail("%s: raised %s: %s instead of %s" % (name, type(e).__name__, e, types))
            return e
        self.fail("%s: accepted, returned %s" % (name, _show(r)))
        return None

    def ok(self, name, fn):
        """fn must not raise; returns its value (or raises Violation)."""
        try:
            self.impl_runs += 1
            return fn()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-3:])
            raise Violation("%s: unexpected %s: %s (%s)" % (name, type(e).__name__, e, where))


def _show(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


# --------------------------------------------------------------------------
class Space:
    def __init__(self, name, fn, core=None, dev=None, bound=None, valid=None):
        self.name = name
        self.fn = fn
        self.core = OrderedDict(core or {})
        self.dev = OrderedDict(dev or {})
        self.bound = len(self.dev) if bound is None else min(bound, len(self.dev))
        self.valid = valid

    def cases(self):
        names = list(self.dev)
        for ndev in range(self.bound + 1):
            for which in itertools.combinations(names, ndev):
                for vals in itertools.product(*[self.dev[w][1:] for w in which]):
                    d = {k: v[0] for k, v in self.dev.items()}
                    d.update(zip(which, vals))
                    for cv in itertools.product(*self.core.values()):
                        cfg = OrderedDict(zip(self.core, cv))
                        cfg.update(d)
                        if self.valid is None or self.valid(cfg):
                            yield cfg

    def run(self, cfg):
        c = Ctx()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                self.fn(c, cfg)
            except Violation as e:
                c.fail(str(e))
            except Invalid as e:
                c.skip(str(e) or "invalid")
        return c


class CheckError(Exception):
    """The check itself failed (no verdict)."""


_CUR = {}
DEVNULL = None


def _quiet():
    """Silences prints of the code under test in workers."""
    global DEVNULL
    if DEVNULL is None:
        DEVNULL = open(os.devnull, "w")
    sys.stdout = DEVNULL


def _work(job):
    """Runs a chunk of cases in a worker, stops at the first failing case."""
    sid, lo, hi = job
    space, cases = _CUR["spaces"][sid]
    _quiet()
    res = dict(
        sid=sid, lo=lo, n=0, comparisons=0, impl_runs=0, skipped=0, maxratio=0.0,
        outcomes=set(), counts={}, fail=None, error=None, extra=None, trivial=0,
    )
    for i in range(lo, hi):
        _mark(i, res["n"])
        try:
            c = space.run(cases[i])
        except Exception:
            res["error"] = "case %r\n%s" % (dict(cases[i]), traceback.format_exc())
            break
        res["n"] += 1
        res["comparisons"] += c.comparisons
        res["impl_runs"] += c.impl_runs
        res["skipped"] += c.skipped
        if c.maxratio > res["maxratio"]:
            res["maxratio"], res["worst"] = c.maxratio, (space.name, dict(cases[i]))
        for k, v in c.counts.items():
            res["counts"][k] = res["counts"].get(k, 0) + v
        if c.observed:
            res["outcomes"].add(c.hash.hexdigest())
        else:
            res["trivial"] += 1
        if c.fails:
            res["fail"] = (i, c.fails)
            break
    return res


def jobs_default():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


FIRST = bool(os.environ.get("MC_FIRST"))  # stop at the first failing chunk (development)
STALL = 180.0  # seconds without finishing a single case


def _pool_map(fn, jobs, nproc):
    """Runs every job in its own forked process, at most nproc at a time.

    Yields (job, result, crash); crash describes a process that died or hung
    and carries the index of the case it was executing."""
    jobs = list(jobs)[::-1]
    live = {}
    sys.stdout.flush()
    try:
        while jobs or live:
            while jobs and len(live) < max(1, nproc):
                job = jobs.pop()
                mark = mmap.mmap(-1, 16)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 1
                    try:
                        _CUR["mark"] = mark
                        data = pickle.dumps(fn(job))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = [pid, job, mark, bytearray(), -1, time.time()]
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                ent = live[fd]
                data = os.read(fd, 1 << 20)
                if data:
                    ent[3] += data
                    continue
                os.close(fd)
                del live[fd]
                _, status = os.waitpid(ent[0], 0)
                pos = int.from_bytes(ent[2][:8], "little")
                if status == 0 and ent[3]:
                    yield ent[1], pickle.loads(bytes(ent[3])), None
                else:
                    yield ent[1], None, dict(
                        index=pos,
                        what="the process died (%s)"
                        % ("signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status)
                           else "exit code %d" % os.WEXITSTATUS(status)),
                        signal=os.WIFSIGNALED(status),
                    )
            now = time.time()
            for fd, ent in list(live.items()):
                cnt = int.from_bytes(ent[2][8:16], "little")
                if cnt != ent[4]:
                    ent[4], ent[5] = cnt, now
                elif now - ent[5] > STALL:
                    pos = int.from_bytes(ent[2][:8], "little")
                    os.kill(ent[0], signal.SIGKILL)
                    os.waitpid(ent[0], 0)
                    os.close(fd)
                    del live[fd]
                    yield ent[1], None, dict(
                        index=pos, what="no answer within %d s" % STALL, signal=True
                    )
    finally:
        for fd, ent in live.items():
            try:
                os.kill(ent[0], signal.SIGKILL)
                os.waitpid(ent[0], 0)
            except OSError:
                pass


def _mark(i, n):
    m = _CUR.get("mark")
    if m is not None:
        m[:16] = int(i).to_bytes(8, "little") + int(n + 1).to_bytes(8, "little")


def explore(spaces, nproc, chunks_per_proc=6):
    """Runs all spaces; returns the aggregated report."""
    todo = []
    _CUR["spaces"] = []
    for sid, sp in enumerate(spaces):
        cases = list(sp.cases())
        _CUR["spaces"].append((sp, cases))
        n = len(cases)
        size = max(1, math.ceil(n / (max(1, nproc) * chunks_per_proc)))
        for lo in range(0, n, size):
            todo.append((sid, lo, min(n, lo + size)))
    rep = dict(
        cases=0, comparisons=0, impl_runs=0, skipped=0, maxratio=0.0, outcomes=set(),
        counts={}, fails=[], errors=[], spaces=[], trivial=0,
    )
    per = {sid: dict(n=0, out=set()) for sid in range(len(spaces))}
    for job, r, crash in _pool_map(_work, todo, nproc):
        if crash:
            if crash["signal"]:
                rep["fails"].append((job[0], job[1], crash["index"], [crash["what"]]))
            else:
                rep["errors"].append("%s in chunk %r" % (crash["what"], job))
            continue
        rep["cases"] += r["n"]
        for k in ("comparisons", "impl_runs", "skipped", "trivial"):
            rep[k] += r[k]
        if r["maxratio"] > rep["maxratio"]:
            rep["maxratio"], rep["worst"] = r["maxratio"], r["worst"]
        rep["outcomes"] |= {"%d:%s" % (r["sid"], o) for o in r["outcomes"]}
        per[r["sid"]]["n"] += r["n"]
        per[r["sid"]]["out"] |= r["outcomes"]
        for k, v in r["counts"].items():
            rep["counts"][k] = rep["counts"].get(k, 0) + v
        if r["error"]:
            rep["errors"].append(r["error"])
        if r["fail"]:
            i, msgs = r["fail"]
            rep["fails"].append((r["sid"], r["lo"], i, msgs))
            if FIRST:
                break
    rep["fails"].sort()
    for sid, sp in enumerate(spaces):
        cases = _CUR["spaces"][sid][1]
        rep["spaces"].append(
            dict(
                name=sp.name,
                cases=len(cases),
                executed=per[sid]["n"],
                distinct_outcomes=len(per[sid]["out"]),
                core={k: len(v) for k, v in sp.core.items()},
                deviating={k: len(v) for k, v in sp.dev.items()},
                deviation_bound=sp.bound,
                sample=dict(cases[len(cases) // 2]) if cases else None,
            )
        )
    return rep


def replay_space(spaces, art):
    """Re-executes the chunk prefix and the failing case of an artefact."""
    sp = [s for s in spaces if s.name == art["space"]]
    if not sp:
        raise CheckError("unknown space " + art["space"])
    sp = sp[0]
    c = sp.run(art["case"])
    if not c.fails:
        for cfg in art.get("prefix", []):
            sp.run(cfg)
        c = sp.run(art["case"])
    return c.fails


# --------------------------------------------------------------------------
class Search:
    """Breadth-first search over operation sequences.

    ops:      ordered list of operation names
    run(c, hist): executes the history on fresh objects, checks the invariant
              in the state reached (and on the last transition), returns the
              canonical state (string) or None if the history is disabled.
    depth:    maximal length of a history.
    """

    def __init__(self, name, ops, run, depth):
        self.name = name
        self.ops = ops
        self.run_hist = run
        self.depth = depth

    def run(self, hist):
        c = Ctx()
        c.state = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                c.state = self.run_hist(c, list(hist))
            except Violation as e:
                c.fail(str(e))
        return c


def _work_hist(job):
    sid, hists = job
    se = _CUR["searches"][sid]
    _quiet()
    out = []
    for k, h in enumerate(hists):
        _mark(k, k)
        try:
            c = se.run(h)
        except Exception:
            return sid, out, "history %r\n%s" % (h, traceback.format_exc())
        out.append((h, c.state, c.fails, c.comparisons, c.impl_runs, c.maxratio, c.counts))
        if c.fails:
            break
    return sid, out, None


def search(searches, nproc):
    _CUR["searches"] = searches
    rep = dict(states=0, transitions=0, comparisons=0, impl_runs=0, maxratio=0.0,
               fails=[], errors=[], searches=[], counts={})
    for sid, se in enumerate(searches):
        seen = {}
        frontier = [()]
        trans = 0
        depth = 0
        level = [()]
        widths = []
        closed = False
        maxd = 0
        while level and not rep["fails"]:
            size = max(1, math.ceil(len(level) / (nproc * 3)))
            jobs = [(sid, level[i : i + size]) for i in range(0, len(level), size)]
            res = []
            for job, r, crash in _pool_map(_work_hist, jobs, nproc):
                if crash:
                    if crash["signal"]:
                        rep["fails"].append((sid, list(job[1][crash["index"]]), [crash["what"]]))
                    else:
                        rep["errors"].append(crash["what"])
                    continue
                _, out, err = r
                if err:
                    rep["errors"].append(err)
                res.extend(out)
            res.sort(key=lambda r: [se.ops.index(o) for o in r[0]])
            nxt = []
            for h, state, fails, comp, runs, mr, counts in res:
                trans += 1
                rep["comparisons"] += comp
                rep["impl_runs"] += runs
                rep["maxratio"] = max(rep["maxratio"], mr)
                for k, v in counts.items():
                    rep["counts"][k] = rep["counts"].get(k, 0) + v
                if fails:
                    rep["fails"].append((sid, list(h), fails))
                if state is None or state in seen:
                    continue
                seen[state] = list(h)
                maxd = max(maxd, len(h))
                nxt.append(h)
            widths.append(len(nxt))
            if rep["errors"]:
                break
            depth += 1
            if depth > se.depth:
                break
            level = [h + (o,) for h in nxt for o in se.ops]
            if not nxt:
                closed = True
        rep["states"] += len(seen)
        rep["transitions"] += max(0, trans - 1)
        rep["searches"].append(
            dict(name=se.name, operations=se.ops, depth_bound=se.depth, states=len(seen),
                 transitions=max(0, trans - 1), new_states_per_level=widths,
                 frontier_exhausted=closed,
                 sample=[list(v) for v in list(seen.values())[-3:]])
        )
        if rep["fails"]:
            break
    return rep
