"""Entry point: python -m mc.main <PROPERTY> <quick|thorough> [--replay F]."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from . import build, engine

HERE = engine.HERE


def known_findings(prop):
    """Lines 'known: property=<id> key=<space>#<case digest or message part> <text>'."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                parts = line.split(None, 3)
                if parts[1] == "property=" + prop:
                    out.append((parts[2][len("key="):], parts[3].strip()))
    return out


def digest(space, case):
    s = json.dumps([space, case], sort_keys=True, default=str)
    return hashlib.blake2b(s.encode(), digest_size=6).hexdigest()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=engine.jobs_default())
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("mc.checks." + a.prop.lower())
    try:
        build.build(getattr(mod, "NEEDS_EXT", False))
    except build.BuildError as e:
        print("ERROR:", e)
        return 3
    except Exception:
        traceback.print_exc()
        print("ERROR: the library does not import")
        return 3
    spaces = mod.spaces(a.tier) if hasattr(mod, "spaces") else []
    searches = mod.searches(a.tier) if hasattr(mod, "searches") else []

    if a.replay:
        art = json.load(open(a.replay))
        if "history" in art:
            se = [s for s in searches if s.name == art["space"]][0]
            fails = se.run(art["history"]).fails
        else:
            fails = engine.replay_space(spaces, art)
        for f in fails:
            print("  " + f)
        if fails:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("replay: no violation")
        return 0

    if a.list:
        for s in spaces:
            print(s.name, sum(1 for _ in s.cases()), "cases")
        for s in searches:
            print(s.name, len(s.ops), "operations, depth", s.depth)
        return 0

    known = known_findings(a.prop)
    viol = []
    errors = []
    cov = {}
    n_known = 0
    if spaces:
        rep = engine.explore(spaces, a.jobs)
        errors += rep["errors"]
        for sid, lo, i, msgs in rep["fails"]:
            sp, cases = engine._CUR["spaces"][sid]
            key = "%s#%s" % (sp.name, digest(sp.name, cases[i]))
            k = [t for kk, t in known if kk == key]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k[0]))
                n_known += 1
                continue
            viol.append(
                dict(property=a.prop, tier=a.tier, space=sp.name, key=key, case=cases[i],
                     prefix=[cases[j] for j in range(lo, i)], messages=msgs)
            )
        cov["space_report"] = rep
    if searches and not (engine.FIRST and viol):
        srep = engine.search(searches, a.jobs)
        errors += srep["errors"]
        for sid, h, msgs in srep["fails"]:
            key = "%s#%s" % (searches[sid].name, "/".join(h))
            k = [t for kk, t in known if kk == key]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k[0]))
                n_known += 1
                continue
            viol.append(
                dict(property=a.prop, tier=a.tier, space=searches[sid].name, key=key,
                     history=h, messages=msgs)
            )
        cov["search_report"] = srep

    # ---------------------------------------------------------------- report
    coverage = {}
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    samples = []
    if spaces:
        rep = cov["space_report"]
        samples += [dict(space=s["name"], case=s["sample"]) for s in rep["spaces"]]
        coverage.update(
            evaluations=rep["cases"],
            distinct_nontrivial=len(rep["outcomes"]),
            comparisons=rep["comparisons"],
            library_calls=rep["impl_runs"],
            skipped=rep["skipped"],
            counts=rep["counts"],
            largest_error_to_tolerance=rep["maxratio"],
            largest_error_case=rep.get("worst"),
            spaces=[{k: v for k, v in s.items() if k != "sample"} for s in rep["spaces"]],
            rule=getattr(mod, "RULE", "")
            or "every case of the listed spaces (product of the core dimensions times all "
            "assignments of the deviating dimensions with at most deviation_bound departures "
            "from the defaults); non-trivial: the case recorded observed library output, "
            "distinct: by hash of that output rounded to 6 digits",
            exhaustive=not rep["fails"] and not rep["errors"],
        )
    if searches and not (engine.FIRST and viol):
        s = cov["search_report"]
        samples += [dict(search=x["name"], histories=x["sample"]) for x in s["searches"]]
        coverage.update(
            states=s["states"],
            transitions=s["transitions"],
            traces_validated_against_impl=s["transitions"] + len(s["searches"]),
            searches=[{k: v for k, v in x.items() if k != "sample"} for x in s["searches"]],
            search_comparisons=s["comparisons"],
            search_counts=s["counts"],
        )
        coverage.setdefault("exhaustive", not s["fails"] and not s["errors"])
    extra = getattr(mod, "coverage_extra", None)
    if extra:
        coverage.update(extra(cov))
    coverage["samples"] = samples[:12]
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    ev = dict(
        property=a.prop,
        tier=a.tier if a.tier in ("quick", "thorough") else "quick",
        seed=seed,
        level=mod.LEVEL,
        coverage=coverage,
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    show = {k: coverage.get(k) for k in
            ("evaluations", "distinct_nontrivial", "comparisons", "states", "transitions", "skipped",
             "largest_error_to_tolerance") if k in coverage}
    print("%s %s: %s in %.1f s" % (a.prop, a.tier, show, time.time() - t0))

    if viol:
        d = os.path.join(HERE, "replays", a.prop)
        os.makedirs(d, exist_ok=True)
        for v in viol[:3]:
            path = os.path.join(d, digest(v["space"], v.get("case", v.get("history"))) + ".json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=_js)
            print("case:", json.dumps(v.get("case", v.get("history")), default=_js), "key:", v["key"])
            for m in v["messages"]:
                print("  " + m)
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors:
        print("ERROR in the check:\n" + errors[0])
        return 3
    return 0


def _js(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
