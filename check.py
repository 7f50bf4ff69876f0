#!/usr/bin/env python3
"""Run the check of one property.

    check.py C01 [-v] [--only HARNESS] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken,
and reproduced on the real code.  Exit 2: the check could not decide.
"""
import sys
sys.dont_write_bytecode = True
import os
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("XDG_CONFIG_HOME", "/opt/vp/astropy-config")
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
for v in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if v not in sys.path:
        sys.path.append(v)
sys.path.insert(0, HERE)

import importlib
import json
import re
import time
from fractions import Fraction


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                out.append(dict(property=m.group(1), id=m.group(2), text=m.group(3)))
    return out


def main(argv):
    prop = argv[0]
    verbose = "-v" in argv
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from symcel import harness as H
    mod, every = importlib.import_module("checks.shared").load(prop)
    hs = [h for h in every if tier == "thorough" or not h.thorough]
    if "--replay" in argv:
        rec = json.load(open(os.path.join(CWD, argv[argv.index("--replay") + 1])))
        h = [h for h in every if h.name == rec["harness"]][0]
        if h.stubs:
            for k, v in h.stubs(False).items():
                if ":" in k:
                    H.REAL_STUBS[k] = v
        run = H.HarnessRun(prop, h, seed, tier, time.time() + 60)
        r = run.replay({k: Fraction(v) for k, v in rec["assignment"].items()})
        print("replay of %s/%s: %s" % (prop, h.name, "holds" if r is None else
                                       "VIOLATED: %s %s" % (r[0], r[1])))
        return 0 if r is None else 1
    if only:
        hs = [h for h in hs if h.name == only]
    t0 = time.time()
    budget = float(os.environ.get("SYMCEL_BUDGET", 300 if tier == "quick" else 2400))
    nvalid = 6 if tier == "quick" else 40
    results = H.run_all(prop, hs, seed, tier, budget, nvalid, verbose=verbose)
    known = {k["id"]: k for k in load_known() if k["property"] == prop}
    evdir = os.path.join(CWD, os.environ.get("CELEST_EVIDENCE") or os.path.join(HERE, "evidence"))
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    violations, errors, knowns = [], [], []
    for r, h in zip(results, hs):
        if r["status"] == "violation":
            f = r["found"]
            if h.known and h.known in known:
                knowns.append((h, r))
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, h.known, known[h.known]["text"]))
                continue
            path = os.path.join(evdir, "replay", "%s_%s.json" % (prop, re.sub(r"\W+", "_", h.name)))
            with open(path, "w") as out:
                json.dump(dict(property=prop, harness=h.name, label=f["label"],
                               reproduced_as=f["replay_label"], info=f["info"],
                               verdict=f["verdict"],
                               assignment={k: str(Fraction(v)) for k, v in f["assignment"].items()},
                               rerun="python3 /verif/check.py %s --replay %s" % (prop, path)),
                          out, indent=1)
            violations.append((h, f, path))
        elif r["status"] not in ("ok", "stopped"):
            errors.append((h, r))
    for h, r in errors:
        print("UNDECIDED %s/%s: %s" % (prop, h.name, r.get("error") or json.dumps(
            r.get("inconclusive"))[:2500]))
    for h, f, path in violations:
        print("counterexample %s/%s: %s %s  inputs %s" % (
            prop, h.name, f["replay_label"], f["info"],
            {k: float(v) for k, v in list(f["assignment"].items())[:12]}))
    for h, f, path in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    ok = [r for r in results if "paths" in r]
    tot = lambda k: sum(r.get(k, 0) or 0 for r in ok)
    cov = dict(
        states=tot("paths"), transitions=tot("decisions"),
        traces_validated_against_impl=tot("validated"),
        samples=[s for r in ok for s in r.get("samples", [])[:1]][:8],
        assertions_decided=tot("checks"),
        decided_by_normalisation=tot("normalised"),
        solver_queries=tot("queries"),
        feasibility_queries=tot("feasibility_queries"),
        solver_seconds=round(tot("solver_s"), 2),
        functions_encoded=sorted({f for r in ok for f in r.get("functions", [])}),
        harnesses=[dict(name=r["harness"], bounds=r.get("bounds"), status=r["status"],
                        paths=r.get("paths"), decisions=r.get("decisions"),
                        assertions=r.get("labels"), queries=r.get("queries"),
                        solver_s=r.get("solver_s"), wall_s=r.get("wall_s"),
                        reachability_witnesses=len(r.get("reached", {})),
                        encoding_checked_on=r.get("validated")) for r in ok],
        known_findings=[h.known for h, _ in knowns],
        meaning="states: symbolic paths executed; transitions: branch decisions "
                "made on them; traces_validated_against_impl: concrete inputs on "
                "which the encoding's values equal those of the real code",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(evdir, prop + ".json"), "w") as out:
        json.dump(ev, out, indent=1, default=str)
    if violations:
        return 1
    if errors:
        return 2
    print("%s held: %d harnesses, %d paths, %d assertions, %d+%d queries, solver %.1fs, wall %.1fs" % (
        prop, len(hs), cov["states"], cov["assertions_decided"], cov["solver_queries"],
        cov["feasibility_queries"], cov["solver_seconds"], time.time() - t0))
    return 0


COMMON = [
    "arithmetic is exact real/integer arithmetic; rounding of float operations on "
    "symbolic values is outside the claim (tolerances in the assertions absorb it)",
    "coefficients of angles are identified when they agree to 12 significant digits",
    "symcel (the encoder in /verif/symcel) and z3 are trusted; the encoding is "
    "compared with the real code on concrete inputs in every run",
]

CWD = os.getcwd()

if __name__ == "__main__":
    # the code under test writes files: what it names without a path stays here
    import tempfile
    with tempfile.TemporaryDirectory(prefix="symcel_cwd_") as scratch:
        os.chdir(scratch)
        code = main(sys.argv[1:])
        os.chdir("/")
    sys.exit(code)
