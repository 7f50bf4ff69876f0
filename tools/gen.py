#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA

TECH = ("solver-based checking (model checking of the real code): symbolic execution of celest's "
        "source over exact arithmetic, every assertion decided by z3 for all values within the "
        "stated bounds, counterexamples replayed on the real code")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p.get("over", ["inputs"]), text=p["q"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in NA or not os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            continue
        checks.append(dict(
            property=p["id"],
            quick_cmd="python3 /verif/check.py %s" % p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 /verif/check.py %s" % p["id"],
            technique=TECH, level="model_checking", level_note=p["note"]))
    done = {c["property"] for c in checks}
    na = [dict(property=k, reason=v) for k, v in NA.items()]
    na += [dict(property=p["id"], reason="check not built yet") for p in PROPS
           if p["id"] not in done and p["id"] not in NA]
    man = dict(version=1, setup_cmd="python3 -c 'print(0)'", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks, %d not applicable" % (len(PROPS), len(checks), len(na)))


main()
