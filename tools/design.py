#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md (run with python3-vt)."""
import glob
import importlib
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def main():
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    rows = ["<!-- SEEDS -->", "", "| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
    caught = {}
    f = os.path.join(ROOT, "tools", "caught.json")
    if os.path.exists(f):
        caught = json.load(open(f))
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        rows.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"], m["needs"], caught.get(n, m["property"])))
    s = re.sub(r"<!-- SEEDS -->.*?(?=\n## 5)", lambda _: "\n".join(rows) + "\n", s, flags=re.S)
    rows = ["<!-- HARNESSES -->", "", "(t) marks harnesses of the thorough tier only.", ""]
    for f in sorted(glob.glob(os.path.join(ROOT, "checks", "c[0-9][0-9].py"))):
        n = os.path.basename(f)[:-3]
        m, every = importlib.import_module("checks.shared").load(n.upper())
        rows.append("**%s** " % n.upper() + "; ".join(
            "`%s`%s %s" % (h.name, " (t)" if h.thorough else "", h.bounds) for h in every) + ".")
        rows.append("Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + ".")
        rows.append("")
    s = re.sub(r"<!-- HARNESSES -->.*", lambda _: "\n".join(rows), s, flags=re.S)
    open(p, "w").write(s)


main()
