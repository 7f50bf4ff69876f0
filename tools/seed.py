#!/usr/bin/env python3
"""Make and judge planted changes (development tool; no check reads it).

    seed.py mk SPEC.py [ID...]   write seeded/<id>/ from a spec and confirm it
    seed.py run [ID...]          run each property's check against its change
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, shell=isinstance(cmd, str), text=True)
    return p.returncode, p.stdout


def copy(tag):
    d = "/tmp/sd/" + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/sd", exist_ok=True)
    sh(["cp", "-a", "/repo", d])
    return d


def stable(d, tag):
    t = open("/opt/vp/test.sh").read().replace("/repo", d)
    s = "/tmp/sd/%s.test.sh" % tag
    open(s, "w").write(t)
    o = "/tmp/sd/%s.json" % tag
    sh(["bash", s, o])
    b = json.load(open("/opt/vp/BASELINE.json"))
    passed = set(json.load(open(o))["passed"])
    return [x for x in b["stable"] if x not in passed]


def demo(sd, d):
    env = {"PATH": os.environ["PATH"], "HOME": "/root"}
    return sh(["bash", os.path.join(sd, "demo.sh")], cwd=d, env=env, timeout=300)


def mk(spec):
    id = spec["id"]
    sd = os.path.join(SEEDED, id)
    os.makedirs(sd, exist_ok=True)
    d = copy(id)
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return id, "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = sh(["git", "-C", d, "diff"])[1]
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.py"), "w").write(spec["demo"].lstrip("\n"))
        open(os.path.join(sd, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
            'XDG_CONFIG_HOME=/opt/vp/astropy-config\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=spec["property"], needs=spec["needs"],
                       what_it_breaks=spec["breaks"]),
                  open(os.path.join(sd, "meta.json"), "w"), indent=1)
        rc1, o1 = demo(sd, d)
        miss = stable(d, id)
        sh(["git", "-C", d, "checkout", "--", "."])
        rc0, o0 = demo(sd, d)
        ok = rc0 == 0 and rc1 != 0 and not miss
        msg = "ok" if ok else "BAD unpatched=%d patched=%d missing=%s\n%s\n%s" % (
            rc0, rc1, miss[:3], o0[-800:], o1[-800:])
        return id, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(id):
    sd = os.path.join(SEEDED, id)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d = copy("r_" + id)
    try:
        rc, o = sh(["git", "-C", d, "apply", os.path.join(sd, "patch.diff")])
        if rc:
            return id, "does not apply " + o
        env = dict(os.environ, CELEST_REPO=d, VERIF_SEED="1", VERIF_TIER="quick",
                   CELEST_EVIDENCE="/tmp/sd/ev_" + id)
        rc, o = sh(["python3", os.path.join(VERIF, "check.py"), meta["property"]], cwd=VERIF, env=env)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        return id, "%s %s rc=%d %s" % (meta["property"], "CAUGHT" if rc == 1 and v else "MISSED", rc,
                                       (v or o.splitlines()[-3:])[0:3] if True else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "mk":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        specs = [s for s in ns["SPECS"] if not sys.argv[3:] or s["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(mk, specs):
                print(*r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(run, ids):
                print(*r, flush=True)
