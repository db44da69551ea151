#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]: turn bug specifications into /verif/seeded/<id>/.

A specification is a list PLANTS of dicts id, property, edits [(file, old, new)],
needs, breaks, demo (Python). In /repo: apply, build, run the stable tests, the
demo (must fail), the check (reported); undo, run the demo (must pass). Kept
when tests and demo behave, whether or not the check catches it.
"""
import json
import os
import runpy
import subprocess
import sys
from pathlib import Path

REPO, SEEDED = Path("/repo"), Path("/verif/seeded")
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, t=900, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def stable_failures():
    sh("bash /opt/vp/test.sh /tmp/p/plant.json")
    got = json.load(open("/tmp/p/plant.json"))
    def passed(d):
        for k in ("stable", "passed", "pass", "passing", "tests"):
            if k in d:
                v = d[k]
                return set(v) if isinstance(v, list) else {a for a, b in v.items() if b in ("passed", "pass", True)}
        raise KeyError(list(d))
    return sorted(passed(BASE) - passed(got))


def checks(prop, extra=()):
    out = {}
    for c in [prop, *extra]:
        r = sh(f"/verif/run.py {c} --tier quick --seed 1", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        out[c] = (r.returncode, [l for l in r.stdout.splitlines() if l.startswith("check ")][:1])
    return out


def main():
    plants = runpy.run_path(sys.argv[1])["PLANTS"]
    want = set(sys.argv[2:])
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    for p in plants:
        if want and p["id"] not in want:
            continue
        d = SEEDED / p["id"]
        try:
            for f, old, new in p["edits"]:
                s = (REPO / f).read_text()
                if s.count(old) != 1:
                    print(p["id"], "NOT UNIQUE", s.count(old), repr(old)[:80])
                    break
                (REPO / f).write_text(s.replace(old, new))
            else:
                patch = sh("git -C /repo diff").stdout
                Path("/tmp/p/demo").mkdir(exist_ok=True)
                Path("/tmp/p/demo/demo.py").write_text(p["demo"].lstrip("\n"))
                run = "cd /repo && /opt/venv/bin/python -W ignore /tmp/p/demo/demo.py"
                b = sh("bash /opt/vp/build.sh")
                if b.returncode:
                    print(p["id"], "BUILD FAILS", b.stderr[-300:])
                    continue
                r = sh(run, 300)
                if r.returncode == 0:
                    print(p["id"], "DEMO PASSES WITH BUG", r.stdout[-200:])
                    continue
                msg = (r.stderr.strip().splitlines() or ["?"])[-1][:160]
                bad = stable_failures()
                if bad:
                    print(p["id"], "TESTS FAIL", len(bad), bad[:3])
                    continue
                res = checks(p["property"], p.get("also", ()))
                sh("git -C /repo checkout -- .")
                sh("bash /opt/vp/build.sh")
                r = sh(run, 300)
                if r.returncode:
                    print(p["id"], "DEMO FAILS WITHOUT BUG", r.stderr[-400:])
                    continue
                d.mkdir(parents=True, exist_ok=True)
                (d / "patch.diff").write_text(patch)
                (d / "demo.py").write_text(p["demo"].lstrip("\n"))
                (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
                (d / "demo.sh").chmod(0o755)
                (d / "meta.json").write_text(json.dumps({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
                print(p["id"], "KEPT", "caught" if res[p["property"]][0] == 1 else "MISSED", res, "| demo:", msg)
        finally:
            sh("git -C /repo checkout -- .")
        sys.stdout.flush()
    sh("bash /opt/vp/build.sh")


main()
