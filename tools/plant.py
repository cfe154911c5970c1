#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs (and see which check catches them).
Development aid; no check uses it.  mk(id, property, needs, breaks, edits, demo)
writes seeded/<id>/ from edits of the form {file: [(old, new)]}."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
sys.path.insert(0, os.path.join(HERE, "tools"))
from rep import edit


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    sh("git -C /repo checkout -q -- .")


def mk(id, prop, needs, breaks, edits, demo, files=()):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --short").stdout.strip(), "dirty"
    try:
        for f, pairs in edits.items():
            edit("/repo/" + f, pairs)
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
    finally:
        clean()
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for f in files:
        shutil.copy(os.path.join(HERE, "vh", f), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(id, checks=True):
    d = os.path.join(SEED, id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = {}
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    res["demo clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-800:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(id, "does not apply", a.stdout[-300:])
        return
    try:
        # removed lines must be lines of the base
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        bad = []
        for f in sh("git -C /repo diff --name-only").stdout.split():
            bl = set(subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], stdout=subprocess.PIPE).stdout.splitlines())
            for l in subprocess.run(["git", "-C", "/repo", "diff", "-U0", "--", f], stdout=subprocess.PIPE).stdout.splitlines():
                if l.startswith(b"-") and not l.startswith(b"---") and l[1:].rstrip(b"\r") not in {x.rstrip(b"\r") for x in bl}:
                    bad.append(l)
        res["not base"] = bad
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        res["demo bug"] = r.returncode
        res["demo says"] = r.stdout.strip()[-160:]
        res["build"] = sh("bash /opt/vp/build.sh").returncode
        res["tests"] = sh("bash /opt/vp/test.sh /tmp/plant.json").stdout.strip().splitlines()[-1]
        if checks:
            r = sh("VERIF_SEED=1 python3 %s/check.py %s --tier quick --no-evidence" % (HERE, prop))
            res["check"] = r.returncode
            res["says"] = [l for l in r.stdout.splitlines() if l.startswith("leg ") or "VIOLATION" in l][:1]
    finally:
        clean()
    ok = not res["demo clean"] and res["demo bug"] and not res["not base"] and not res["build"] and res["tests"] == "130 passed, 1 failed"
    print(id, prop, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 else "missed", json.dumps(res)[:700])
    return ok, res.get("check") == 1


if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir(SEED)):
        confirm(i)
