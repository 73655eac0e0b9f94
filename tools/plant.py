#!/usr/bin/env python3
"""Plant a bug: python3 tools/plant.py SPEC.py [id ...]

SPEC.py defines SEEDS, a list of dicts with the keys id, property, edits (a
list of (file, old, new)), demo (the text of a Python program), needs and
breaks.  Every one is tried in a scratch copy of /repo: it must change lines of
the original repository, pass the tests, and its demonstration must tell the
two trees apart.  What passes is written to /verif/seeded/<id>/.  Then the
quick check of its property is run against the scratch copy, and the outcome
is printed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import runpy

PY = "/opt/venv/bin/python"
BASE = "e6be853"
OUT = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds for this history.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def base_lines(path):
    r = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{path}"],
                       stdout=subprocess.PIPE, text=True)
    return set(r.stdout.splitlines())


def plant(spec):
    sid = spec["id"]
    scratch = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        os.rmdir(scratch)
        shutil.copytree("/repo", scratch, symlinks=True,
                        ignore=shutil.ignore_patterns("__pycache__"))
        for path, old, new in spec["edits"]:
            full = os.path.join(scratch, path)
            text = open(full, encoding="utf8").read()
            if text.count(old) != 1:
                return f"{sid}: old text found {text.count(old)} times in {path}"
            open(full, "w", encoding="utf8").write(text.replace(old, new))
        diff = run(["git", "diff"], cwd=scratch).stdout
        removed = [l[1:] for l in diff.splitlines()
                   if l.startswith("-") and not l.startswith("---")]
        orig = set()
        for path, _, _ in spec["edits"]:
            orig |= base_lines(path)
        if not [l for l in removed if l.strip() and l in orig]:
            return f"{sid}: no line of the original repository is changed"
        with tempfile.TemporaryDirectory() as dd:
            open(dd + "/demo.py", "w", encoding="utf8").write(spec["demo"].lstrip("\n"))
            open(dd + "/demo.sh", "w").write(DEMO_SH)
            good = run(["bash", dd + "/demo.sh"], cwd="/repo", timeout=250)
            if good.returncode != 0:
                return f"{sid}: the demonstration fails on the unchanged tree:\n{good.stdout}"
            bad = run(["bash", dd + "/demo.sh"], cwd=scratch, timeout=250)
            if bad.returncode == 0:
                return f"{sid}: the demonstration passes with the change\n{bad.stdout}"
            env = dict(os.environ, PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE="1")
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x",
                     "--timeout=300"], cwd=scratch, env=env)
            m = re.search(r"(\d+) passed", t.stdout)
            if " failed" in t.stdout or not m or int(m.group(1)) < 373:
                return f"{sid}: the tests notice:\n" + "\n".join(t.stdout.splitlines()[-6:])
            d = os.path.join(OUT, sid)
            os.makedirs(d, exist_ok=True)
            shutil.copy(dd + "/demo.py", d)
            shutil.copy(dd + "/demo.sh", d)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/patch.diff", "w", encoding="utf8").write(diff)
            json.dump({"property": spec["property"], "needs": spec["needs"],
                       "what_it_breaks": spec["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
        last = [l for l in bad.stdout.splitlines() if l.strip()][-1:]
        msg = f"{sid}: planted ({' '.join(last)[:110]})"
        for check in [spec["property"]] + spec.get("also", []):
            c = run(["python3", "-m", "sa.run", check, "quick"], cwd="/verif",
                    env=dict(os.environ, VERIF_REPO=scratch), timeout=900)
            viol = [l for l in c.stdout.splitlines() if not l.startswith("KNOWN")]
            msg += f"\n   {check} rc={c.returncode} " + " | ".join(v[:230] for v in viol[:2])
        return msg
    finally:
        if os.path.isdir(scratch):
            shutil.rmtree(scratch)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in seeds if not want or s["id"] in want]
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(plant, todo):
            print(r, flush=True)


if __name__ == "__main__":
    main()
