"""Keeps a planted bug: plant.py SPEC.py... (each defines ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO, FILES). Run by hand."""

import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, shell=True, check=False, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def main(path):
    spec = runpy.run_path(path)
    scratch = f"/tmp/plant-{spec['ID']}"
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(REPO, scratch, symlinks=True)
    try:
        for file, old, new in spec["EDITS"]:
            full = os.path.join(scratch, file)
            with open(full, encoding="utf-8", newline="") as src:
                text = src.read()
            assert text.count(old) == 1, (file, old, text.count(old))
            with open(full, "w", encoding="utf-8", newline="") as out:
                out.write(text.replace(old, new))
        diff = sh("git diff", scratch).stdout
        goal = os.path.join(ROOT, "seeded", spec["ID"])
        shutil.rmtree(goal, ignore_errors=True)
        os.makedirs(goal)
        with open(os.path.join(goal, "patch.diff"), "wb") as out:
            out.write(diff)
        with open(os.path.join(goal, "demo.sh"), "w", encoding="utf-8") as out:
            out.write(spec["DEMO"].lstrip("\n"))
        os.chmod(os.path.join(goal, "demo.sh"), 0o755)
        for name, text in spec.get("FILES", {}).items():
            with open(os.path.join(goal, name), "w", encoding="utf-8") as out:
                out.write(text.lstrip("\n"))
        with open(os.path.join(goal, "meta.json"), "w", encoding="utf-8") as out:
            json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, out, indent=1)
        good = sh(f"bash {goal}/demo.sh", REPO)
        bad = sh(f"bash {goal}/demo.sh", scratch)
        tests = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests", scratch)
        ok = good.returncode == 0 and bad.returncode != 0 and tests.returncode == 0
        print(f"{spec['ID']}: demo {good.returncode} -> {bad.returncode}, tests {tests.returncode} {'OK' if ok else 'NOT KEPT'}", flush=True)
        if not ok:
            print(good.stdout.decode()[-900:], "\n---\n", bad.stdout.decode()[-900:], "\n---\n", tests.stdout.decode()[-900:])
        else:
            print("   ", bad.stdout.decode().strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sh("git checkout -- . ; git clean -fdq", REPO)


for one in sys.argv[1:]:
    main(one)
