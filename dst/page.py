"""C10, C11, C20: the page's own scripts under a simulated browser, user, server and engine worker (dst/page_sim.js)."""

from __future__ import annotations

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor, as_completed
from typing import Any, Dict, List, Optional, Tuple

from . import browser_batch, run as runner, world

RULE = ("A run is one page session of 1-9 solves in virtual time, in server or in-browser mode: a seeded user (types, examples, parameters, "
        "edits, imports, solve, paging, Reset at any moment, double clicks) against a seeded server or engine worker (delayed, reordered, "
        "missing, failing, torn replies; download lost; bridge late). Judged after every event; at the end faults stop and one Reset and one "
        "solve must work. Non-trivial: at least one solve and more than eight events.")
ASSUME = ["penpa-edit's own functions (load, import_url, maketext) do what their names say", "a disabled control cannot be used",
          "the engine worker answers one message at a time and never after terminate()"]
COMPONENTS = {
    "app.js, prepare_deployment.js, penpa_const.js, solver_metadata.js, clingo.web.js, index.html": "real, as served after a real start-up or deployment build of /repo",
    "document, events, timers, microtask flushing": "simulated (dst/dom.js, dst/page_sim.js)",
    "Choices, Swal, jQuery, penpa-edit functions": "stub",
    "fetch and the server": "simulated, with faults",
    "engine worker and pyscript bridge": "simulated, with faults",
}
SIZES = {"quick": {"groups": 8, "runs": 1500}, "thorough": {"groups": 400, "runs": 6000}}


def sites(scratch: str) -> Tuple[Optional[Dict[str, str]], Optional[str]]:
    """What a browser gets from a started server and from a deployment build."""
    site = os.path.join(scratch, "server")
    world.build_site(site)
    code = ("import sys, os; sys.path.insert(0, os.getcwd()); sys.argv = ['main.py']; import uvicorn; uvicorn.run = lambda *a, **k: None;"
            "import main")
    proc = subprocess.run([runner.PY, "-B", "-c", code], cwd=site, check=False, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if proc.returncode:
        return None, "the server does not start: " + proc.stdout.decode("utf-8", "replace")[-600:]
    built = os.path.join(scratch, "deploy")
    home, err = browser_batch.build(built, 0)
    if home is None:
        return None, err
    return {"server": os.path.join(site, "penpa-edit"), "deploy": os.path.join(built, "dist", "page", "penpa-edit")}, None


def node(job: Dict[str, Any], scratch: str, name: str) -> List[Dict[str, Any]]:
    path = os.path.join(scratch, f"{name}.json")
    with open(path, "w", encoding="utf-8") as out:
        json.dump(job, out)
    proc = subprocess.run(["node", os.path.join(runner.ROOT, "dst", "page_sim.js"), path], check=False, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, cwd=scratch, timeout=4 * 3600)
    lines = [json.loads(x) for x in proc.stdout.decode("utf-8", "replace").splitlines() if x.startswith("{")]
    if not any(x["kind"] in ("end", "error") for x in lines):
        lines.append({"kind": "error", "text": f"node ended with {proc.returncode}: {proc.stderr.decode('utf-8', 'replace')[-800:]}"})
    return lines


def check(prop: str, tier: str, seed: int) -> int:
    report = runner.Report(prop, tier, seed)
    size = SIZES[tier]
    scratch = tempfile.mkdtemp(prefix=f"dst{prop}")
    start = time.time()
    marks, others = set(), {}
    try:
        where, err = sites(scratch)
        if where is None:
            bad = [{"class": "boot", "text": err}]
            report.take({"kind": "run", "res": {"digest": "boot", "violations": bad},
                         "replay": {"prop": prop, "family": "page", "plan": None, "violations": bad}})
            return report.finish(RULE, COMPONENTS, ASSUME)
        limit = start + {"quick": 300, "thorough": 2.5 * 3600}[tier]
        with ThreadPoolExecutor(runner.WORKERS) as pool:
            futures = []
            for group in range(size["groups"]):
                job = {"sites": where, "prop": prop, "twice": True, "sample": group < 3, "deadline": limit,
                       "seeds": [f"{seed}/{prop}/{group}/{i}" for i in range(size["runs"])]}
                futures.append(pool.submit(node, job, scratch, f"job{group}"))
            for future in as_completed(futures):
                if future.cancelled():
                    continue
                for line in future.result():
                    if line["kind"] == "run":
                        marks.update(line["res"].pop("marks", []))
                        other = line["res"].pop("other", None)
                        if other:
                            key = other.split(":")[0]
                            others[key] = others.get(key, 0) + 1
                    report.take(line)
                if report.violations or len(report.errors) > 2:
                    for rest in futures:
                        rest.cancel()
        report.extra["distinct_phase_and_event_pairs"] = len(marks)
        report.extra["runs_ended_by_another_property"] = others
        return report.finish(RULE, COMPONENTS, ASSUME)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(data: Dict[str, Any], path: str) -> int:
    scratch = tempfile.mkdtemp(prefix="dstpage")
    try:
        where, err = sites(scratch)
        if where is None:
            bad = [{"class": "boot", "text": err}]
        elif not data["plan"]:
            bad = []
        else:
            lines = node({"sites": where, "prop": data["prop"], "plans": [data["plan"]], "replay": True, "verbose": True}, scratch, "replay")
            bad = []
            for line in lines:
                if line["kind"] == "error":
                    print(line["text"], file=sys.stderr)
                    return 2
                if line["kind"] == "run":
                    bad = line["res"]["violations"]
                    print("\n".join(line["res"]["trace"]))
                    print(f"history digest {line['res']['digest']}")
        for one in bad:
            print(f"  [{one['class']}] {one['text'][:400]}")
        if bad:
            print(f"VIOLATION property={data['prop']} replay={path}")
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
