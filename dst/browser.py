"""C12: the in-browser solver against the server."""

from __future__ import annotations

import json
import os
import random
import shutil
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from typing import Any, Dict, List, Optional, Tuple

from . import run as runner
from . import traffic as tr
from .variants import choose

RULE = ("A run is 1-8 puzzles going through the three bridge calls of the deployed solver, loaded from a real deployment build without "
        "the server's libraries; the seeded scheduler interleaves the calls, abandons puzzles, makes bad calls and raises exceptions at "
        "random lines. Each finished puzzle is compared with the server's reply. Non-trivial: more than three bridge calls.")
ASSUME = ["pool programs need at most 60000 conflicts", "the engine in the browser finds the same answers as clingo 5.7 (in any order)",
          "Pyodide runs the Python code as CPython does, in one thread"]
COMPONENTS = {
    "main.py -D build, main_deploy.py, noqx/* without clingo.py, solver/*": "real, from /repo's working tree",
    "pyscript bridge (window, JsProxy.to_py)": "stub",
    "clingo-wasm": "stub: real clingo enumeration, answers and atoms in seeded order",
    "server replies compared with": "the simulated server of C01",
}
SIZES = {"quick": {"groups": 8, "requests": 60, "runs": 70}, "thorough": {"groups": 120, "requests": 90, "runs": 160}}


def junk_call(rng: random.Random) -> Dict[str, Any]:
    what = rng.choice(["prepare", "prepare", "store", "store", "generate"])
    if what == "prepare":
        entry = rng.choice(tr.LIGHT)
        args: List[Any] = [entry["type"], entry["puzzle"], entry["param"]]
        kind = rng.choice(["name", "cut", "garbage", "none", "noparam"])
        if kind == "name":
            args[0] = rng.choice(["nosuch", "", None, 3])
        elif kind == "cut":
            args[1] = args[1][: rng.randrange(len(args[1]))]
        elif kind == "garbage":
            args[1] = rng.choice(["m=edit&p=AAAA", "", "\ud800", "x" * 1000])
        elif kind == "none":
            args[1] = None
        else:
            args[2] = None
        return {"what": "prepare", "args": args}
    if what == "store":
        return {"what": "store", "pick": rng.randrange(8), "text": rng.choice(
            ["foo", "edge_top(", "edge_top(1)", "edge_top(a,b)", "number(1,2,x)", "gray(1)", "triangle(0,0,\"zz\")", None, 5, "((((", "grid_direction(0,0)"])}
    return {"what": "generate", "pick": rng.randrange(8), "arg": rng.choice([None, "slitherlink", 3, {}])}


def plan_for(rng: random.Random, entries: Dict[str, Dict[str, Any]]) -> Dict[str, Any]:
    rids = rng.sample(sorted(entries), k=min(len(entries), rng.choice([1, 2, 3, 5, 8])))
    if rng.random() < 0.3:  # same type together
        types = [entries[r]["type"] for r in rids]
        rids += [r for r in sorted(entries) if entries[r]["type"] in types and r not in rids][:4]
    sessions = []
    for rid in rids:
        entry = entries[rid]
        sessions.append({"rid": rid, "type": entry["type"], "puzzle": entry["puzzle"], "param": entry["param"],
                         "abandon": rng.choice(["generate", "store"]) if rng.random() < 0.15 else None})
    plan: Dict[str, Any] = {"sessions": sessions, "sched": rng.randrange(1 << 30), "shuffle": rng.randrange(1 << 30),
                            "mode": rng.choice(["browser", "free", "free", "sequential"]),
                            "junk": [junk_call(rng) for _ in range(rng.choice([0, 0, 1, 3]))]}
    if rng.random() < 0.35:
        plan["pick_fault"] = rng.randrange(1, 1 << 30)
    return plan


def clean(text: Any) -> Any:
    return text.encode("utf-8", "backslashreplace").decode() if isinstance(text, str) else text


def compare(rid: str, got: Dict[str, Any], ref: Optional[Dict[str, Any]], faulted: bool) -> Optional[str]:
    if ref is None or ref.get("status") == 504 or got.get("unfinished"):
        return None
    if "boards" in got:
        if ref.get("status") != 200:
            return f"{rid}: the page gets {len(got['boards'])} boards, the server says {tr.show(ref)}"
        if not tr.same({"status": 200, "boards": got["boards"]}, ref):
            return f"{rid}: the page gets boards {[b[:6] for b in got['boards']]}, the server gives {tr.show(ref)}"
        return None
    if faulted:
        return None
    if ref.get("status") == 200:
        return f"{rid}: the page gets the error {str(got.get('failed'))[:120]!r}, the server gives {tr.show(ref)}"
    if ref.get("status") == 400 and clean(got.get("failed")) != ref.get("detail"):
        return f"{rid}: the page gets the reason {str(got.get('failed'))[:120]!r}, the server {ref.get('detail')!r}"
    return None


def judge(plan, res, refs) -> List[Dict[str, str]]:
    bad = list(res["bad"])
    for rid, got in res["outs"].items():
        text = compare(rid, got, refs.get(rid), rid in res["faulted"])
        if text:
            spec = next(s for s in plan["sessions"] if s["rid"] == rid)
            bad.append(tr.v("differs", f"{spec['type']} {text}"))
    return bad


def server_refs(entries, scratch, cache, number, hashseed) -> Tuple[Dict[str, Any], List[str]]:
    plans = [{"conns": [{"reqs": [{"id": rid, "body": tr.body_of(e)}]}], "sched": 0, "engine": {rid: {"T": 0.01}}} for rid, e in entries.items()]
    lines = runner.run_batch({"options": {"argv": [], "hashseed": hashseed}, "plans": plans, "scratch": scratch, "cache": cache}, scratch, number,
                             "dst.variants_batch", 3 * 3600)
    refs: Dict[str, Any] = {}
    errors = []
    for line in lines:
        if line["kind"] == "outs":
            refs.update(line["res"]["outs"])
        elif line["kind"] == "error":
            errors.append(line["text"])
    return refs, errors


def browser_job(options, plans, scratch, cache, number):
    return runner.run_batch({"options": options, "plans": plans, "scratch": scratch, "cache": cache}, scratch, number, "dst.browser_batch", 3 * 3600)


def one_group(seed, group, size, scratch):
    rng = random.Random(f"{seed}/C12/{group}")
    entries = {f"q{i}": choose(rng) for i in range(size["requests"])}
    options = {"hashseed": rng.randrange(1, 4_000_000), "listing": rng.randrange(1, 1 << 30), "random": rng.randrange(1 << 30)}
    plans = [plan_for(random.Random(f"{seed}/C12/{group}/{i}"), entries) for i in range(size["runs"])]
    cache = os.path.join(scratch, f"cache{group}")
    os.makedirs(cache)
    refs, errors = server_refs(entries, scratch, cache, 2 * group, 0)
    lines = browser_job(options, plans, scratch, cache, 2 * group + 1)
    return options, plans, refs, errors, lines


def check(prop: str, tier: str, seed: int) -> int:
    report = runner.Report(prop, tier, seed)
    size = SIZES[tier]
    scratch = tempfile.mkdtemp(prefix=f"dst{prop}")
    deadline = time.monotonic() + {"quick": 500, "thorough": 3 * 3600}[tier]
    compared = 0
    try:
        with ThreadPoolExecutor(runner.WORKERS) as pool:
            futures = [pool.submit(one_group, seed, g, size, scratch) for g in range(size["groups"])]
            for group, future in enumerate(futures):
                if future.cancelled():
                    continue
                options, plans, refs, errors, lines = future.result()
                report.errors += errors
                for line in lines:
                    if line["kind"] == "boot":
                        bad = [tr.v("boot", line["text"])]
                        report.take({"kind": "run", "res": {"digest": f"boot{group}", "violations": bad},
                                     "replay": {"prop": prop, "family": "browser", "options": options, "plan": None, "refs": {}, "violations": bad}})
                        continue
                    if line["kind"] != "browser":
                        report.take(line)
                        continue
                    res, plan = line["res"], dict(plans[line["plan"]])
                    plan.pop("pick_fault", None)
                    if line.get("fault"):
                        plan["fault"] = line["fault"]
                    bad = judge(plan, res, refs)
                    compared += len(res["outs"])
                    out = {"kind": "run", "res": {"digest": res["digest"], "violations": bad, "fired": res["fired"], "steps": res["calls"],
                                                  "nontrivial": res["calls"] > 3}}
                    if bad and len(report.violations) < 2:
                        mine = {s["rid"]: refs.get(s["rid"]) for s in plan["sessions"]}
                        plan["order"] = res["order"]
                        plan, bad = minimise(options, plan, mine, bad)
                        out["replay"] = {"prop": prop, "family": "browser", "options": options, "plan": plan, "refs": mine, "violations": bad}
                    if line["plan"] == 0 and group < 3:
                        out["sample"] = plan
                    report.take(out)
                if report.violations or len(report.errors) > 2 or time.monotonic() > deadline:
                    for other in futures:
                        other.cancel()
        report.extra["sessions_compared"] = compared
        return report.finish(RULE, COMPONENTS, ASSUME)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def again(options, plans, refs) -> List[List[Dict[str, str]]]:
    scratch = tempfile.mkdtemp(prefix="dstC12")
    try:
        cache = os.path.join(scratch, "cache")
        os.makedirs(cache)
        out: List[List[Dict[str, str]]] = [[] for _ in plans] or [[]]
        for line in browser_job(options, plans, scratch, cache, 0):
            if line["kind"] == "error":
                raise RuntimeError(line["text"])
            if line["kind"] == "boot":
                return [[tr.v("boot", line["text"])] for _ in out]
            if line["kind"] == "browser":
                out[line["plan"]] = judge(plans[line["plan"]], line["res"], refs)
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def minimise(options, plan, refs, bad):
    cls = bad[0]["class"]
    for _ in range(6):
        cands = []
        for i in range(len(plan["sessions"])):
            if len(plan["sessions"]) > 1 and not plan.get("fault"):
                cand = json.loads(json.dumps(plan))
                del cand["sessions"][i]
                if cand.get("order"):
                    cand["order"] = [p - (p > i) for p in cand["order"] if p != i]
                cands.append(cand)
        for key in ("junk", "fault", "order"):
            if plan.get(key):
                cand = json.loads(json.dumps(plan))
                if key == "junk" and cand.get("order"):
                    cand["order"] = [p for p in cand["order"] if p >= 0]
                cand.pop(key)
                if key == "order":
                    cand["mode"] = "sequential"
                cands.append(cand)
        try:
            results = again(options, cands, refs) if cands else []
        except RuntimeError:
            break
        good = [(c, r) for c, r in zip(cands, results) if any(x["class"] == cls for x in r)]
        if not good:
            break
        plan, bad = min(good, key=lambda x: len(json.dumps(x[0])))
    return plan, bad


def replay(data: Dict[str, Any], path: str) -> int:
    bad = again(data["options"], [data["plan"]] if data["plan"] else [], data["refs"])[0]
    for one in bad:
        print(f"  [{one['class']}] {one['text'][:400]}")
    if bad:
        print(f"VIOLATION property={data['prop']} replay={path}")
        return 1
    print("no violation")
    return 0
