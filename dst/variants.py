"""C06: the same requests at several simulated server processes that differ in everything that should not matter."""

from __future__ import annotations

import json
import os
import random
import shutil
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from typing import Any, Dict, List, Optional, Tuple

from . import run as runner
from . import traffic as tr

RULE = ("A run is one history of 1-8 solve requests at one simulated server process; every request of a group goes to 6 processes "
        "that differ in hash seed, random state, directory orders, addresses, start-up options, wall clock, neighbours of the request "
        "and the order in which the engine finds answers and writes facts. The outcomes of a request must agree over all processes. "
        "Non-trivial: at least one search was started.")
ASSUME = ["searches of the vetted pool need at most 60000 conflicts, so the real engine can enumerate their answers synchronously",
          "an engine may return answers, and facts within an answer, in any order, and any ten of more than ten answers"]
SIZES = {"quick": {"groups": 7, "requests": 90, "variants": 6}, "thorough": {"groups": 80, "requests": 120, "variants": 10}}


def choose(rng: random.Random) -> Dict[str, Any]:
    roll = rng.random()
    if roll < 0.45:  # unusual boards
        entry = rng.choice([e for e in tr.POOL if e["kind"] in ("dup", "cross", "drop")])
    elif roll < 0.7:
        entry = rng.choice(tr.MULTI)
    else:
        entry = rng.choice(tr.POOL)
    return entry if entry["ms"] <= 400 else rng.choice(tr.LIGHT)


def variation(rng: random.Random, number: int) -> Dict[str, Any]:
    """A server process; number 0 is the plain one."""
    if number == 0:
        return {"argv": [], "hashseed": 0, "limit": 30}
    limit = rng.choice([5, 30, 60])
    argv = (["-tl", str(limit)] if limit != 30 else []) + rng.choice([[], [], ["-pt", "4"], ["-d"]])
    return {"argv": argv, "limit": limit, "hashseed": rng.randrange(1, 4_000_000), "listing": rng.randrange(1, 1 << 30),
            "random": rng.randrange(1 << 30), "padding": rng.randrange(1, 3000), "cpus": rng.choice([1, 2, 8, 64])}


def plans_for(rng: random.Random, number: int, bodies: List[Tuple[str, str]], limit: float) -> List[Dict[str, Any]]:
    """Histories that contain every request once."""
    order = list(bodies)
    if number:
        rng.shuffle(order)
    plans = []
    while order:
        size = rng.randint(1, 8) if number else 1
        part, order = order[:size], order[size:]
        conns: List[Dict[str, Any]] = [{"reqs": [], "at": 0.0} for _ in range(rng.randint(1, 2) if len(part) > 1 else 1)]
        spec: Dict[str, Any] = {}
        for rid, body in part:
            spec[rid] = {"T": rng.choice([0.0, 0.01, 0.5 * limit]), "shape": rng.choice(["even", "front", "back", "burst", "late"])}
            rng.choice(conns)["reqs"].append({"id": rid, "body": body})
        plans.append({"conns": [c for c in conns if c["reqs"]], "engine": spec, "sched": rng.randrange(1 << 30),
                      "preempt": rng.choice([0.0, 0.01]) if number else 0.0, "random": rng.randrange(1 << 30),
                      "shuffle": rng.randrange(1, 1 << 30) if number else 0,
                      "wall_offset": rng.choice([0, 86400 * rng.randrange(2000), -rng.random() * 1e6]) if number else 0})
    return plans


def job_of(options, plans, scratch, cache):
    return {"options": options, "plans": plans, "scratch": scratch, "cache": cache}


def run_job(job, scratch, number):
    return runner.run_batch(job, scratch, number, "dst.variants_batch", 3 * 3600)


def outcome(lines, rid) -> Optional[Dict[str, Any]]:
    for line in lines:
        if line["kind"] == "outs" and rid in line["res"]["outs"]:
            return line["res"]["outs"][rid]
    return None


def compare(base, other, whole) -> Optional[str]:
    """What is wrong between two outcomes of one request; whole is the list of all answers, if it is known."""
    if base is None or other is None:
        return f"got no reply ({tr.show(base or {})} / {tr.show(other or {})})"
    if not tr.same(base, other):
        return f"got {tr.show(other)}, another server process gave {tr.show(base)}"
    if whole is not None and other.get("status") == 200 and not set(other["boards"]) <= set(whole):
        return f"got boards {sorted(set(other['boards']) - set(whole))} that are no answers according to another server process"
    return None


def check(prop: str, tier: str, seed: int) -> int:
    report = runner.Report(prop, tier, seed)
    size = SIZES[tier]
    scratch = tempfile.mkdtemp(prefix=f"dst{prop}")
    caches = {}
    deadline = time.monotonic() + {"quick": 500, "thorough": 3 * 3600}[tier]
    compared = full = 0
    try:
        jobs = []
        for group in range(size["groups"]):
            rng = random.Random(f"{seed}/C06/{group}")
            entries = {f"q{i}": choose(rng) for i in range(size["requests"])}
            bodies = [(rid, tr.body_of(e)) for rid, e in entries.items()]
            for number in range(size["variants"]):
                options = variation(rng, number)
                plans = plans_for(rng, number, bodies, options["limit"])
                if number == 0:  # all answers where there are more than ten of them
                    for rid, entry in entries.items():
                        if entry["outcome"] == 10:
                            plans.append({"conns": [{"reqs": [{"id": f"all-{rid}", "body": tr.body_of(entry)}]}], "sched": 0,
                                          "engine": {f"all-{rid}": {"T": 0.01, "cap": 300}}})
                cache = caches.setdefault(group, os.path.join(scratch, f"cache{group}"))
                os.makedirs(cache, exist_ok=True)
                jobs.append((group, number, entries, options, plans, cache))
        with ThreadPoolExecutor(runner.WORKERS) as pool:
            futures = [pool.submit(run_job, job_of(o, p, scratch, c), scratch, i) for i, (_, _, _, o, p, c) in enumerate(jobs)]
            results: Dict[Tuple[int, int], List[Any]] = {}
            for (group, number, entries, options, plans, _), future in zip(jobs, futures):
                if future.cancelled():
                    continue
                lines = results[group, number] = future.result()
                booted = True
                for line in lines:
                    if line["kind"] == "boot":
                        booted = False
                        bad = [tr.v("boot", line["text"])]
                        report.take({"kind": "run", "res": {"digest": "boot", "violations": bad},
                                     "replay": {"prop": prop, "family": "variants", "rid": None, "plan": [[options, plans[0]]], "violations": bad}})
                        continue
                    if line["kind"] != "outs":
                        report.take(line)
                        continue
                    res = line["res"]
                    bad = []
                    if res.get("hang"):
                        bad = [tr.v("hang", "the process computes without end: " + res["hang"][-300:])]
                    elif res.get("stuck"):
                        bad = [tr.v("stuck", f"requests were never answered: {res['stuck']}")]
                    out = {"kind": "run", "res": {**{k: v for k, v in res.items() if k != "outs"}, "violations": bad,
                                                  "nontrivial": res.get("searches", 0) > 0,
                                                  "replies": [[o.get("status", 0) for o in res["outs"].values()]]}}
                    if bad:
                        plan = plans[line["plan"]]
                        out["replay"] = {"prop": prop, "family": "variants", "rid": None, "plan": [[options, plan]], "violations": bad}
                    if line["plan"] == 0 and group < 3 and number == 1:
                        out["sample"] = {"options": options, "plan": plans[0]}
                    report.take(out)
                if any(line["kind"] == "error" for line in lines) or number == 0 or not booted:
                    continue
                base = results.get((group, 0), [])
                for rid, entry in entries.items():
                    one, two = outcome(base, rid), outcome(lines, rid)
                    whole = (outcome(base, f"all-{rid}") or {}).get("boards")
                    if whole is not None and len(whole) >= 300:
                        whole = None
                    compared += 1
                    full += whole is not None
                    text = compare(one, two, whole)
                    if text and len(report.violations) < 3:
                        text = f"request {rid} {entry['type']}/{entry['kind']}: {text}"
                        bad = [tr.v("differs", text)]
                        pair = [next([o, p] for g, n, _, o, ps, _ in jobs if (g, n) == key for p in ps
                                     if any(r["id"] == rid for c in p["conns"] for r in c["reqs"]))
                                for key in ((group, 0), (group, number))]
                        pair = minimise(pair, rid, whole)
                        report.take({"kind": "run", "res": {"digest": f"pair{group}{number}{rid}", "violations": bad},
                                     "replay": {"prop": prop, "family": "variants", "rid": rid, "plan": pair, "whole": whole,
                                                "violations": bad}})
                if report.violations or len(report.errors) > 2 or time.monotonic() > deadline:
                    for other in futures:
                        other.cancel()
        report.extra.update({"comparisons": compared, "comparisons_with_all_answers_known": full, "processes": len(jobs)})
        return report.finish(RULE, runner.SERVER_COMPONENTS, ASSUME)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def fails(pair, rid, whole) -> Optional[str]:
    scratch = tempfile.mkdtemp(prefix="dstC06")
    try:
        cache = os.path.join(scratch, "cache")
        os.makedirs(cache)
        outs = []
        for number, (options, plan) in enumerate(pair):
            lines = run_job(job_of(options, [plan], scratch, cache), scratch, number)
            for line in lines:
                if line["kind"] == "error":
                    raise RuntimeError(line["text"])
                if line["kind"] == "boot":
                    return line["text"]
                if line["kind"] == "outs" and (line["res"].get("hang") or line["res"].get("stuck")):
                    return f"no reply: {line['res'].get('hang') or line['res'].get('stuck')}"
            outs.append(outcome(lines, rid))
        if rid is None:
            return None
        return compare(outs[0], outs[1], whole)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def minimise(pair, rid, whole):
    """Drop neighbours and differences between the two processes that do not matter."""
    if not fails(pair, rid, whole):
        return pair
    for side in (0, 1):
        for keep_conn in (True, False):
            options, plan = pair[side]
            small = json.loads(json.dumps(plan))
            small["conns"] = [c for c in small["conns"] if any(r["id"] == rid for r in c["reqs"])]
            if not keep_conn:
                small["conns"][0]["reqs"] = [r for r in small["conns"][0]["reqs"] if r["id"] == rid]
            cand = list(pair)
            cand[side] = [options, small]
            if fails(cand, rid, whole):
                pair = cand
    for key in ("shuffle", "preempt", "wall_offset"):
        cand = json.loads(json.dumps(pair))
        cand[1][1].pop(key, None)
        if fails(cand, rid, whole):
            pair = cand
    for key in ("hashseed", "listing", "padding", "argv", "random"):
        cand = json.loads(json.dumps(pair))
        if key in cand[0][0]:
            cand[1][0][key] = cand[0][0][key]
        else:
            cand[1][0].pop(key, None)
        if fails(cand, rid, whole):
            pair = cand
    return pair


def replay(data: Dict[str, Any], path: str) -> int:
    text = fails(data["plan"], data["rid"], data.get("whole"))
    if text:
        print(f"  [differs] request {data['rid']}: {text[:400]}")
        print(f"VIOLATION property={data['prop']} replay={path}")
        return 1
    print("no violation")
    return 0
