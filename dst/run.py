"""Runs one check: python -m dst.run PROPERTY quick|thorough, or python -m dst.run --replay FILE."""

from __future__ import annotations

import argparse
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor, as_completed
from typing import Any, Dict, List

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("NOQX_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
WORKERS = min(8, os.cpu_count() or 1)


def fixed_addresses() -> List[str]:
    """A prefix that switches off address randomisation, where this is possible."""
    cmd = ["setarch", "-R"]
    try:
        ok = subprocess.run([*cmd, "true"], check=False, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        ok = False
    return cmd if ok else []


FIXED_ADDRESSES = fixed_addresses()


def child_env(hashseed: int) -> Dict[str, str]:
    env = dict(os.environ)
    env.update({"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": ROOT, "PYTHONUNBUFFERED": "1",
                "TZ": "UTC", "LC_ALL": "C.UTF-8"})
    return env


def run_batch(job: Dict[str, Any], scratch: str, number: int, module: str = "dst.batch", timeout: float = 840) -> List[Dict[str, Any]]:
    """Run one batch process and return its lines."""
    path = os.path.join(scratch, f"job{number}.json")
    with open(path, "w", encoding="utf-8") as out:
        json.dump(job, out)
    proc = subprocess.run([*FIXED_ADDRESSES, PY, "-B", "-m", module, path], cwd=ROOT, env=child_env(job["options"].get("hashseed", 0)), check=False,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    lines = []
    for raw in proc.stdout.decode("utf-8", "replace").splitlines():
        if raw.startswith("{"):
            try:
                lines.append(json.loads(raw))
            except ValueError:
                lines.append({"kind": "error", "text": f"unreadable line {raw[:200]}"})
    if proc.returncode != 0 and not any(x["kind"] == "error" for x in lines):
        lines.append({"kind": "error", "text": f"batch ended with {proc.returncode}: {proc.stderr.decode('utf-8', 'replace')[-1500:]}"})
    if proc.returncode == 0 and "replay" not in job and not any(x["kind"] == "end" for x in lines):
        lines.append({"kind": "error", "text": "batch output ended early"})
    return lines


def known_findings() -> List[Dict[str, str]]:
    path = os.path.join(ROOT, "known_findings.json")
    with open(path, encoding="utf-8") as src:
        return json.load(src)["findings"]


def is_known(prop: str, text: str) -> Any:
    for item in known_findings():
        if item["property"] == prop and item["match"] in text:
            return item
    return None


class Report:
    """Collects what a check covered, writes evidence, prints the outcome."""

    def __init__(self, prop: str, tier: str, seed: int, level: str = "exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.start = time.monotonic()
        self.runs = 0
        self.nontrivial = set()
        self.digests = set()
        self.fired: Dict[str, int] = {}
        self.totals: Dict[str, float] = {}
        self.statuses: Dict[str, int] = {}
        self.samples: List[Any] = []
        self.violations: List[Dict[str, Any]] = []
        self.errors: List[str] = []
        self.repeats = [0, 0]
        self.extra: Dict[str, Any] = {}
        self.known: Dict[str, str] = {}
        self.cut = 0

    def take(self, line: Dict[str, Any]):
        kind = line["kind"]
        if kind == "error":
            self.errors.append(line["text"])
        elif kind == "cut":
            self.cut += 1
        elif kind == "end":
            for key, val in line.items():
                if key != "kind":
                    self.totals[key] = self.totals.get(key, 0) + val
        elif kind == "run":
            res = line["res"]
            self.runs += 1
            self.digests.add(res["digest"])
            if res.get("nontrivial"):
                self.nontrivial.add(res["digest"])
            for key, val in res.get("fired", {}).items():
                self.fired[key] = self.fired.get(key, 0) + val
            for key in ("switches", "simulated", "searches", "real_solves", "events", "steps"):
                if key in res:
                    self.totals[key] = self.totals.get(key, 0) + res[key]
            for conn in res.get("replies", []):
                for status in conn:
                    self.statuses[str(status)] = self.statuses.get(str(status), 0) + 1
            if "repeat_ok" in line:
                self.repeats[0] += 1
                self.repeats[1] += int(line["repeat_ok"])
                if not line["repeat_ok"]:
                    self.errors.append(f"run {line['seed']} did not repeat itself")
            if "sample" in line and len(self.samples) < 3:
                self.samples.append(shorten(line["sample"]))
            if res["violations"]:
                left = []
                for item in res["violations"]:
                    hit = is_known(self.prop, item["text"])
                    if hit:
                        self.known[hit["match"]] = hit["what"]
                    else:
                        left.append(item)
                if left:
                    self.violations.append({"violations": left, "replay": line.get("replay"), "seed": line.get("seed")})

    def finish(self, rule: str, components: Dict[str, str], assumptions: List[str]) -> int:
        wall = time.monotonic() - self.start
        path = None
        if self.violations:
            best = min((x for x in self.violations if x["replay"]), key=lambda x: len(json.dumps(x["replay"]["plan"])),
                       default=self.violations[0])
            outdir = os.path.join(ROOT, "replays")
            os.makedirs(outdir, exist_ok=True)
            path = os.path.join(outdir, f"{self.prop}-{hashlib.sha1(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]}.json")
            with open(path, "w", encoding="utf-8") as out:
                json.dump(best["replay"] or best, out, indent=1)
        coverage: Dict[str, Any] = {
            "evaluations": self.runs,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": rule,
            "samples": self.samples or ["no sample was recorded"],
            "runs_per_hour": round(self.runs / max(wall, 1e-9) * 3600),
            "distinct_histories": len(self.digests),
            "simulated_seconds": round(self.totals.pop("simulated", 0.0), 3),
            "faults_injected": dict(sorted(self.fired.items())),
            "reply_statuses": dict(sorted(self.statuses.items())),
            "totals": {k: val for k, val in sorted(self.totals.items())},
            "components": components,
            "repeated_runs": {"executed_twice": self.repeats[0], "identical": self.repeats[1]},
            "batches_cut_by_time": self.cut,
        }
        coverage.update(self.extra)
        evidence = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": coverage,
                    "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w", encoding="utf-8") as out:
            json.dump(evidence, out, indent=1)
        for what in sorted(self.known.values()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if self.violations:
            for item in self.violations[:5]:
                for one in item["violations"][:3]:
                    print(f"  [{one['class']}] {one['text'][:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.errors:
            print(f"check {self.prop}: harness errors ({len(self.errors)}):\n{self.errors[0]}", file=sys.stderr)
            return 2
        if not self.runs:
            print(f"check {self.prop}: nothing was run", file=sys.stderr)
            return 2
        print(f"{self.prop} {self.tier}: held on {self.runs} runs ({len(self.nontrivial)} distinct non-trivial histories), "
              f"{wall:.1f} s, faults {sum(self.fired.values())}")
        return 0


def shorten(value: Any, limit: int = 160) -> Any:
    if isinstance(value, dict):
        return {k: shorten(val, limit) for k, val in value.items()}
    if isinstance(value, list):
        return [shorten(x, limit) for x in value[:12]]
    if isinstance(value, str) and len(value) > limit:
        return value[:limit] + f"...({len(value)})"
    return value


SERVER_COMPONENTS = {
    "main.py, noqx/*, solver/*": "real, from /repo's working tree",
    "uvicorn HTTP protocol, h11, starlette, anyio, asyncio tasks and callbacks": "real",
    "clingo parsing, grounding and enumeration": "real (synchronous, one thread, results reused for equal programs)",
    "search timing, answer arrival, cancellation, engine failures": "simulated engine thread on virtual time",
    "event loop selector, sockets, clocks, sleeps, locks, thread scheduling": "simulated",
    "penpa codec used by the judges": "independent implementation (dst/board.py)",
}


def server_check(prop: str, tier: str, seed: int) -> int:
    from .server_meta import META

    meta = META[prop]
    report = Report(prop, tier, seed)
    scratch = tempfile.mkdtemp(prefix=f"dst{prop}")
    cache = os.path.join(scratch, "cache")
    os.makedirs(cache)
    try:
        total, per = meta["runs"][tier], meta["per_batch"][tier]
        budget = {"quick": 420, "thorough": 3 * 3600}[tier]
        deadline = time.monotonic() + budget
        jobs = []
        for number in range((total + per - 1) // per):
            rng = random.Random(f"{seed}/{prop}/batch{number}")
            seeds = [f"{seed}/{prop}/{number}/{i}" for i in range(per)]
            jobs.append({"prop": prop, "options": meta["boot"](rng), "seeds": seeds, "scratch": scratch, "cache": cache,
                         "twice": number % 12 == 0, "sample": seeds[0] if number < 3 else None, "deadline": deadline})
        # without contention on the cache, each batch is a pure function of its job
        with ThreadPoolExecutor(WORKERS) as pool:
            futures = {pool.submit(run_batch, job, scratch, i, "dst.batch", 800 if tier == "quick" else 4 * 3600): i
                       for i, job in enumerate(jobs)}
            stop = False
            for future in as_completed(futures):
                if future.cancelled():
                    continue
                for line in future.result():
                    report.take(line)
                if (len(report.violations) >= 3 or len(report.errors) >= 3) and not stop:
                    stop = True
                    for other in futures:
                        other.cancel()
        report.extra["batches"] = len(jobs)
        return report.finish(meta["rule"], SERVER_COMPONENTS, meta["assumptions"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path: str) -> int:
    with open(path, encoding="utf-8") as src:
        data = json.load(src)
    prop = data["prop"]
    if data.get("family", "server") != "server":
        import importlib

        return importlib.import_module(f"dst.{data['family']}").replay(data, path)
    scratch = tempfile.mkdtemp(prefix="dstreplay")
    cache = os.path.join(scratch, "cache")
    os.makedirs(cache)
    try:
        lines = run_batch({"prop": prop, "options": data["options"], "replay": data["plan"], "scratch": scratch, "cache": cache}, scratch, 0)
        for line in lines:
            if line["kind"] == "error":
                print(line["text"], file=sys.stderr)
                return 2
            if line["kind"] != "run":
                continue
            bad = line["res"]["violations"]
            print(f"history digest {line['res']['digest']}")
            for one in bad:
                print(f"  [{one['class']}] {one['text'][:400]}")
            if bad:
                print(f"VIOLATION property={prop} replay={path}")
                return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("prop", nargs="?")
    parser.add_argument("tier", nargs="?", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--replay")
    args = parser.parse_args()
    if args.replay:
        return replay(args.replay)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from .server_meta import META

    if args.prop in META:
        return server_check(args.prop, args.tier, seed)
    import importlib

    from .families import FAMILY

    return importlib.import_module(f"dst.{FAMILY[args.prop]}").check(args.prop, args.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
