"""Executes a batch of runs of one check in one booted server process (with one hash seed and one set of options)."""

from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import traceback
from typing import Any, Dict, List, Optional

from . import engine, sched, traffic, world

MINIMISE_ATTEMPTS = 150


class Context:
    """What generators and judges may ask for: reference runs of single requests."""

    def __init__(self, wld: world.World, options: Dict[str, Any]):
        self.world, self.options = wld, options
        self.limit = options["limit"]
        self.memo: Dict[str, Any] = {}
        self.refs: Dict[str, Any] = {}
        self.clean_refs: Dict[str, Any] = {}
        self.singles: Dict[str, List[str]] = {}
        self.solos = 0

    def _memo(self, key: str, make):
        if key in self.memo:
            return self.memo[key]
        full = f"solo/{json.dumps(self.options, sort_keys=True)}/{key}"
        val = engine._cached(full)
        if val is None:
            self.solos += 1
            val = make()
            engine._store(full, val)
        self.memo[key] = val
        return val

    def _alone(self, req: Dict[str, Any], spec: Dict[str, Any], extra: Optional[Dict[str, Any]] = None, pick=None):
        keep = {k: req[k] for k in ("body", "method", "path") if k in req}
        plan = {"conns": [{"reqs": [dict(keep, id="solo")]}], "engine": {"solo": spec}, **(extra or {})}

        def go(emit):
            run = self.world.execute(plan)
            if pick:
                return pick(run)
            outs = traffic.outcomes(run)
            out = outs.get("solo")
            if out is None:
                return {"status": "none"}
            out.pop("at", None)
            return {"canon": traffic.canon(out), "urls": out.get("urls")}

        res = world.fork_call(go)
        if "hang" in res or "died" in res:
            return {"canon": {"status": "hang"}, "urls": None}
        return res

    def solo(self, req: Dict[str, Any], spec: Dict[str, Any]) -> Dict[str, Any]:
        key = hashlib.sha1(json.dumps([req["body"], spec], sort_keys=True).encode()).hexdigest()
        return self._memo(key, lambda: self._alone(req, spec))

    def lines(self, req: Dict[str, Any]) -> List[List[Any]]:
        key = "lines" + hashlib.sha1(req["body"].encode()).hexdigest()
        return self._memo(key, lambda: self._alone(
            req, {"T": 0.01}, {"line_count": True},
            lambda run: {"lines": sorted([f, n, c, func] for (f, n, func), c in run.lines.items())})).get("lines") or []

    def add_line_fault(self, rng: random.Random, plan: Dict[str, Any], victims: List[str], errors: List[str]):
        """A failure at a random line the request reaches: rare places as likely as frequent ones."""
        reqs = {str(r["id"]): r for c in plan["conns"] for r in c["reqs"]}
        if not victims:
            return
        rid = rng.choice(sorted(victims))
        sites = self.lines(reqs[rid])
        if not sites:
            return
        core = [s for s in sites if s[0].startswith(("noqx/clingo", "noqx/manager", "main.py", "noqx/puzzle"))]
        if rng.random() < 0.4:  # some function the request comes through
            some = rng.choice(sorted({(s[0], s[3]) for s in sites}))
            core = [s for s in sites if (s[0], s[3]) == some]
        file, line, count, _ = rng.choice(core if core and rng.random() < 0.7 else sites)
        nth = rng.choice([1, count, rng.randint(1, count)])
        plan["line_fault"] = {"req": rid, "file": file, "line": line, "nth": nth, "error": rng.choice(errors)}

    def unusual(self) -> List[str]:
        """Types whose solvers override more of the base class than others do."""
        modules = getattr(sys.modules.get("noqx.manager"), "modules", {})
        count: Dict[str, int] = {}
        own = {}
        for name, module in modules.items():
            own[name] = {k for k, val in vars(type(module)).items() if callable(val)}
            for k in own[name]:
                count[k] = count.get(k, 0) + 1
        return sorted(n for n, keys in own.items() if n in traffic.BY_TYPE and any(count[k] * 8 < len(own) for k in keys))

    def add_pauses(self, rng: random.Random, plan: Dict[str, Any], victims: List[str]):
        """The process is held up at random lines of requests: a slow disk, a busy machine, a long computation."""
        reqs = {str(r["id"]): r for c in plan["conns"] for r in c["reqs"]}
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not victims:
                return
            rid = rng.choice(sorted(victims))
            sites = self.lines(reqs[rid])
            if not sites:
                continue
            core = [s for s in sites if s[0].startswith(("noqx/clingo", "noqx/manager", "main.py", "noqx/puzzle"))]
            file, line, count, _ = rng.choice(core if core and rng.random() < 0.5 else sites)
            plan.setdefault("pauses", []).append({
                "req": rid, "file": file, "line": line, "nth": rng.choice([1, count, rng.randint(1, count)]), "busy": rng.randrange(2),
                "for": rng.choice([0.01, 0.3, 1.2, 2.5, 5.0, 0.5 * self.limit, 0.9 * self.limit, 1.5 * self.limit])})

    def prepare(self, check, plan: Dict[str, Any]):
        """Reference outcomes for a plan."""
        self.refs, self.clean_refs, self.singles = {}, {}, {}
        for conn in plan["conns"]:
            for req in conn["reqs"]:
                if not traffic.is_solve(req):
                    continue
                rid = str(req["id"])
                spec = plan["engine"].get(rid, {})
                if getattr(check, "refs", False):
                    self.refs[rid] = self.solo(req, spec)["canon"]
                    if spec.get("fail"):
                        self.clean_refs[rid] = self.solo(req, {k: val for k, val in spec.items() if k != "fail"})["canon"]
                    else:
                        self.clean_refs[rid] = self.refs[rid]
                if getattr(check, "singles", False):
                    whole = self.solo(req, {"T": 0.01})
                    boards = (whole["canon"] or {}).get("boards") or []
                    if 2 <= len(boards) <= 10:
                        each = [self.solo(req, {"T": 0.01, "only": k})["canon"] for k in range(len(boards))]
                        if all(len(e.get("boards") or []) == 1 for e in each):
                            self.singles[rid] = [e["boards"][0] for e in each]


def execute(ctx: Context, check, plan: Dict[str, Any]) -> Dict[str, Any]:
    """One run in a forked child, judged."""
    ctx.prepare(check, plan)

    def go(emit):
        def result(run):
            try:
                bad = check.judge(run, plan, ctx)
            except Exception:
                raise world.HarnessError(traceback.format_exc()) from None
            state = run.world.state
            if run.line_fault_hit is None and plan.get("line_fault"):
                state.fire("line_fault_not_reached")
            return {
                "violations": bad,
                "digest": run.digest(),
                "trace": run.trace(),
                "fired": state.fired,
                "switches": run.sim.switches,
                "simulated": run.sim.now - 1000.0,
                "searches": len(run.searches),
                "real_solves": state.real_solves,
                "replies": [[r.status for r in c.parser.replies] for c in run.conns],
                "nontrivial": bool(check.nontrivial(run)),
                "events": len(run.sim.history),
                "history": [[h[1], h[2], {k: str(val)[:80] for k, val in h[3].items()}] for h in run.sim.history[:400]] if bad else None,
            }

        def finish(run):
            emit(result(run))

        orig = world.Run.__init__

        def init(self, *args):
            orig(self, *args)
            self.finish = finish

        world.Run.__init__ = init
        return result(ctx.world.execute(plan))

    res = world.fork_call(go)
    if "hang" in res or "died" in res:
        if "died" in res and "wait status 9" in res["died"]:
            raise world.HarnessError(f"run died: {res['died']}")
        text = "the process computes without end: " + res["hang"][-300:] if "hang" in res else "the process died: " + res["died"]
        res = {"violations": [{"class": "hang", "text": text}], "digest": "hang",
               "trace": {}, "fired": {}, "switches": 0, "simulated": 0.0, "searches": 0, "real_solves": 0, "replies": [],
               "nontrivial": True, "events": 0, "history": None}
    return res


# minimisation -------------------------------------------------------------------
def variants(plan: Dict[str, Any]):
    """Smaller plans, biggest steps first."""
    for i in range(len(plan["conns"])):
        if len(plan["conns"]) > 1:
            new = copy.deepcopy(plan)
            del new["conns"][i]
            yield new
    for i, conn in enumerate(plan["conns"]):
        for j in range(len(conn["reqs"])):
            if len(conn["reqs"]) > 1:
                new = copy.deepcopy(plan)
                del new["conns"][i]["reqs"][j]
                yield new
        for key in ("end", "stall"):
            if key in conn:
                new = copy.deepcopy(plan)
                del new["conns"][i][key]
                yield new
        for j, req in enumerate(conn["reqs"]):
            for key in ("cuts", "gaps", "chunked", "headers", "at", "wait", "glue"):
                if key in req:
                    new = copy.deepcopy(plan)
                    del new["conns"][i]["reqs"][j][key]
                    yield new
        if conn.get("at"):
            new = copy.deepcopy(plan)
            new["conns"][i]["at"] = 0.0
            yield new
    for key in ("wall_jumps", "line_fault", "pauses", "age"):
        if plan.get(key):
            new = copy.deepcopy(plan)
            del new[key]
            yield new
    for rid, spec in plan.get("engine", {}).items():
        for key in spec:
            new = copy.deepcopy(plan)
            del new["engine"][rid][key]
            yield new
    forced = plan.get("forced")
    if forced:
        keys = sorted(forced, key=int)
        size = max(1, len(keys) // 2)
        while size >= 1:
            for start in range(0, len(keys), size):
                new = copy.deepcopy(plan)
                for key in keys[start:start + size]:
                    del new["forced"][key]
                yield new
            if size == 1:
                break
            size //= 2


def minimise(ctx: Context, check, plan: Dict[str, Any], res: Dict[str, Any]):
    cls = res["violations"][0]["class"]
    attempts = 0
    start = sched.real_monotonic()
    forced = dict(copy.deepcopy(plan), forced=res["trace"])
    got = execute(ctx, check, forced)
    if any(x["class"] == cls for x in got["violations"]):
        plan, res = forced, got
    progress = True
    while progress and attempts < MINIMISE_ATTEMPTS and sched.real_monotonic() - start < 60:
        progress = False
        for cand in variants(plan):
            attempts += 1
            if attempts >= MINIMISE_ATTEMPTS or sched.real_monotonic() - start > 60:
                break
            try:
                got = execute(ctx, check, cand)
            except world.HarnessError:
                continue
            if any(x["class"] == cls for x in got["violations"]):
                plan, res, progress = cand, got, True
                break
    if plan.get("engine"):
        ids = {str(r["id"]) for c in plan["conns"] for r in c["reqs"] if "id" in r}
        plan["engine"] = {k: s for k, s in plan["engine"].items() if k in ids}
    return plan, res, attempts


def main(argv: List[str]) -> int:
    """batch.py JOB.json: prints one JSON line per run."""
    with open(argv[0], encoding="utf-8") as src:
        job = json.load(src)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr
    try:
        from .server_checks import CHECKS

        check = CHECKS[job["prop"]]()
        site = tempfile.mkdtemp(prefix="site", dir=job["scratch"])
        engine.CACHE_DIR = job["cache"]
        world.build_site(site)
        wld = world.World()
        try:
            wld.boot(site, job["options"]["argv"], job["options"])
        except world.BootFailure as failure:
            bad = [{"class": "boot", "text": str(failure)}]
            res = {"violations": bad, "digest": "boot", "trace": {}, "fired": {}}
            out.write(json.dumps({"kind": "run", "seed": "boot", "res": res, "replay": {
                "prop": job["prop"], "seed": "boot", "options": job["options"], "plan": None, "violations": bad}}) + "\n")
            out.write(json.dumps({"kind": "end"}) + "\n")
            return 0
        ctx = Context(wld, job["options"])
        found = 0
        if "replay" in job:
            if job["replay"] is None:
                out.write(json.dumps({"kind": "end"}) + "\n")
                return 0
            res = execute(ctx, check, job["replay"])
            out.write(json.dumps({"kind": "run", "res": res}) + "\n")
            return 0
        for seed in job["seeds"]:
            if job.get("deadline") and sched.real_monotonic() > job["deadline"]:
                out.write(json.dumps({"kind": "cut"}) + "\n")
                break
            rng = random.Random(seed)
            rng.root, number, place = seed.split("/")[0], *map(int, seed.split("/")[2:])
            rng.slot = number * len(job["seeds"]) + place
            plan = check.generate(rng, ctx)
            traffic.tidy(plan)
            res = execute(ctx, check, plan)
            line = {"kind": "run", "seed": seed, "res": {k: val for k, val in res.items() if k not in ("history", "trace")}}
            if job.get("twice"):
                again = execute(ctx, check, plan)
                line["repeat_ok"] = again["digest"] == res["digest"]
            if job.get("sample") == seed:
                line["sample"] = plan
            if res["violations"]:
                found += 1
                small, sres, tries = minimise(ctx, check, plan, res) if found <= 1 else (plan, res, 0)
                line["replay"] = {"prop": job["prop"], "seed": seed, "options": job["options"], "plan": small,
                                  "violations": sres["violations"], "history": sres["history"], "minimise_attempts": tries}
            out.write(json.dumps(line) + "\n")
            out.flush()
            if found >= 2:
                break
        out.write(json.dumps({"kind": "end", "solos": ctx.solos}) + "\n")
        return 0
    except BaseException:
        out.write(json.dumps({"kind": "error", "text": traceback.format_exc()}) + "\n")
        return 3
    finally:
        out.flush()


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
