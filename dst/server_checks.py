"""The properties decided by simulating the whole server: C01-C05, C07, C15."""

from __future__ import annotations

import json
import os
import random
from typing import Any, Dict, List

from . import traffic as tr
from .board import LAYERS, Board, reframe, restyle, scribble, title

LIMITS = [1, 2, 5, 30, 60]


class Check:
    """One property: how its runs are made and judged."""

    prop = ""
    runs = {"quick": 480, "thorough": 6000}
    per_batch = {"quick": 20, "thorough": 40}

    def boot_options(self, rng: random.Random) -> Dict[str, Any]:
        limit = rng.choice(LIMITS)
        argv = []
        if limit != 30 or rng.random() < 0.5:
            argv += rng.choice([["-tl", str(limit)], ["--time_limit", str(limit)]])
        if rng.random() < 0.3:
            argv += ["-pt", str(rng.choice([2, 4, 8]))]
        return {"argv": argv, "limit": limit, "hashseed": rng.randrange(1, 4_000_000)}

    def generate(self, rng: random.Random, ctx) -> Dict[str, Any]:
        raise NotImplementedError

    def judge(self, run, plan, ctx) -> List[Dict[str, str]]:
        raise NotImplementedError

    def nontrivial(self, run) -> bool:
        return len(run.searches) > 0


def traffic_plan(rng: random.Random, limit: float, conns=(1, 4), reqs=(1, 4), net=0.3, slow=0.15, bad=0.15, pages=0.1, raw=0.0,
                 preempt=True, chooser=None) -> Dict[str, Any]:
    """A plan of mixed traffic."""
    focus = None
    if rng.random() < 0.55:
        focus = [rng.choice(tr.TYPES) for _ in range(rng.choice([1, 1, 2]))]
    net_rate = rng.choice([0.0, net, 2 * net])
    plan: Dict[str, Any] = {"conns": [], "engine": {}, "sched": rng.randrange(1 << 30),
                            "preempt": rng.choice([0.0, 0.002, 0.02, 0.1]) if preempt else 0.0}
    for cnum in range(rng.randint(*conns)):
        conn: Dict[str, Any] = {"at": rng.choice([0.0, 0.0, 0.001, limit * 0.1, limit * 0.5, limit * 1.5]), "reqs": []}
        for pos in range(rng.randint(*reqs)):
            rid = f"{cnum}.{pos}"
            roll = rng.random()
            if roll < raw:
                req = {"id": rid, "raw": tr.b64(rng.choice(tr.RAW)), "note": "raw"}
            elif roll < raw + pages:
                req = tr.page_request(rng, rid)
            elif roll < raw + pages + bad:
                body, kind = tr.bad_body(rng)
                req = {"id": rid, "body": body, "note": f"bad/{kind}"}
            else:
                req = tr.request((chooser or tr.pick)(rng, focus), rid)
            if tr.is_solve(req):
                plan["engine"][rid] = tr.engine_spec(rng, limit, slow)
            if rng.random() < 0.5:
                req["wait"] = 1
            if rng.random() < 0.3:
                req["at"] = rng.choice([0.001, 0.1, limit * 0.2])
            conn["reqs"].append(req)
        tr.network_faults(rng, conn, limit, net_rate)
        plan["conns"].append(conn)
    return plan


def marathon(rng: random.Random, limit: float, lengths=(70, 110, 160), trouble=0.0) -> Dict[str, Any]:
    """Very many small requests to one server: what only counts, fills up or wears out shows itself late."""
    plan: Dict[str, Any] = {"conns": [], "engine": {}, "sched": rng.randrange(1 << 30), "preempt": 0.0,
                            "horizon": 2000 * limit + 5000}
    total, conns = rng.choice(lengths), rng.choice([1, 1, 2, 3, 8])
    few = rng.sample([e for e in tr.POOL if e["ms"] <= 25], rng.choice([1, 3, 8]))
    storm = rng.choice([0, 0, total // 2, total - 6]) if trouble else 0
    for cnum in range(conns):
        conn: Dict[str, Any] = {"at": 0.0, "reqs": []}
        for pos in range(total // conns):
            rid = f"m{cnum}.{pos}"
            if rng.random() < 0.03:
                body, kind = tr.bad_body(rng)
                req = {"id": rid, "body": body, "note": f"bad/{kind}"}
            else:
                req = tr.request(rng.choice(few), rid)
            conn["reqs"].append(dict(req, wait=1))
            plan["engine"][rid] = {"T": 0.01}
            if pos < storm // conns or rng.random() < trouble / 4:
                roll = rng.random()
                if roll < 0.3:
                    plan["engine"][rid] = {"T": limit * 50, "late": 1}
                elif roll < 0.9:
                    plan["engine"][rid]["fail"] = {"at": rng.choice(["create", "ground", "solve", "search", "model"]),
                                                   "error": rng.choice(["MemoryError", "RuntimeError", "OSError"])}
        plan["conns"].append(conn)
    return plan


def solve_requests(plan):
    for conn in plan["conns"]:
        for req in conn["reqs"]:
            if tr.is_solve(req):
                yield str(req["id"]), req


class C01(Check):
    """A solve reply depends only on its own request."""

    prop = "C01"
    runs = {"quick": 800, "thorough": 12000}

    @staticmethod
    def tour(rng) -> Dict[str, Any]:
        """Many types one after another, so that over the runs every type comes before every other one."""
        plan: Dict[str, Any] = {"conns": [], "engine": {}, "sched": rng.randrange(1 << 30), "preempt": 0.0}
        names = rng.sample(tr.TYPES, 28)
        for cnum in range(rng.choice([1, 1, 2])):
            conn: Dict[str, Any] = {"at": 0.0, "reqs": []}
            for pos, name in enumerate(names[cnum::2] if cnum else names):
                near = sorted(tr.BY_TYPE[name], key=lambda e: e["ms"])
                telling = [e for e in near if isinstance(e["outcome"], int) and 0 < e["outcome"] < 10 and e["ms"] <= 200][:6]
                rid = f"t{cnum}.{pos}"
                conn["reqs"].append(dict(tr.request(rng.choice(telling if telling and rng.random() < 0.8 else near[:8]), rid), wait=1))
                plan["engine"][rid] = {"T": 0.01}
            plan["conns"].append(conn)
        return plan

    def generate(self, rng, ctx):
        if rng.random() < 0.03:
            return marathon(rng, ctx.limit, trouble=rng.choice([0.0, 0.3]))
        if rng.random() < 0.3:
            return self.tour(rng)
        plan = traffic_plan(rng, ctx.limit, conns=(1, 2), reqs=(1, 4)) if rng.random() < 0.6 else {
            "conns": [], "engine": {}, "sched": rng.randrange(1 << 30), "preempt": rng.choice([0.0, 0.002, 0.02])}
        # for some types (all types have their turn): a request, something that may disturb it, and the request again
        for turn, name in enumerate(tr.turns(rng, 3)):
            if turn == 2 and rng.random() < 0.5:
                name = rng.choice(tr.WITH_PARAMETERS)
            near = [e for e in tr.BY_TYPE[name] if e["ms"] <= 400] or tr.BY_TYPE[name]
            telling = [e for e in near if isinstance(e["outcome"], int) and 0 < e["outcome"] < 10]
            base = rng.choice(telling if telling and rng.random() < 0.8 else near)
            shared = [e for e in near if len(tr.BY_BOARD[e["puzzle"]]) > 1]
            if shared and rng.random() < 0.25:
                base = rng.choice(shared)
            reqs, order = {"h": base}, ["h"]
            for other in range(rng.randint(1, 3)):
                kin = [e for e in near if e["puzzle"] == base["puzzle"] and e["param"] != base["param"]]
                rejected = [e for e in near if isinstance(e["outcome"], str)]
                roll = rng.random()
                choice = rejected if rejected and roll < 0.45 else kin if kin and roll < 0.8 else near
                alike = [e for e in tr.BY_BOARD[base["puzzle"]] if e["type"] != base["type"] and e["ms"] <= 400]
                if alike and roll > 0.4 and rng.random() < 0.7:  # the same board as another type
                    choice = alike
                reqs[f"d{other}"] = picked = rng.choice(choice)
                if picked["param"] and rng.random() < 0.4:  # the values under each other's names, or those of another request
                    values = list(base["param"].values())
                    rng.shuffle(values)
                    swapped = dict(zip(base["param"], values))
                    reqs[f"d{other}"] = dict(rng.choice([picked, base]), param=rng.choice([swapped, rng.choice(near)["param"]]))
                order.append(f"d{other}")
            rng.shuffle(order)
            order += ["h"] if order[-1] != "h" else []
            if rng.random() < 0.3:
                order.append(rng.choice(order))
            conn = {"at": rng.choice([0.0, 0.0, 0.01]), "reqs": []}
            for pos, key in enumerate(order):
                rid = f"{'abc'[turn]}{key}.{pos}"
                conn["reqs"].append(dict(tr.request(reqs[key], rid), wait=int(rng.random() < 0.7)))
                plan["engine"][rid] = tr.engine_spec(rng, ctx.limit, 0.08)
                if key != "h" and rng.random() < 0.12:
                    plan["engine"][rid]["fail"] = {"at": rng.choice(["create", "ground", "solve", "search", "model"]),
                                                   "error": rng.choice(["MemoryError", "RuntimeError"])}
            if plan["conns"] and rng.random() < 0.5:
                rng.choice(plan["conns"])["reqs"].extend(conn["reqs"])  # the same client goes on
            else:
                plan["conns"].append(conn)
        if rng.random() < 0.3:
            for rid in list(plan["engine"]):
                if rng.random() < 0.2:
                    plan["engine"][rid]["fail"] = {"at": rng.choice(["create", "add", "ground", "solve", "search", "model"]),
                                                   "error": rng.choice(["MemoryError", "RuntimeError", "OSError"])}
        return plan

    def judge(self, run, plan, ctx):
        return tr.judge_reference(run, ctx.refs)

    refs = True


class C02(Check):
    """One well-formed reply per request; the server stays available."""

    prop = "C02"
    runs = {"quick": 640, "thorough": 12000}

    def generate(self, rng, ctx):
        crowd = rng.random() < 0.1
        plan = traffic_plan(rng, ctx.limit, conns=(10, 24) if crowd else (1, 5), reqs=(1, 2) if crowd else (1, 5), net=0.45, bad=0.4,
                            pages=0.25, raw=rng.choice([0.0, 0.0, 0.12]), slow=0.08)
        if rng.random() < 0.03:
            plan = marathon(rng, ctx.limit, trouble=rng.choice([0.0, 0.3]))
        if rng.random() < 0.1:
            plan["age"] = rng.choice([100, 999, 10 ** 4, 10 ** 6, 10 ** 8])
        # when everything is over, a fresh client must still be served, and told the truth although its request comes in pieces
        entry = rng.choice([e for e in tr.ORIG if isinstance(e["outcome"], int)])
        last = {"at": 3.5 * ctx.limit, "reqs": [tr.request(entry, "z.0"), {"id": "z.1", "method": "GET", "path": "/penpa-edit/", "page": 1}]}
        if rng.random() < 0.5:
            size = 200 + len(last["reqs"][0]["body"]) * 3 // 4
            last["reqs"][0]["cuts"] = sorted({rng.randrange(1, size) for _ in range(rng.randrange(1, 4))})
            last["reqs"][0]["gaps"] = [rng.choice([0.0, 0.001, 1.0, 4.0])]
        if rng.random() < 0.3:
            last["reqs"][0]["chunked"] = rng.choice([1, 7, 64, 1000])
        plan["engine"]["z.0"] = {"T": 0.01}
        plan["conns"].append(last)
        if rng.random() < 0.15:
            ctx.add_pauses(rng, plan, [rid for rid, _ in solve_requests(plan) if rid != "z.0"])
        plan["horizon"] = 4000 * ctx.limit + 5000
        return plan

    def judge(self, run, plan, ctx):
        bad = tr.judge_replies(run)
        outs = tr.outcomes(run)
        if "z.0" in outs and outs["z.0"].get("status") != 200:
            bad.append(tr.v("unavailable", f"a proper request after the faults got {tr.show(outs['z.0'])}"))
        return bad

    def nontrivial(self, run):
        return sum(len(c.parser.replies) for c in run.conns) > 1


class C03(Check):
    """Time limit."""

    prop = "C03"
    runs = {"quick": 640, "thorough": 12000}

    def boot_options(self, rng):
        opts = super().boot_options(rng)
        opts["argv"] = ["-tl", str(opts["limit"])] + (["-pt", "4"] if rng.random() < 0.4 else [])
        return opts

    def generate(self, rng, ctx):
        limit = ctx.limit
        if rng.random() < 0.015:
            return marathon(rng, limit, (24, 48, 90), trouble=0.5)
        chooser = lambda r, f: r.choice(tr.ORIG + tr.MULTI * 2 + tr.FULL)  # noqa: E731
        plan = traffic_plan(rng, limit, conns=(1, 3), reqs=(1, 3), net=0.15, bad=0.05, pages=0.05, chooser=chooser)
        for rid, spec in plan["engine"].items():
            roll = rng.random()
            if roll < 0.35:
                spec["T"] = limit + rng.choice([-0.5, -0.01, -0.001, -1e-6, 0, 1e-6, 0.001, 0.01, 0.5])
            elif roll < 0.7:
                spec["T"] = limit * rng.choice([1.05, 1.5, 2, 10, 1000])
            spec["late"] = int(rng.random() < 0.5)
            spec["shape"] = rng.choice(["even", "front", "back", "burst", "late"])
            if rng.random() < 0.3:
                spec["ground"] = limit * rng.choice([0.01, 0.3, 0.6, 0.99, 1.2])
            if rng.random() < 0.15:
                spec["stall_cancel"] = limit * rng.choice([0.01, 0.5])
            if rng.random() < 0.1:
                spec["stall_wait"] = limit * rng.choice([0.01, 0.4])
        plan["wall_jumps"] = [{"at": rng.random() * limit * 3, "by": rng.choice([-1, 1]) * rng.choice([1, limit, 3600, 86400])}
                              for _ in range(rng.choice([0, 0, 1, 3]))]
        if rng.random() < 0.3:
            ctx.add_pauses(rng, plan, [rid for rid, _ in solve_requests(plan)])
        return plan

    def judge(self, run, plan, ctx):
        return tr.judge_limit(run, ctx.limit)


class C04(Check):
    """No search outlives its request."""

    prop = "C04"
    runs = {"quick": 560, "thorough": 10000}

    def generate(self, rng, ctx):
        limit = ctx.limit
        if rng.random() < 0.015:
            return marathon(rng, limit, (24, 48, 90), trouble=0.5)
        plan = traffic_plan(rng, limit, conns=(1, 4), reqs=(1, 4), net=0.6, slow=0.45, bad=0.05, pages=0.05)
        for rid, spec in plan["engine"].items():
            if rng.random() < 0.35:
                spec["fail"] = {"at": rng.choice(["create", "ground", "solve", "search", "model", "model", "model"]),
                                "k": rng.choice([0, 0, 1, 3]), "error": rng.choice(["MemoryError", "RuntimeError", "OSError"])}
            if rng.random() < 0.3:
                spec["T"] = limit * rng.choice([0.9, 1.0, 1.1, 50, 10000])
        if rng.random() < 0.4:  # memory runs out in the code under test while searches run
            ctx.add_line_fault(rng, plan, [rid for rid, _ in solve_requests(plan)], ["MemoryError"])
        if rng.random() < 0.15:
            ctx.add_pauses(rng, plan, [rid for rid, _ in solve_requests(plan)])
        return plan

    def judge(self, run, plan, ctx):
        return tr.judge_leaks(run)


class C05(Check):
    """Every answer found is delivered exactly once."""

    prop = "C05"
    runs = {"quick": 560, "thorough": 10000}

    def generate(self, rng, ctx):
        chooser = lambda r, f: r.choice(r.choice([tr.MULTI, tr.MULTI, tr.FULL, tr.ORIG]))  # noqa: E731
        plan = traffic_plan(rng, ctx.limit, conns=(1, 3), reqs=(1, 4), net=0.1, slow=0.05, bad=0.05, pages=0.0, chooser=chooser)
        for spec in plan["engine"].values():
            spec["late"] = int(rng.random() < 0.3)
        return plan

    singles = True

    def judge(self, run, plan, ctx):
        return tr.judge_delivery(run, ctx.singles)


class C07(Check):
    """A failure is never disguised as an answer."""

    prop = "C07"
    runs = {"quick": 960, "thorough": 12000}

    def generate(self, rng, ctx):
        if rng.random() < 0.04:
            return marathon(rng, ctx.limit, (12, 30, 60), trouble=0.3)
        odd = ctx.unusual()
        seldom = [e for e in tr.LIGHT if e["type"] in odd and isinstance(e["outcome"], int) and e["outcome"]] if rng.random() < 0.15 else []
        plan = traffic_plan(rng, ctx.limit, conns=(1, 2), reqs=(2, 4), net=0.1, slow=0.05, bad=0.1, pages=0.0, chooser=lambda r, f: r.choice(
            seldom) if seldom and r.random() < 0.8 else r.choice(r.choice([tr.MULTI, tr.FULL, tr.ORIG])) if r.random() < 0.7 else tr.pick(r, f))
        mode = 0.9 if seldom else rng.random()
        victims = [rid for rid, _ in solve_requests(plan)]
        if not victims:
            return plan
        if mode < 0.5:
            for rid in rng.sample(victims, k=min(len(victims), rng.choice([1, 1, 2]))):
                plan["engine"][rid]["fail"] = {
                    "at": rng.choice(["create", "add", "ground", "solve", "search", "search", "search", "model", "model"]),
                    "k": rng.choice([0, 0, 1, 2, 5, 9]), "frac": rng.choice([0.1, 0.5, 0.99]),
                    "error": rng.choice(["MemoryError", "RuntimeError", "OSError", "RecursionError", "SystemError", "TypeError",
                                         "AttributeError"])}
        else:
            ctx.add_line_fault(rng, plan, victims, ["MemoryError", "RecursionError", "OSError"])
        return plan

    refs = True

    def judge(self, run, plan, ctx):
        bad: List[Dict[str, str]] = []
        outs = tr.outcomes(run)
        hit = set()
        for rid, spec in plan["engine"].items():
            if spec.get("fail") and rid in outs:
                hit.add(rid)
        fault = run.line_fault_hit
        if fault:
            hit.add(str(fault["req"]))
        for conn in run.conns:
            for pos, reply in enumerate(conn.parser.replies[: len(conn.items)]):
                rid = str(conn.items[pos][0])
                if rid not in hit or not tr.is_solve(conn.plan["reqs"][pos]):
                    continue
                out = tr.parse_solve_reply(reply)
                ref = ctx.clean_refs.get(rid)
                if reply.status == 200:
                    got = tr.canon(out)
                    if "bad" in out or ref is None or not tr.same(got, ref):
                        bad.append(tr.v("disguised", f"request {rid} {conn.plan['reqs'][pos].get('note', '')}: a failure inside gave "
                                                     f"{tr.show(got)}, without it {tr.show(ref or {})}"))
                elif reply.status not in (400, 500, 504):
                    bad.append(tr.v("status", f"request {rid}: a failure inside gave status {reply.status}"))
                elif reply.status != 500 and ref is not None and ref.get("status") != reply.status and self._really(run, plan, rid):
                    bad.append(tr.v("status", f"request {rid}: an internal failure gave status {reply.status}"))
        refs = dict(ctx.refs)
        if fault:  # memory ran out while an error was reported: the server closes the connection, requests behind it have to be sent again
            for conn in run.conns:
                ids = [str(item[0]) for item in conn.items]
                if conn.closed_by == "server" and str(fault["req"]) in ids:
                    for rid in ids[len(conn.parser.replies):]:
                        refs.pop(rid, None)
        bad += tr.judge_reference(run, refs, skip=hit)
        return bad

    @staticmethod
    def _really(run, plan, rid) -> bool:
        """The planned failure of this request did happen (and not only its plan)."""
        if run.line_fault_hit and str(run.line_fault_hit["req"]) == rid:
            return True
        return any(h[2] in ("engine_fault", "callback_error") and (str(h[3].get("req")) == rid or (
            "search" in h[3] and str(run.searches[h[3]["search"]].req) == rid)) for h in run.sim.history)

    def nontrivial(self, run):
        return bool(run.line_fault_hit) or any(k.startswith("engine_") for k in run.world.state.fired)


class C15(Check):
    """The operator's settings hold for every search."""

    prop = "C15"
    runs = {"quick": 480, "thorough": 8000}
    per_batch = {"quick": 8, "thorough": 20}

    def boot_options(self, rng):
        argv, limit, threads = [], 30, 1
        if rng.random() < 0.75:
            limit = rng.choice([1, 2, 3, 7, 15, 45, 60, 600, 3601, 20000])
            argv += [rng.choice(["-tl", "--time_limit"]), str(limit)]
        if rng.random() < 0.7:
            threads = rng.choice([1, 2, 3, 4, 8, 16, 32, 64])
            argv += [rng.choice(["-pt", "--parallel_threads"]), str(threads)]
        if rng.random() < 0.3:
            argv += ["-H", "0.0.0.0"]
        if rng.random() < 0.3:
            argv += ["-p", str(rng.choice([80, 8001]))]
        if rng.random() < 0.3:
            argv += ["-d"]
        return {"argv": argv, "limit": limit, "threads": threads, "hashseed": rng.randrange(1, 4_000_000), "cpus": rng.choice([1, 2, 4, 16])}

    def generate(self, rng, ctx):
        limit = ctx.limit
        if rng.random() < 0.02:
            return marathon(rng, limit, (24, 48, 90), trouble=0.4)
        chooser = lambda r, f: r.choice(r.choice([tr.FULL, tr.MULTI, tr.ORIG])) if r.random() < 0.6 else tr.pick(r, f)  # noqa: E731
        plan = traffic_plan(rng, limit, conns=(1, 3), reqs=(2, 6), net=0.2, slow=0.3, bad=0.2, pages=0.0, chooser=chooser)
        plan["horizon"] = 400 * limit + 5000
        for spec in plan["engine"].values():
            if rng.random() < 0.3:
                spec["T"] = rng.choice([0.5, 0.9, 1.1, 2.0]) * limit
            if rng.random() < 0.15:
                spec["fail"] = {"at": rng.choice(["create", "ground", "solve", "search", "model"]), "k": rng.choice([0, 2]),
                                "error": rng.choice(["MemoryError", "RuntimeError"])}
        if rng.random() < 0.5:
            ctx.add_pauses(rng, plan, [rid for rid, _ in solve_requests(plan)])
        return plan

    def judge(self, run, plan, ctx):
        bad: List[Dict[str, str]] = []
        limit, threads = ctx.limit, ctx.options["threads"]
        tol = max(1.0, 0.02 * limit)
        outs = tr.outcomes(run)
        for search in run.searches:
            if search.threads != threads:
                bad.append(tr.v("threads", f"search {search.index} of request {search.req} uses {search.threads} threads, started with {threads}"))
            done_by_cap = len(search.delivered) <= 10
            if search.models_cap != 10 and not (search.models_cap == 0 or search.models_cap > 10) or not done_by_cap:
                bad.append(tr.v("cap", f"search {search.index} of request {search.req} is capped at {search.models_cap}, "
                                       f"collected {len(search.delivered)}"))
            elif search.models_cap != 10 and len(search.texts) > 10 and search.end_reason == "exhausted":
                bad.append(tr.v("cap", f"search {search.index} of request {search.req} goes on after ten answers (cap {search.models_cap})"))
            held = run.paused(search.req)
            if search.end_reason == "cancelled" and not search.spec.get("fail") and not search.spec.get("stall_cancel"):
                ran = search.ended - search.started
                if ran < limit - tol - held or ran > limit + tol + held:
                    bad.append(tr.v("limit", f"search {search.index} of request {search.req} was stopped after {ran:.3f} s, limit {limit} s"))
            elif search.spec.get("T", 0) > limit + tol and search.ended is not None and search.ended - search.started > limit + tol + held:
                bad.append(tr.v("limit", f"search {search.index} of request {search.req} ran {search.ended - search.started:.3f} s, limit {limit} s"))
        for rid, out in outs.items():
            mine = [s for s in run.searches if str(s.req) == rid]
            spec = plan["engine"].get(rid, {})
            if not mine or spec.get("fail"):
                continue
            spent = spec.get("T", 0.01) + spec.get("ground", 0) + spec.get("create", 0) + run.paused(rid)
            if out.get("status") == 504 and spent < limit * 0.97 and mine[-1].complete:
                bad.append(tr.v("limit", f"request {rid} timed out after {spent:.3f} s, limit {limit} s"))
            if out.get("status") == 200 and spec.get("T", 0.01) > limit + tol + run.paused(rid):
                bad.append(tr.v("limit", f"request {rid} succeeded after {spent:.3f} s of search, limit {limit} s"))
            if out.get("status") == 200 and len(out["urls"]) > 10:
                bad.append(tr.v("cap", f"request {rid} has {len(out['urls'])} boards"))
        if run.deadlock or run.stuck:
            bad.append(tr.v("stuck", run.deadlock or "requests were never answered"))
        return bad


def user_board(rng: random.Random, entry: Dict[str, Any], scribbles: bool, frames: bool) -> str:
    """A pool board as a user may have it on the page."""
    try:
        board = Board.decode(entry["puzzle"])
        if frames and rng.random() < 0.35:
            board = reframe(board, (rng.randrange(3), rng.randrange(3), rng.randrange(3), rng.randrange(3)))
        if scribbles and rng.random() < 0.6:
            scribble(rng, board, rng.choice([1, 3, 8]))
        if scribbles and rng.random() < 0.3:
            title(rng, board)
        if scribbles and rng.random() < 0.3:
            restyle(rng, board)
        return board.encode()
    except Exception:  # not a board at all
        return entry["puzzle"]


def session(rng: random.Random, ctx, plan: Dict[str, Any], name: str, scribbles: bool, steps: int) -> None:
    """A user who solves, adopts marks, erases marks and solves again; appended to the plan as one connection."""
    pool = rng.choice([tr.ORIG, tr.MULTI, tr.FULL, tr.LIGHT])
    if rng.random() < 0.75:  # every type in its turn
        ptype = tr.turns(rng, 2)[int(name[1:])]
        pool = sorted((e for e in tr.BY_TYPE[ptype] if isinstance(e["outcome"], int) and e["outcome"]), key=lambda e: e["ms"])
        pool = [e for e in pool if e["ms"] <= 300] or pool[:2]
    for _ in range(20):
        entry = rng.choice(pool)
        if (entry["ms"] <= 200 or len(pool) < 3) and not (entry["type"] in INEXACT and entry["param"].get("fast_mode")):
            break
    url = user_board(rng, entry, scribbles, True)
    conn: Dict[str, Any] = {"at": rng.choice([0.0, 0.01]), "reqs": []}
    must: List[Any] = []
    known = [url]  # boards on the way here; the last is on the page now
    for pos in range(steps):
        rid = f"{name}.{pos}"
        req = tr.request(dict(entry, puzzle=url), rid)
        req["wait"] = int(rng.random() < 0.8)
        req["adopted"] = must
        conn["reqs"].append(req)
        plan["engine"][rid] = {"T": rng.choice([0.0, 0.01, 0.3 * ctx.limit]), "shape": rng.choice(["even", "burst", "late"])}
        reply = ctx.solo(req, {"T": 0.01})
        urls = reply.get("urls") or []
        if not urls:
            break
        pick = rng.choice(urls)
        try:
            before, after = Board.decode(url), Board.decode(pick)
            first = Board.decode(known[0]) if entry["type"] not in UNREAD else before
        except Exception:
            break
        roll = rng.random()
        nxt = after.copy()
        whole = entry["type"] in WHOLE_ONLY
        if roll < 0.35:  # adopt the whole answer
            kind = "whole"
        elif roll < 0.8 and not whole:  # erase some of what was added
            kind = "some"
            gone = rng.choice([0.1, 0.5, 0.5, 0.9])
            for layer in LAYERS:
                for key in list(nxt.a.get(layer, {})):
                    if key not in first.a.get(layer, {}) and rng.random() < gone:
                        del nxt.a[layer][key]
                    elif key in first.a.get(layer, {}) and nxt.a[layer][key] != first.a[layer][key] and rng.random() < gone:
                        nxt.a[layer][key] = first.a[layer][key]
        else:  # erase all of it, one layer of it, or go back
            kind = "back"
            nxt = first.copy() if whole or rng.random() < 0.5 else before.copy()
        if scribbles and rng.random() < 0.3 and kind == "some":
            scribble(rng, nxt, 1)
            must = []
        else:
            alone = len(urls) == 1 and (pos == 0 or kind == "whole") and len(reply["canon"].get("boards") or []) == 1
            must = [{"board": tr.canon_board(pick), "only": alone, "kind": kind}] if kind != "back" else []
            if kind == "back":
                must = [{"board": tr.canon_board(pick), "only": False, "kind": kind}]
        known.append(url)
        url = nxt.encode()
    if rng.random() < 0.3:
        conn["reqs"] = conn["reqs"][:1] + [dict(r) for r in conn["reqs"][1:]]
    plan["conns"].append(conn)


def known_history(ctx, plan: Dict[str, Any], old: Dict[str, Any], name: str) -> None:
    """A board, its answer, and the board with some marks of the answer left."""
    first = dict(tr.request(dict(old, kind="known"), f"{name}.0"), wait=1)
    boards = (ctx.solo(first, {"T": 0.01}).get("canon") or {}).get("boards") or []
    part = tr.request(dict(old, puzzle=old["partial"], kind="known"), f"{name}.1")
    part["wait"] = 1
    part["adopted"] = [{"board": boards[0], "only": False, "kind": "some"}] if len(boards) == 1 else []
    plan["conns"].append({"at": 0.0, "reqs": [first, part]})
    for rid in (first["id"], part["id"]):
        plan["engine"][rid] = {"T": 0.01}


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "histories.json"), encoding="utf-8") as source:
    HISTORIES = json.load(source)
WHOLE_ONLY = {"pipelink"}
# types that do not read what the user has drawn: an answer board may be the answer over marks of another one, so that only
# the marks of the last answer are erased
UNREAD = {"gokigen", "haisu", "juosan", "nagare", "shakashaka"}
INEXACT = {"symmarea"}  # its fast mode leaves out rules


class C13(Check):
    """An answer board leaves everything the user drew untouched."""

    prop = "C13"
    runs = {"quick": 720, "thorough": 12000}

    def generate(self, rng, ctx):
        plan = traffic_plan(rng, ctx.limit, conns=(0, 2), reqs=(1, 3), net=0.2, slow=0.05, bad=0.15, pages=0.0)
        for number in range(rng.choice([1, 1, 2])):
            session(rng, ctx, plan, f"s{number}", True, rng.randint(1, 5))
        return plan

    def judge(self, run, plan, ctx):
        return tr.judge_untouched(run)


class C14(Check):
    """An adopted answer stays an answer."""

    prop = "C14"
    runs = {"quick": 900, "thorough": 12000}

    def generate(self, rng, ctx):
        plan = traffic_plan(rng, ctx.limit, conns=(0, 2), reqs=(1, 3), net=0.2, slow=0.05, bad=0.15, pages=0.0)
        for number in range(rng.choice([1, 1, 2])):
            session(rng, ctx, plan, f"s{number}", False, rng.randint(2, 5))
        if getattr(rng, "slot", 1) % 60 == 0:  # what went wrong once
            for number, old in enumerate(HISTORIES):
                known_history(ctx, plan, old, f"k{number}")
        return plan

    def judge(self, run, plan, ctx):
        return tr.judge_adopted(run)


CHECKS = {c.prop: c for c in (C01, C02, C03, C04, C05, C07, C13, C14, C15)}
