"""The deployed in-browser solver, loaded from a real deployment build, with its bridge calls driven by the simulator."""

from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import runpy
import subprocess
import sys
import tempfile
import traceback
import types
from typing import Any, Dict, List, Optional

from . import engine, sched, traffic, world

OPTIONS = ["--sat-prepro --trans-ext=dynamic --eq=3 --models=10"]  # replaced by what the page really asks for
HIDDEN = ["clingo", "starlette", "uvicorn", "anyio", "h11", "numpy"]


class JsObject:
    """A JavaScript object as Python code sees it in the browser."""

    def __init__(self, value: Any):
        self._value = value

    def to_py(self, **_):
        return copy.deepcopy(self._value)


def build(site: str, listing: int):
    """Run the real deployment build in the site; return the directory the browser would fill from it."""
    world.build_site(site)
    code = (f"import sys; sys.path.insert(0, {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))!r});"
            "from dst import world; import os, runpy;"
            f"world.control_chance({listing}, 0); sys.path.insert(0, os.getcwd()); sys.argv = ['main.py', '-D'];"
            "import uvicorn; uvicorn.run = lambda *a, **k: None;"
            "runpy.run_path('main.py', run_name='__main__')")
    proc = subprocess.run([sys.executable, "-B", "-c", code], cwd=site, check=False, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if proc.returncode:
        return None, "the deployment build failed: " + proc.stdout.decode("utf-8", "replace")[-600:]
    page = os.path.join(site, "dist", "page", "penpa-edit")
    home = os.path.join(site, "pyodide")
    try:
        with open(os.path.join(page, "pyscript.json"), encoding="utf-8") as src:
            files = json.load(src)["files"]
        for source, target in [*files.items(), ("./main_deploy.py", "main_deploy.py")]:
            goal = os.path.join(home, target)
            os.makedirs(os.path.dirname(goal), exist_ok=True)
            with open(os.path.join(page, source), "rb") as src, open(goal, "wb") as out:
                out.write(src.read())
    except (OSError, ValueError, KeyError) as err:
        return None, f"the built page cannot be loaded: {err!r}"
    return home, None


def page_options(site: str, scratch: str) -> Optional[str]:
    """The engine options of the page's own script, seen when it solves in a simulated browser."""
    plan = {"mode": "deploy", "init": {"kind": "ok", "after": 0}, "bridge": 0, "random": 1,
            "acts": [{"t": 1, "kind": "type", "pick": 1}, {"t": 2, "kind": "edit", "word": "", "x": 5},
                     {"t": 3, "kind": "solve", "out": {"kind": "ok", "n": 2, "head": 1, "body": 0}}]}
    job = {"sites": {"deploy": os.path.join(site, "dist", "page", "penpa-edit")}, "prop": "C12", "plans": [plan]}
    path = os.path.join(tempfile.mkdtemp(dir=scratch), "job.json")
    with open(path, "w", encoding="utf-8") as out:
        json.dump(job, out)
    sim = os.path.join(os.path.dirname(os.path.abspath(__file__)), "page_sim.js")
    proc = subprocess.run(["node", sim, path], check=False, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
    for line in proc.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith("{"):
            options = json.loads(line).get("res", {}).get("options")
            if options:
                return " ".join(options) if isinstance(options, list) else str(options)
    return None


class Bridge:
    """The loaded deployment."""

    def __init__(self, home: str, site: str):
        os.chdir(home)
        sys.path.insert(0, home)
        sched.PREFIXES = (home + "/noqx/", home + "/solver/")
        for name in list(sys.modules):
            if name.split(".")[0] in HIDDEN:
                del sys.modules[name]
        for name in HIDDEN:
            sys.modules[name] = None  # type: ignore
        pyscript = types.ModuleType("pyscript")
        self.window = pyscript.window = types.SimpleNamespace()  # type: ignore
        sys.modules["pyscript"] = pyscript
        for name in ("js", "pyodide", "pyodide.ffi", "_pyodide"):
            sys.modules[name] = types.ModuleType(name)
        sys.modules["js"].window = sys.modules["js"].self = self.window  # type: ignore
        sys.modules["pyodide"].ffi = ffi = sys.modules["pyodide.ffi"]  # type: ignore
        ffi.JsProxy, ffi.to_js, ffi.create_proxy = JsObject, lambda value, **_: value, lambda value, **_: value  # type: ignore
        sys.platform = "emscripten"
        runpy.run_path(os.path.join(home, "main_deploy.py"), run_name="__main__")


class Session:
    """One puzzle going through the bridge calls."""

    def __init__(self, spec: Dict[str, Any]):
        self.spec = spec
        self.stage = "prepare"
        self.puzzle: Any = None
        self.texts: List[str] = []
        self.boards: List[str] = []
        self.outcome: Optional[Dict[str, Any]] = None


class Simulation:
    """One run: several sessions, interleaved by the seeded scheduler, with failing calls among them."""

    def __init__(self, bridge: Bridge, plan: Dict[str, Any], count_only: bool = False):
        self.window, self.plan = bridge.window, plan
        self.rng = random.Random(f"order/{plan['sched']}")
        self.forced = plan.get("order")
        self.order: List[int] = []
        self.sessions = [Session(s) for s in plan["sessions"]]
        self.shuffle = random.Random(plan["shuffle"])
        self.history: List[Any] = []
        self.bad: List[Dict[str, str]] = []
        self.fired: Dict[str, int] = {}
        self.calls = 0
        self.lines: Dict[int, Dict[Any, int]] = {}
        self.count_only = count_only
        self.hit = False
        self.faulted: set = set()

    def fire(self, kind: str):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # one bridge call ------------------------------------------------------------
    def call(self, name: str, *args) -> Optional[Dict[str, Any]]:
        number, fault = self.calls, self.plan.get("fault")
        self.calls += 1
        seen = self.lines.setdefault(number, {})
        armed = bool(fault) and fault["call"] == number

        def local(frame, event, _arg):
            if event == "line":
                key = (frame.f_code.co_filename, frame.f_lineno)
                seen[key] = seen.get(key, 0) + 1
                if armed and not self.hit and self._is(key, fault) and seen[key] == fault["nth"]:
                    self.hit = True
                    self.fire(f"line_{fault['error']}")
                    raise engine.make_error(fault["error"])
            return local

        def trace(frame, event, _arg):
            return local if event == "call" and frame.f_code.co_filename.startswith(sched.PREFIXES) else None

        result: Any = None
        if armed or self.count_only:
            sys.settrace(trace)
        try:
            result = getattr(self.window, name)(*args)
        except BaseException as err:
            sys.settrace(None)
            self.bad.append(traffic.v("escaped", f"call {number} {name} raised {type(err).__name__}: {str(err)[:120]}"))
            return None
        finally:
            sys.settrace(None)
        self.history.append((number, name, bool(result.get("success")) if isinstance(result, dict) else None))
        if not isinstance(result, dict) or result.get("success") not in (True, False) or "result" not in result:
            self.bad.append(traffic.v("shape", f"call {number} {name} returned {str(result)[:100]}"))
            return None
        if not result["success"] and not isinstance(result["result"], str):
            self.bad.append(traffic.v("shape", f"call {number} {name} failed with a reason that is no text"))
            return None
        return result

    @staticmethod
    def _is(key, fault) -> bool:
        return os.path.relpath(key[0], os.getcwd()) == fault["file"] and key[1] == fault["line"]

    # steps ----------------------------------------------------------------------
    def step(self, ses: Session):
        spec = ses.spec
        first = self.calls
        if ses.stage == "prepare":
            res = self.call("prepare_puzzle", spec["type"], spec["puzzle"], JsObject(spec["param"]))
            if res is None or not res["success"]:
                self.end(ses, {"failed": res and res["result"]})
            else:
                ses.puzzle, ses.stage = res["result"], "generate"
        elif ses.stage == "generate":
            res = self.call("generate_program", ses.puzzle)
            if res is None or not res["success"]:
                self.end(ses, {"failed": res and res["result"]})
            else:
                try:
                    if not isinstance(res["result"], str):
                        raise TypeError("the program is no text")
                    texts, complete, wanted = engine.enumerate_program(res["result"], OPTIONS[0])
                except (RuntimeError, TypeError) as err:
                    self.end(ses, {"failed": f"engine: {err}", "engine": True})
                    return
                if not complete and len(texts) < (wanted or 10):
                    self.end(ses, {"unfinished": True})
                    return
                texts = list(texts)
                self.shuffle.shuffle(texts)
                ses.texts = []
                for text in texts[:wanted] if wanted else texts:
                    atoms = text.split(" ") if text else []
                    self.shuffle.shuffle(atoms)
                    ses.texts.append(" ".join(atoms))
                ses.stage = "store"
                if not ses.texts:
                    self.end(ses, {"boards": []})
        elif ses.stage == "store":
            res = self.call("store_solution", ses.puzzle, ses.texts[len(ses.boards)])
            if res is None or not res["success"]:
                self.end(ses, {"failed": res and res["result"]})
            elif not isinstance(res["result"], str):
                self.bad.append(traffic.v("shape", f"session {spec['rid']}: a stored answer is no board text"))
                self.end(ses, {"failed": None})
            else:
                ses.boards.append(traffic.canon_board(res["result"]))
                if len(ses.boards) == len(ses.texts):
                    self.end(ses, {"boards": sorted(ses.boards)})
        fault = self.plan.get("fault")
        if fault and first <= fault["call"] < self.calls and self.hit:
            self.faulted.add(spec["rid"])

    def end(self, ses: Session, outcome: Dict[str, Any]):
        ses.stage, ses.outcome = "end", outcome

    def junk(self, item: Dict[str, Any]):
        """A call that cannot succeed, as a stale or broken page would make it."""
        self.fire("bad_call")
        if item["what"] == "prepare":
            self.call("prepare_puzzle", item["args"][0], item["args"][1], JsObject(item["args"][2]))
        else:
            live = [s for s in self.sessions if s.puzzle is not None]
            if not live:
                return
            puzzle = live[item["pick"] % len(live)].puzzle
            if item["what"] == "store":
                self.call("store_solution", puzzle, item["text"])
            elif item["what"] == "generate":
                self.call("generate_program", item["arg"])

    def run(self):
        junk = list(self.plan.get("junk", []))
        while True:
            live = [i for i, s in enumerate(self.sessions) if s.stage != "end" and not (s.spec.get("abandon") == s.stage)]
            options = live + ([-1] if junk else [])
            if not live:
                break
            if self.forced is not None and len(self.order) < len(self.forced):
                pick = self.forced[len(self.order)]
                if pick not in options:
                    pick = options[0]
            elif self.plan["mode"] == "sequential":
                pick = options[0]
            elif self.plan["mode"] == "browser" and self.order and self.order[-1] in live and \
                    self.sessions[self.order[-1]].stage in ("generate", "store") and self.rng.random() < 0.9:
                pick = self.order[-1]
            else:
                pick = self.rng.choice(options)
            self.order.append(pick)
            if pick < 0:
                self.junk(junk.pop(0))
            else:
                ses = self.sessions[pick]
                self.step(ses)
        for ses in self.sessions:
            if ses.stage != "end":
                self.fire("abandoned_session")
        return self

    def result(self) -> Dict[str, Any]:
        digest = hashlib.sha1(repr((self.history, self.order, [s.outcome for s in self.sessions])).encode("utf-8", "backslashreplace"))
        return {"outs": {s.spec["rid"]: s.outcome for s in self.sessions if s.outcome is not None}, "bad": self.bad,
                "fired": self.fired, "digest": digest.hexdigest(), "calls": self.calls, "order": self.order,
                "faulted": sorted(self.faulted), "hit": self.hit}


def main(argv: List[str]) -> int:
    with open(argv[0], encoding="utf-8") as src:
        job = json.load(src)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr
    try:
        site = tempfile.mkdtemp(prefix="site", dir=job["scratch"])
        engine.CACHE_DIR = job["cache"]
        home, problem = build(site, job["options"].get("listing", 0))
        if problem is None:
            OPTIONS[0] = page_options(site, job["scratch"]) or OPTIONS[0]
        if problem is None:
            world.control_chance(job["options"].get("listing", 0), job["options"].get("random", 0))
            try:
                bridge = Bridge(home, site)
                missing = [n for n in ("prepare_puzzle", "generate_program", "store_solution") if not callable(getattr(bridge.window, n, None))]
                if missing:
                    problem = f"the page gets no {missing}"
            except BaseException:
                problem = "the deployed entry point does not load: " + traceback.format_exc()[-700:]
        if problem:
            out.write(json.dumps({"kind": "boot", "text": problem}) + "\n")
            out.write(json.dumps({"kind": "end"}) + "\n")
            return 0
        for number, plan in enumerate(job["plans"]):
            if plan.get("pick_fault"):
                def count(_emit, plan=plan):
                    sim = Simulation(bridge, {k: v for k, v in plan.items() if k != "pick_fault"}, True).run()
                    return {str(c): sorted([os.path.relpath(f, os.getcwd()), n, k] for (f, n), k in seen.items())
                            for c, seen in sim.lines.items() if seen}

                lines = world.fork_call(count)
                rng = random.Random(plan["pick_fault"])
                del plan["pick_fault"]
                if "hang" not in lines and "died" not in lines and lines:
                    call = rng.choice(sorted(lines, key=int))
                    file, line, times = rng.choice(lines[call])
                    plan["fault"] = {"call": int(call), "file": file, "line": line, "nth": rng.choice([1, times, rng.randint(1, times)]),
                                     "error": rng.choice(["MemoryError", "RecursionError", "OSError"])}

            def go(_emit, plan=plan):
                world.reseed(plan["sched"])
                return Simulation(bridge, plan).run().result()

            res = world.fork_call(go)
            if "hang" in res:
                res = {"outs": {}, "bad": [traffic.v("hang", res["hang"][-300:])], "digest": "hang", "fired": {}, "calls": 0, "order": [], "faulted": []}
            elif "died" in res:
                raise world.HarnessError(f"run died: {res['died']}")
            out.write(json.dumps({"kind": "browser", "plan": number, "res": res, "fault": plan.get("fault")}) + "\n")
            out.flush()
        out.write(json.dumps({"kind": "end"}) + "\n")
        return 0
    except BaseException:
        out.write(json.dumps({"kind": "error", "text": traceback.format_exc()}) + "\n")
        return 3
    finally:
        out.flush()


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
