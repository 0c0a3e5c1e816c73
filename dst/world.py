"""Boots the real application inside the simulator and executes planned runs, each in a forked child."""

from __future__ import annotations

import contextlib
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import resource
import runpy
import shutil
import signal
import struct
import sys
import traceback
from typing import Any, Callable, Dict, List, Optional

from . import sched

REPO = os.environ.get("NOQX_REPO", "/repo")
CPU_LIMIT = 120
WALL_LIMIT = 400


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class BootFailure(Exception):
    """The program did not come up."""


class RunEnd(BaseException):
    """Leaves a run early with a final verdict."""


def build_site(path: str):
    """A working directory for the server: links to the code, a copy of what it writes."""
    os.makedirs(path, exist_ok=True)
    for name in sorted(os.listdir(REPO)):
        link = os.path.join(path, name)
        if name not in ("penpa-edit", "tests", "dist", "build", "pyscript.json") and not name.startswith((".", "__")) and not os.path.lexists(link):
            os.symlink(os.path.join(REPO, name), link)
    shutil.copytree(os.path.join(REPO, "penpa-edit"), os.path.join(path, "penpa-edit"), dirs_exist_ok=True)


class World:
    """The booted application."""

    def __init__(self):
        self.config = None
        self.app = None
        self.uvicorn_args: Dict[str, Any] = {}
        self.state = None  # engine state of the current run
        self.loop = None
        self.conns: List[Any] = []
        self.gone = False

    # boot -----------------------------------------------------------------------
    def boot(self, site: str, argv: List[str], options: Optional[Dict[str, Any]] = None):
        """Start the server as an operator would, up to the point where it would open its socket."""
        options = options or {}
        os.chdir(site)
        control_chance(options.get("listing", 0), options.get("random", 0))
        control_host(options.get("cpus", 4))
        self.padding = [bytearray(random.Random(options["padding"]).randrange(1, 4000)) for _ in range(options["padding"])] \
            if options.get("padding") else None
        sys.path[0:0] = [site]
        sys.dont_write_bytecode = True
        sched.PREFIXES = tuple({REPO + "/", os.path.realpath(REPO) + "/", site + "/", os.path.realpath(site) + "/"})
        sched.install()
        from . import engine

        engine.install()
        self.state = engine.STATE
        import uvicorn

        captured: Dict[str, Any] = {}

        def fake_run(app, **kwargs):
            captured["app"], captured["kwargs"] = app, kwargs

        real_run, uvicorn.run = uvicorn.run, fake_run
        real_argv, sys.argv = sys.argv, ["main.py", *argv]
        err = sys.stderr
        try:
            sys.stderr = open(os.devnull, "w", encoding="utf-8")
            runpy.run_path("main.py", run_name="__main__")
            if "app" not in captured:
                raise BootFailure(f"main.py {' '.join(argv)} ended without starting the server")
            self.uvicorn_args = captured["kwargs"]
            self.config = uvicorn.Config(captured["app"], **serving_process(captured["app"], captured["kwargs"], site))
            self.config.load()
        except BootFailure:
            raise
        except BaseException as failure:
            raise BootFailure(f"main.py {' '.join(argv)} does not come up: {traceback.format_exc()[-600:]}") from failure
        finally:
            uvicorn.run = real_run
            sys.argv = real_argv
            sys.stderr = err
        self.app = self.config.loaded_app
        self.config.loaded_app = self._tagged(self.app)
        logging.disable(logging.CRITICAL)
        # libraries that are otherwise imported in the middle of runs
        import anyio._backends._asyncio  # noqa: F401
        import anyio.to_thread  # noqa: F401
        import uvicorn.lifespan.on  # noqa: F401
        import encodings.idna  # noqa: F401

    @staticmethod
    def _tagged(app):
        async def tagged(scope, receive, send):
            if scope["type"] == "http":
                for name, value in scope["headers"]:
                    if name == b"x-sim-id":
                        sched.CURRENT.set(value.decode("latin-1"))
            await app(scope, receive, send)

        return tagged

    def make_protocol(self):
        return self.config.http_protocol_class(self.config, self.server_state, self.lifespan_state, _loop=self.loop)

    # one run ----------------------------------------------------------------------
    def execute(self, plan: Dict[str, Any]) -> "Run":
        """Run a plan in this process (a forked child)."""
        import asyncio

        from uvicorn.lifespan.on import LifespanOn
        from uvicorn.server import ServerState

        from . import engine, net

        sim = sched.SIM = sched.Sim(plan.get("sched", 0), plan.get("forced"), plan.get("preempt", 0.0))
        run = Run(self, sim, plan)
        self.run = run
        state = self.state
        state.specs = {str(k): v for k, v in plan.get("engine", {}).items()}
        state.default = plan.get("engine_default", {})
        state.shuffle = random.Random(plan["shuffle"]) if plan.get("shuffle") else None
        sim.wall_offset = plan.get("wall_offset", 0.0)
        reseed(plan.get("random", plan.get("sched", 0)))
        hooks = [LineFault(plan["line_fault"], run)] if plan.get("line_fault") else []
        hooks += [LineFault(spec, run) for spec in plan.get("pauses", [])]
        if hooks:
            sim.line_hook = hooks[0] if len(hooks) == 1 else lambda frame: [hook(frame) for hook in hooks]
        elif plan.get("line_count"):
            run.lines = {}
            sim.line_hook = lambda frame: run.count_line(frame)
        self.loop = loop = net.VirtualLoop()
        asyncio.set_event_loop(loop)
        self.server_state = ServerState()
        self.server_state.total_requests = plan.get("age", 0)
        if plan.get("age"):
            state.fire("aged_server")
        self.conns = []
        for jump in plan.get("wall_jumps", []):
            sim.at(sim.now + jump["at"], lambda j=jump: self._jump(j["by"]))

        async def main():
            sim.trace_here()
            lifespan = LifespanOn(self.config)
            await lifespan.startup()
            if self.config.limit_max_requests is not None:
                loop.call_later(0.1, self._tick)
            if lifespan.should_exit:
                raise HarnessError("lifespan start-up failed")
            self.lifespan_state = lifespan.state
            self.done = loop.create_future()
            for number, cplan in enumerate(plan["conns"]):
                conn = net.Connection(self, number, cplan)
                self.conns.append(conn)
                conn.start()
            try:
                await asyncio.wait_for(self.done, plan.get("horizon", 5000.0))
            except asyncio.TimeoutError:
                run.stuck = True
                sim.log("horizon")
            await asyncio.sleep(plan.get("grace", 2.0))

        sim.on_deadlock = run.deadlocked
        try:
            loop.run_until_complete(main())
        finally:
            sys.settrace(None)
        return run

    def _jump(self, by: float):
        sched.SIM.wall_offset += by
        self.state.fire("wall_clock_jump")
        sched.SIM.log("wall_jump", by=by)

    def _tick(self):
        """As uvicorn: a server that has reached its number of requests ends."""
        if self.server_state.total_requests >= self.config.limit_max_requests:
            self.gone = True
            for conn in self.conns:
                if conn.transport:
                    conn.transport.close()
        else:
            self.loop.call_later(0.1, self._tick)

    def check_done(self):
        if self.done.done():
            return
        if len(self.conns) and all(c.over() for c in self.conns):
            self.done.set_result(None)

    def on_reply(self, conn, pos: int, reply):
        self.run.running_at_reply.append((conn.items[pos][0] if pos < len(conn.items) else None,
                                          [s.index for s in self.state.searches if s.running()]))


PROCESS_OPTIONS = ("reload", "workers", "reload_dirs", "reload_includes", "reload_excludes", "reload_delay")


def serving_process(app: Any, kwargs: Dict[str, Any], site: str) -> Dict[str, Any]:
    """What uvicorn does before it loads the application: with reload or workers, another process serves.

    Such a process is a new interpreter with the same arguments, in which the main module runs under another name.
    """
    if kwargs.get("reload") or (kwargs.get("workers") or 1) > 1:
        if not isinstance(app, str):
            sys.exit(1)  # uvicorn: "You must pass the application as an import string to enable 'reload' or 'workers'."
        roots = (site + "/", os.path.realpath(site) + "/")
        for name in [n for n, mod in sys.modules.items() if str(getattr(mod, "__file__", "") or "").startswith(roots)]:
            del sys.modules[name]
        runpy.run_path("main.py", run_name="__mp_main__")
    return {k: v for k, v in kwargs.items() if k not in PROCESS_OPTIONS}


def control_chance(listing: int, seed: Any):
    """Put directory orders and random sources under control."""
    order = random.Random(f"listing/{listing}")
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(*args):
        names = sorted(real_listdir(*args))
        if listing:
            order.shuffle(names)
        return names

    class Scan:
        def __init__(self, *args):
            with real_scandir(*args) as entries:
                self.items = sorted(entries, key=lambda e: e.name)
            if listing:
                order.shuffle(self.items)
            self.left = iter(self.items)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.left)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass

        def close(self):
            pass

    os.listdir, os.scandir = listdir, Scan
    reseed(seed)


def control_host(cpus: int):
    """The machine's number of processors, as programs see it."""
    import multiprocessing

    os.cpu_count = multiprocessing.cpu_count = lambda: cpus
    os.sched_getaffinity = lambda _pid: set(range(cpus))
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count


def reseed(seed: Any):
    random.seed(f"process/{seed}")
    source = random.Random(f"urandom/{seed}")
    os.urandom = random._urandom = source.randbytes


def site_of(frame) -> str:
    name = frame.f_code.co_filename
    for prefix in sched.PREFIXES:
        if name.startswith(prefix):
            return name[len(prefix):]
    return name


class LineFault:
    """Raises an error, or lets time pass, when the code under test reaches a line for the n-th time for one request."""

    def __init__(self, spec: Dict[str, Any], run: "Run"):
        self.spec, self.run, self.seen, self.hit = spec, run, 0, False

    def __call__(self, frame):
        spec = self.spec
        if frame.f_lineno != spec["line"] or self.hit or str(sched.CURRENT.get()) != spec["req"]:
            return
        if site_of(frame) != spec["file"]:
            return
        self.seen += 1
        if self.seen == spec["nth"]:
            from . import engine

            self.hit = True
            if "for" in spec:
                sim = sched.SIM
                engine.STATE.fire("line_pause")
                self.run.pauses.append((spec["req"], sim.cur.number, spec["for"]))
                sim.log("line_pause", req=spec["req"], file=spec["file"], line=spec["line"], secs=spec["for"])
                if spec.get("busy"):
                    sim.busy += spec["for"]
                sim.block(lambda: False, sim.now + spec["for"])
                return
            self.run.line_fault_hit = spec
            if any(str(s.req) == spec["req"] and s.running() and s.owner == frame.f_code.co_filename for s in engine.STATE.searches):
                self.run.excused.add(spec["req"])  # possibly in the very code that stops the search: nothing could be done better
            engine.STATE.fire(f"line_{spec['error']}")
            sched.SIM.log("line_fault", req=spec["req"], file=spec["file"], line=spec["line"], error=spec["error"])
            raise engine.make_error(spec["error"])


class Run:
    """What happened in a run; the judges' input."""

    def __init__(self, world: World, sim: sched.Sim, plan: Dict[str, Any]):
        self.world, self.sim, self.plan = world, sim, plan
        self.stuck = False
        self.deadlock: Optional[str] = None
        self.running_at_reply: List[Any] = []
        self.finish: Optional[Callable[["Run"], None]] = None
        self.line_fault_hit: Optional[Dict[str, Any]] = None
        self.lines: Dict[Any, int] = {}
        self.pauses: List[Any] = []
        self.excused: set = set()

    def paused(self, rid: Any) -> float:
        """For how long the processing of a request, or the event loop, was held up."""
        return sum(secs for req, task, secs in self.pauses if str(req) == str(rid) or task == 0)

    def count_line(self, frame):
        key = (site_of(frame), frame.f_lineno, frame.f_code.co_name)
        self.lines[key] = self.lines.get(key, 0) + 1

    def deadlocked(self, text: str):
        self.deadlock = text
        self.sim.log("deadlock", text=text)
        if self.finish:
            self.finish(self)
        raise sched.SimDeadlock(text)

    @property
    def conns(self):
        return self.world.conns

    @property
    def searches(self):
        return self.world.state.searches

    def digest(self) -> str:
        return hashlib.sha1(repr(self.sim.history).encode("utf-8", "backslashreplace")).hexdigest()

    def trace(self) -> Dict[str, int]:
        return {str(k): v for k, v in self.sim.taken.items()}


def fork_call(func: Callable[[Callable[[Any], None]], Any], cpu: int = CPU_LIMIT) -> Any:
    """Run func in a forked child; return what it passes to emit() or returns.

    {"hang": text} when the child used up its processor time, {"died": text} when it ended without a result.
    """
    read_fd, write_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(read_fd)
        status = 0

        def emit(value):
            with os.fdopen(write_fd, "wb") as out:
                out.write(pickle.dumps(value))
            os._exit(0)

        try:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

            def on_cpu(_sig, frame):
                emit({"hang": "".join(traceback.format_stack(frame)[-6:])})

            signal.signal(signal.SIGXCPU, on_cpu)
            emit(func(emit))
        except BaseException:
            with contextlib.suppress(BaseException):
                emit({"error": traceback.format_exc()})
            status = 1
        os._exit(status)
    os.close(write_fd)
    chunks = []
    old = signal.signal(signal.SIGALRM, lambda *_: os.kill(pid, signal.SIGKILL))
    signal.alarm(WALL_LIMIT)
    try:
        with os.fdopen(read_fd, "rb") as src:
            while True:
                chunk = src.read(65536)
                if not chunk:
                    break
                chunks.append(chunk)
        _, status = os.waitpid(pid, 0)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    data = b"".join(chunks)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU,):
            return {"hang": "processor time used up"}
        return {"died": f"wait status {status}"}
    value = pickle.loads(data)
    if isinstance(value, dict) and set(value) == {"error"}:
        raise HarnessError(value["error"])
    return value
