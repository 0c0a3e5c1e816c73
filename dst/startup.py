"""What one simulated process does: the real start-up or deployment build, and afterwards a look at what it would serve."""

from __future__ import annotations

import asyncio
import contextlib
import hashlib
import json
import os
import runpy
import sys
import traceback
from typing import Any, Dict, List, Optional

from . import disk, world

CODE: Dict[Any, Any] = {}  # compiled sources, shared by all forked processes


def preload():
    """Import the libraries, but nothing of the code under test."""
    import argparse  # noqa: F401
    import asyncio.base_events  # noqa: F401
    import encodings.idna  # noqa: F401
    import fcntl  # noqa: F401
    import logging.config  # noqa: F401
    import pkgutil  # noqa: F401
    import random  # noqa: F401
    import shutil  # noqa: F401
    import tempfile  # noqa: F401
    import uuid  # noqa: F401
    import _pyio  # noqa: F401

    import anyio._backends._asyncio  # noqa: F401
    import anyio.to_thread  # noqa: F401
    import clingo  # noqa: F401
    import clingo.control  # noqa: F401
    import clingo.solving  # noqa: F401
    import starlette.applications  # noqa: F401
    import starlette.config  # noqa: F401
    import starlette.middleware  # noqa: F401
    import starlette.requests  # noqa: F401
    import starlette.responses  # noqa: F401
    import starlette.routing  # noqa: F401
    import starlette.staticfiles  # noqa: F401
    import uvicorn  # noqa: F401
    import uvicorn.lifespan.on  # noqa: F401
    import uvicorn.logging  # noqa: F401
    import uvicorn.loops.auto  # noqa: F401
    import uvicorn.protocols.http.auto  # noqa: F401
    import uvicorn.protocols.websockets.auto  # noqa: F401

    from importlib.machinery import SourceFileLoader

    compile_source = SourceFileLoader.source_to_code

    def source_to_code(self, data, path, *rest, **kw):
        key = (str(path), hashlib.sha1(bytes(data)).digest() if not isinstance(data, str) else data)
        if key not in CODE:
            CODE[key] = compile_source(self, data, path, *rest, **kw)
        return CODE[key]

    SourceFileLoader.source_to_code = source_to_code
    clingo.Control = clingo.control.Control = Recorder


def warm(site: str):
    """Compile all sources once."""
    for base, _, files in os.walk(site):
        for name in files:
            if name.endswith(".py"):
                path = os.path.join(base, name)
                with open(path, "rb") as src, contextlib.suppress(SyntaxError, ValueError):
                    data = src.read()
                    CODE[path, hashlib.sha1(data).digest()] = compile(data, path, "exec", dont_inherit=True)


class Bag:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        value = Bag()
        self.__dict__[name] = value
        return value


class Nothing:
    satisfiable, unsatisfiable, exhausted, interrupted, unknown = False, True, True, False, False


NOTHING = Nothing()


class Handle:
    def __init__(self):
        self.model = None

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def wait(self, *_):
        return True

    def cancel(self):
        pass

    def resume(self):
        pass

    def get(self):
        return NOTHING

    def __iter__(self):
        return iter(())


class Recorder:
    """A search engine that finds nothing but notes the program it gets."""

    seen: List[str] = []

    def __init__(self, arguments=(), logger=None, message_limit=20):
        self.configuration = Bag()
        self.text = ""

    def add(self, *args, program: Optional[str] = None, name: str = "base", parameters=()):
        self.text += program if program is not None else args[-1]

    def ground(self, *_, **__):
        Recorder.seen.append(self.text)

    def solve(self, *_, **__):
        return Handle()

    def interrupt(self):
        pass

    def cleanup(self):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *_, **__: None


def enter(site: str):
    """Make this forked process look like a new one in the site."""
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.stdout = open(os.devnull, "w", encoding="utf-8")
    sys.stderr = sys.stdout
    os.chdir(site)
    sys.path[0:0] = [site]
    sys.dont_write_bytecode = True
    sys.path_importer_cache.clear()


def start(client: disk.Client, spec: Dict[str, Any]) -> Dict[str, Any]:
    """Start the program as its operator would."""
    import uvicorn

    enter(client.site)
    world.reseed(spec.get("random", 0))
    client.install()
    captured: Dict[str, Any] = {}

    def fake_run(app, **kwargs):
        captured["app"], captured["kwargs"] = app, kwargs

    uvicorn.run = fake_run
    sys.argv = ["main.py", *spec["argv"]]
    client.active = True
    try:
        runpy.run_path("main.py", run_name="__main__")
        if "app" not in captured:
            return {"status": "exit", "code": 0}
        config = uvicorn.Config(captured["app"], **world.serving_process(captured["app"], captured["kwargs"], client.site))
        config.load()
    except SystemExit as err:
        code = err.code
        return {"status": "exit", "code": 0 if code is None else code if isinstance(code, int) else 1}
    except BaseException:
        return {"status": "error", "text": traceback.format_exc()[-900:]}
    finally:
        client.active = False
    out: Dict[str, Any] = {"status": "up"}
    if spec.get("look"):
        out["look"] = look(config.loaded_app, spec["look"])
    return out


def look(app, wanted: Dict[str, Any]) -> Dict[str, Any]:
    """Ask the started application for pages and solves."""
    async def call(method, path, body=b""):
        sent = []
        given = [{"type": "http.request", "body": body, "more_body": False}]

        async def receive():
            return given.pop(0) if given else {"type": "http.disconnect"}

        async def send(message):
            sent.append(message)

        scope = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": "http",
                 "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "", "headers": [(b"host", b"sim")],
                 "client": ("127.0.0.1", 4000), "server": ("127.0.0.1", 8000), "state": {}}
        await app(scope, receive, send)
        return sent[0]["status"], b"".join(m.get("body", b"") for m in sent[1:])

    async def main():
        pages, solves = {}, {}
        for path in wanted.get("pages", []):
            try:
                status, body = await call("GET", path)
                pages[path] = [status, hashlib.sha1(body).hexdigest()]
            except Exception:
                pages[path] = [0, traceback.format_exc()[-300:]]
        for name, body in wanted.get("solves", []):
            del Recorder.seen[:]
            try:
                status, text = await call("POST", "/api/solve/", json.dumps(body).encode())
            except Exception:
                status, text = 0, traceback.format_exc()[-300:].encode()
            solves[name] = {"status": status, "text": text.decode("utf-8", "replace")[:200],
                            "program": hashlib.sha1("\n".join(Recorder.seen).encode()).hexdigest() if Recorder.seen else None}
        return {"pages": pages, "solves": solves}

    return asyncio.run(main())


def oracle(site: str, types: List[str], boards: Dict[str, Dict[str, Any]]) -> Dict[str, Any]:
    """Name, list entry and program of each puzzle type, each from a process that imports nothing but this type's own file."""
    out: Dict[str, Any] = {}
    for name in types:
        def one(_emit, name=name):
            import importlib

            enter(site)
            world.reseed(0)
            manager = importlib.import_module("noqx.manager")
            module = importlib.import_module(f"solver.{name}")
            found = [c for c in vars(module).values()
                     if isinstance(c, type) and issubclass(c, manager.Solver) and c is not manager.Solver and c.__module__ == module.__name__]
            if not found:
                return {"none": True}
            cls = found[-1]
            meta = {"name": cls.name, "category": cls.category, "aliases": cls.aliases, "examples": cls.examples, "parameters": cls.parameters}
            item: Dict[str, Any] = {"meta": json.loads(json.dumps(meta)), "classes": len(found)}
            board = boards.get(name)
            if board:
                puzzle = manager.prepare_puzzle(name, board["puzzle"], board["param"])
                item["program"] = hashlib.sha1(cls().solve(puzzle).encode()).hexdigest()
            return item

        res = world.fork_call(one)
        if "died" in res or "hang" in res:
            raise world.HarnessError(f"oracle for {name}: {res}")
        out[name] = res
    return out


def needed_files(site: str) -> List[str]:
    """The Python files the in-browser solver imports, found by importing them without the server's libraries."""
    def one(_emit):
        import importlib

        enter(site)
        for name in [n for n in sys.modules if n.split(".")[0] in ("clingo", "uvicorn", "starlette")]:
            del sys.modules[name]
        sys.modules["clingo"] = sys.modules["uvicorn"] = sys.modules["starlette"] = None  # type: ignore
        manager = importlib.import_module("noqx.manager")
        importlib.import_module("noqx.puzzle")
        try:
            manager.load_solvers("solver")
        except Exception:  # pylint: disable=broad-except
            pass  # the runs will tell
        out = []
        for module in list(sys.modules.values()):
            file = getattr(module, "__file__", None)
            if file and os.path.realpath(file).startswith(os.path.realpath(site) + "/"):
                out.append(os.path.relpath(os.path.realpath(file), os.path.realpath(site)))
        return {"files": sorted(out)}

    return world.fork_call(one)["files"]
