"""A search engine on simulated time.

The real engine parses, grounds and enumerates (synchronously, single-threaded, cached by program); this module
replays its answers on a simulated thread, at the times and with the failures a plan asks for, and records what the
code under test did with each search.
"""

from __future__ import annotations

import gc
import hashlib
import json
import os
import sys
from typing import Any, Dict, List, Optional, Tuple

import clingo
import clingo.control
import clingo.solving

from . import sched

RealControl = clingo.control.Control
CACHE_DIR: Optional[str] = None
CONFLICTS = 60000
ALL_MODELS = 300


class State:
    """Per-run state of the engine."""

    def __init__(self):
        self.specs: Dict[Any, Dict[str, Any]] = {}
        self.default: Dict[str, Any] = {}
        self.searches: List["Search"] = []
        self.real_solves = 0
        self.fired: Dict[str, int] = {}
        self.capture = False
        self.shuffle = None  # a generator: permute answers and the atoms within them

    def fire(self, kind: str):
        self.fired[kind] = self.fired.get(kind, 0) + 1


STATE = State()


def _spec() -> Dict[str, Any]:
    req = sched.CURRENT.get()
    return STATE.specs.get(req, STATE.default)


def _spend(secs: float):
    """Let the calling thread be busy for a while."""
    sim = sched.SIM
    if secs and sim:
        sim.busy += secs
        sim.block(lambda: False, sim.now + secs)


def _fail(where: str):
    fail = _spec().get("fail")
    if fail and fail["at"] == where:
        STATE.fire(f"engine_{where}_{fail['error']}")
        if sched.SIM:
            sched.SIM.log("engine_fault", at=where, error=fail["error"], req=sched.CURRENT.get())
        raise make_error(fail["error"])


def make_error(name: str) -> BaseException:
    return {
        "MemoryError": MemoryError(),
        "RuntimeError": RuntimeError("error in search engine"),
        "OSError": OSError(12, "Cannot allocate memory"),
        "RecursionError": RecursionError("maximum recursion depth exceeded"),
        "SystemError": SystemError("error return without exception set"),
        "TypeError": TypeError("an integer is required"),
        "AttributeError": AttributeError("'NoneType' object has no attribute 'contents'"),
    }[name]


class SimModel:
    """An answer; only valid during its callback."""

    def __init__(self, text: str, number: int, search: "Search"):
        self._text, self._number, self._search, self._valid = text, number, search, True

    def _check(self):
        if not self._valid:
            self._search.misused = True
            raise RuntimeError("model used after its callback returned")

    def __str__(self):
        self._check()
        fail = self._search.spec.get("fail")
        if fail and fail["at"] == "model" and fail.get("k", 0) == self._number - 1:
            STATE.fire(f"engine_model_{fail['error']}")
            raise make_error(fail["error"])
        return self._text

    def symbols(self, atoms: bool = False, terms: bool = False, shown: bool = False, theory: bool = False, complement: bool = False):
        self._check()
        if complement or (atoms and not shown):
            raise NotImplementedError("the simulated engine only keeps shown atoms")
        str(self)
        return [clingo.parse_term(t) for t in self._text.split(" ") if t]

    def contains(self, atom) -> bool:
        return atom in self.symbols(shown=True)

    number = property(lambda self: (self._check(), self._number)[1])
    cost = property(lambda self: [])
    priority = property(lambda self: [])
    optimality_proven = property(lambda self: False)
    @property
    def thread_id(self) -> int:
        """The engine thread that found the answer: with several threads, any of them."""
        threads = max(1, self._search.threads)
        return (self._number * 7 + self._search.index * 3 + len(self._text)) % threads

    type = property(lambda self: clingo.solving.ModelType.StableModel)

    def __repr__(self):
        return str(self)


class SimResult:
    """clingo.SolveResult."""

    def __init__(self, sat: Optional[bool], exhausted: bool, interrupted: bool):
        self.satisfiable = sat
        self.unsatisfiable = None if sat is None else not sat
        self.unknown = sat is None
        self.exhausted, self.interrupted = exhausted, interrupted

    def __str__(self):
        return "UNKNOWN" if self.unknown else ("SAT" if self.satisfiable else "UNSAT")


class Search:
    """One search: a simulated engine thread and the handle given to the code under test."""

    def __init__(self, texts: List[str], complete: bool, opts: Dict[str, Any]):
        sim = sched.SIM
        self.req = sched.CURRENT.get()
        self.spec = _spec()
        self.texts, self.complete = texts, complete
        self.opts = opts
        self.models_cap, self.threads = opts["models"], opts["threads"]
        self.program = opts["key"]
        self.on_model, self.on_finish, self.yield_ = opts["on_model"], opts["on_finish"], opts["yield_"]
        self.started = sim.now
        self.ended: Optional[float] = None
        self.end_reason: Optional[str] = None
        self.delivered: List[int] = []
        self.error: Optional[BaseException] = None
        self.misused = False
        self.cancelling = False
        self.closed = False
        self.current: Optional[SimModel] = None
        self.paused = False
        self.times, self.end_time = self._timeline()
        STATE.searches.append(self)
        self.index = len(STATE.searches) - 1
        sim.log("search_start", req=self.req, search=self.index, threads=self.threads, cap=self.models_cap,
                answers=len(texts), complete=complete)
        self.task = sim.spawn(self._run, "engine")

    def _timeline(self) -> Tuple[List[float], Optional[float]]:
        spec, n, t0 = self.spec, len(self.texts), self.started
        total = spec.get("T", 0.01)
        shape = spec.get("shape", "even")
        fracs = {
            "even": [(i + 1) / (n + 1) for i in range(n)],
            "front": [0.0 for _ in range(n)],
            "back": [1.0 for _ in range(n)],
            "burst": [(0.1 if i < n // 2 else 0.9) for i in range(n)],
            "late": [1.0 - 1e-4 * (n - i) for i in range(n)],
        }[shape]
        end = t0 + total if self.complete else None
        return [t0 + max(0.0, f) * total for f in fracs], end

    # engine thread --------------------------------------------------------------
    def _deliver(self, k: int) -> bool:
        sim = sched.SIM
        self.delivered.append(k)
        sim.log("model", search=self.index, k=k)
        self.current = SimModel(self.texts[k], k + 1, self)
        go = True
        if self.on_model is not None:
            try:
                ret = self.on_model(self.current)
                go = bool(ret or ret is None)
            except SystemExit:
                raise
            except BaseException as err:
                if isinstance(err, sched.SimDeadlock):
                    raise
                self.error = err
                sim.log("callback_error", search=self.index, error=type(err).__name__)
                go = False
        if self.yield_ and go:
            self.paused = True
            sim.block(lambda: not self.paused or self.cancelling)
            go = not self.cancelling
        self.current._valid = False
        self.current = None
        return go

    def _run(self):
        sim, fail = sched.SIM, self.spec.get("fail")
        sched.CURRENT.set(self.req)
        reason = "exhausted"
        last = sim.now
        for k, when in enumerate(self.times):
            if fail and fail["at"] == "search" and fail.get("k", 0) == k:
                break
            sim.block(lambda: self.cancelling, when)
            sim.busy += max(0.0, sim.now - last) * max(1, self.threads)
            last = sim.now
            if self.cancelling:
                # an answer may still be found between the request to stop and the stop itself
                if self.spec.get("late") and self.ended is None:
                    STATE.fire("late_model")
                    self._deliver(k)
                reason = "cancelled"
                break
            if not self._deliver(k):
                reason = "callback" if self.error is None else "callback_error"
                break
        if fail and fail["at"] == "search" and reason == "exhausted" and not self.cancelling:
            sim.block(lambda: self.cancelling, self.started + self.spec.get("T", 0.01) * fail.get("frac", 0.5))
            if not self.cancelling:
                STATE.fire(f"engine_search_{fail['error']}")
                self.error = make_error(fail["error"])
                reason = "error"
                sim.log("engine_fault", at="search", error=fail["error"], req=self.req)
        if reason == "exhausted":
            if self.end_time is None:
                sim.block(lambda: self.cancelling)
            else:
                sim.block(lambda: self.cancelling, self.end_time)
            if self.cancelling:
                reason = "cancelled"
        sim.busy += max(0.0, sim.now - last) * max(1, self.threads)
        self.end_reason = reason
        if self.on_finish is not None and self.error is None:
            try:
                self.on_finish(self._result())
            except Exception as err:
                self.error = err
        self.ended = sim.now
        sim.log("search_end", search=self.index, reason=reason, delivered=len(self.delivered))

    def _result(self) -> SimResult:
        sat = True if self.delivered else (False if self.end_reason == "exhausted" else None)
        full = self.end_reason == "exhausted" and not (self.models_cap and len(self.texts) >= self.models_cap)
        return SimResult(sat, full, self.end_reason in ("cancelled", "callback"))

    # handle ---------------------------------------------------------------------
    def running(self) -> bool:
        return self.ended is None

    def wait(self, timeout: Optional[float] = None) -> bool:
        _spend(self.spec.get("stall_wait", 0))
        sim = sched.SIM
        if timeout is None or timeout < 0:
            sim.block(lambda: self.ended is not None or self.paused)
        else:
            sim.block(lambda: self.ended is not None or self.paused, sim.now + timeout)
        return self.ended is not None or self.paused

    def _stop(self):
        self.cancelling = True
        sched.SIM.block(lambda: self.ended is not None)

    def cancel(self) -> None:
        if self.spec.get("stall_cancel"):
            _spend(self.spec["stall_cancel"])
        self._stop()

    def get(self) -> SimResult:
        sched.SIM.block(lambda: self.ended is not None)
        if self.error is not None:
            raise RuntimeError(str(self.error))
        return self._result()

    def model(self):
        sched.SIM.block(lambda: self.ended is not None or self.paused)
        return self.current

    def resume(self) -> None:
        self.paused = False

    def core(self):
        return []

    def last(self):
        return None

    def __iter__(self):
        while True:
            self.resume()
            model = self.model()
            if model is None:
                break
            yield model
        if self.error is not None:
            raise RuntimeError(str(self.error))

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self._stop()
        self.closed = True
        return False


class SimControl:
    """clingo.Control with the search on simulated time."""

    def __init__(self, arguments=(), logger=None, message_limit: int = 20):
        _spend(_spec().get("create", 0))
        _fail("create")
        self._logger = logger
        self._recorded: Optional[List[Any]] = None
        self._real = RealControl(list(arguments), self._log if logger else None, message_limit)
        self._key = hashlib.sha1(json.dumps(list(arguments)).encode())
        self._searches: List[Search] = []
        self._interrupted = False
        self.program = ""

    def _log(self, code, text):
        if self._recorded is not None:
            self._recorded.append([code.name, text])
        else:
            self._logger(code, text)

    def _tell(self, messages):
        for name, text in messages:
            if self._logger:
                self._logger(getattr(clingo.MessageCode, name), text)

    def __del__(self):
        for search in getattr(self, "_searches", ()):
            search.cancelling = True

    @property
    def configuration(self):
        return self._real.configuration

    def add(self, *args, **kwargs):
        _fail("add")
        if len(args) + len(kwargs) == 1:
            text = args[0] if args else kwargs["program"]
        else:
            text = args[2] if len(args) > 2 else kwargs["program"]
        ret = self._real.add(*args, **kwargs)
        self._key.update(repr((args, sorted(kwargs.items()))).encode("utf-8", "surrogatepass"))
        self.program += text
        return ret

    def load(self, path):
        with open(path, encoding="utf-8") as src:
            self.add("base", [], src.read())

    _ground_args = None

    def ground(self, *args, **kwargs):
        _spend(_spec().get("ground", 0))
        _fail("ground")
        # the real engine grounds now (for its errors and messages) unless this very program is known to be fine
        self._ground_args = (args, kwargs)
        key = self._key.hexdigest() + "/ground"
        messages = _cached(key)
        self._grounded = messages is None
        if messages is None:
            self._recorded = messages = []
            try:
                self._real.ground(*args, **kwargs)
            except BaseException:
                self._recorded = None
                self._tell(messages)
                raise
            self._recorded = None
            _store(key, messages)
        self._tell(messages)

    def interrupt(self):
        for search in self._searches:
            search.cancelling = True

    def _enumerate(self, cap: int, assumptions) -> Tuple[List[str], bool]:
        key = f"{self._key.hexdigest()}/{cap}/{repr(assumptions)}"
        hit = _cached(key)
        if hit is not None:
            return hit["texts"], hit["complete"]
        STATE.real_solves += 1
        self._recorded = []
        if not self._grounded and self._ground_args is not None:
            self._real.ground(*self._ground_args[0], **self._ground_args[1])
            self._grounded = True
        conf = self._real.configuration
        saved = (conf.solve.models, conf.solve.parallel_mode, conf.solve.solve_limit)
        conf.solve.models = cap if cap else ALL_MODELS
        conf.solve.parallel_mode = 1
        conf.solve.solve_limit = str(CONFLICTS)
        texts: List[str] = []
        res = self._real.solve(assumptions=assumptions, on_model=lambda m: texts.append(str(m)))
        self._recorded = None
        conf.solve.models, conf.solve.parallel_mode, conf.solve.solve_limit = saved
        complete = bool(res.exhausted) or bool(cap and len(texts) >= cap)
        _store(key, {"texts": texts, "complete": complete})
        return texts, complete

    _grounded = False

    def solve(self, assumptions=(), on_model=None, on_unsat=None, on_statistics=None, on_finish=None, on_core=None,
              yield_: bool = False, async_: bool = False, **_):
        _fail("solve")
        conf = self._real.configuration
        cap = _spec().get("cap", int(str(conf.solve.models)))
        threads = int(str(conf.solve.parallel_mode).split(",", maxsplit=1)[0])
        if STATE.shuffle is not None and 0 < cap < ALL_MODELS:
            # another engine may find any of the answers first
            texts, complete = self._enumerate(0, list(assumptions))
            texts = _shuffled(texts)
            STATE.fire("answer_order_permuted")
            if len(texts) >= cap:
                texts, complete = texts[:cap], True
        else:
            texts, complete = self._enumerate(cap, list(assumptions))
        only = _spec().get("only")
        if only is not None:
            texts = texts[only:only + 1]
        if STATE.shuffle is not None:
            texts = [" ".join(_shuffled(t.split(" "))) if t else t for t in texts]
        opts = {"models": cap, "threads": threads, "key": self._key.hexdigest(), "on_model": on_model,
                "on_finish": on_finish, "yield_": yield_}
        search = Search(texts, complete, opts)
        search.owner = sys._getframe(1).f_code.co_filename
        if STATE.capture:
            search.program_text = self.program
        self._searches.append(search)
        if yield_ or async_:
            return search
        sched.SIM.block(lambda: search.ended is not None)
        if search.error is not None:
            raise search.error
        return search._result()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return getattr(self._real, name)


def _shuffled(items):
    items = list(items)
    STATE.shuffle.shuffle(items)
    return items


# cache of real enumerations, shared by the runs of one check ----------------------
_MEM: Dict[str, Any] = {}


def _path(key: str) -> str:
    return os.path.join(CACHE_DIR, hashlib.sha1(key.encode()).hexdigest())


def _cached(key: str):
    if key in _MEM:
        return _MEM[key]
    if CACHE_DIR is None:
        return None
    try:
        with open(_path(key), encoding="utf-8") as src:
            val = json.load(src)
    except (OSError, ValueError):
        return None
    _MEM[key] = val
    return val


def _store(key: str, val):
    _MEM[key] = val
    if CACHE_DIR is not None:
        temp = f"{_path(key)}.{os.getpid()}"
        with open(temp, "w", encoding="utf-8") as out:
            json.dump(val, out)
        os.replace(temp, _path(key))


def install():
    """Put the simulated engine in the place of the real one."""
    clingo.Control = clingo.control.Control = SimControl
    gc.disable()


def enumerate_program(text: str, options: str) -> Tuple[List[str], bool, int]:
    """The answers of a program under the page's engine options (models capped), whether these are all, and how many the page asks for."""
    words, wanted = [], 1
    for word in options.split():
        if word.startswith("--models="):
            wanted = int(word[9:])
        elif word.lstrip("-").isdigit() and not word.startswith("-"):
            wanted = int(word)
        else:
            words.append(word)
    key = f"browser/{hashlib.sha1((options + chr(0) + text).encode('utf-8', 'surrogatepass')).hexdigest()}"
    hit = _cached(key)
    if hit is None:
        ctl = RealControl(["--warn=none", *words])
        conf = ctl.configuration
        conf.solve.models, conf.solve.solve_limit = ALL_MODELS, str(CONFLICTS)
        ctl.add("base", [], text)
        ctl.ground()
        texts: List[str] = []
        res = ctl.solve(on_model=lambda m: texts.append(str(m)))
        hit = {"texts": texts, "complete": bool(res.exhausted)}
        _store(key, hit)
    return hit["texts"], hit["complete"], wanted
