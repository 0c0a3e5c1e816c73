"""Simulated disk: start-ups run in forked processes whose every file operation is granted, delayed, failed or torn by a coordinator.

The coordinator decides which process moves next, what each operation does, and what is left on the disk when the machine loses power.
"""

from __future__ import annotations

import contextlib
import errno
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
from collections import Counter
from typing import Any, Callable, Dict, List, Optional, Sequence, Set, Tuple

MUTATING = {"open_w", "write", "fsync", "truncate", "close_w", "rename", "unlink", "mkdir", "rmdir", "link", "chmod", "utime"}
WAIT = 120.0


class Died(Exception):
    """A process did something the coordinator cannot follow."""


# the process's side ----------------------------------------------------------------------------------------------------------

class Client:
    """Replaces the file operations of this process by ones that ask first."""

    def __init__(self, site: str, number: int, listing: int, down: int, up: int, real: Dict[str, Any], log_data: bool):
        self.site, self.down, self.up, self.real, self.log_data = os.path.realpath(site), down, up, real, log_data
        self.active = False
        self.fds: Dict[int, Tuple[str, bool]] = {}
        self.number = number
        self.order = random.Random(f"listing/{listing}")
        self.listing = listing

    # talking ----------------------------------------------------------------------------------------------
    def send(self, value):
        data = pickle.dumps(value)
        data = struct.pack("<I", len(data)) + data
        while data:
            data = data[self.real["write"](self.up, data):]

    def receive(self):
        def exactly(size):
            buf = b""
            while len(buf) < size:
                part = self.real["read"](self.down, size - len(buf))
                if not part:
                    os._exit(99)
                buf += part
            return buf

        return pickle.loads(exactly(struct.unpack("<I", exactly(4))[0]))

    def ask(self, kind: str, path: str, **more) -> Dict[str, Any]:
        self.send(("op", {"kind": kind, "path": path, **more}))
        verdict = self.receive()
        what = verdict["do"]
        if what == "kill" or (what == "kill_after" and kind in ("read", "listdir", "sleep", "lock")):
            os._exit(137)
        if what == "interrupt":
            raise KeyboardInterrupt
        if what == "error":
            code = getattr(errno, verdict["errno"])
            raise OSError(code, os.strerror(code), path)
        return verdict

    def after(self, verdict):
        if verdict["do"] == "kill_after":
            os._exit(137)
        if verdict["do"] == "error_after":
            code = getattr(errno, verdict["errno"])
            raise OSError(code, os.strerror(code))

    # what is ours -----------------------------------------------------------------------------------------
    def ours(self, path) -> Optional[str]:
        if not self.active:
            return None
        if isinstance(path, int):
            return None
        try:
            text = os.fsdecode(path)
        except TypeError:
            return None
        full = os.path.normpath(os.path.join(self.real["getcwd"](), text))
        for base in (self.site, ):
            if full == base or full.startswith(base + "/"):
                name = os.path.relpath(full, base)
                return None if "__pycache__" in name else name
        return None

    def install(self, simulate: bool = True):
        import _pyio
        import builtins
        import importlib._bootstrap_external as boot
        import io
        import shutil

        real, cli = self.real, self

        def sim_open(path, flags, mode=0o777, *, dir_fd=None):
            name = cli.ours(path) if dir_fd is None else None
            if name is None:
                return real["open"](path, flags, mode, dir_fd=dir_fd)
            writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            verdict = cli.ask("open_w" if writing else "open_r", name, flags=flags, exists=real["exists"](path))
            fd = real["open"](path, flags, mode)
            cli.fds[fd] = (name, writing)
            cli.after(verdict)
            return fd

        def sim_write(fd, data):
            hit = cli.fds.get(fd)
            if hit is None:
                return real["write"](fd, data)
            data = bytes(data)
            at = real["fstat"](fd).st_size if real["flags"](fd) & os.O_APPEND else real["lseek"](fd, 0, os.SEEK_CUR)
            verdict = cli.ask("write", hit[0], at=at, size=len(data), data=data if cli.log_data else None)
            if verdict["do"] == "torn":
                real["write"](fd, data[:verdict["keep"]])
                os._exit(137)
            if verdict["do"] == "short":
                return real["write"](fd, data[:verdict["keep"]])
            if verdict["do"] == "full":  # the disk fills up in the middle of the write
                if verdict["keep"]:
                    return real["write"](fd, data[:verdict["keep"]])
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            done = 0
            while done < len(data):
                done += real["write"](fd, data[done:])
            cli.after(verdict)
            return done

        def sim_read(fd, size):
            hit = cli.fds.get(fd)
            if hit is None:
                return real["read"](fd, size)
            verdict = cli.ask("read", hit[0], size=size)
            if verdict["do"] == "short":
                size = max(1, min(size, verdict["keep"]))
            return real["read"](fd, size)

        def sim_close(fd):
            hit = cli.fds.pop(fd, None)
            if hit is None or not cli.active:
                return real["close"](fd)
            verdict = None
            try:
                verdict = cli.ask("close_w" if hit[1] else "close_r", hit[0])
            finally:
                real["close"](fd)
            cli.after(verdict)

        def on_fd(kind, func):
            def call(fd, *args):
                hit = cli.fds.get(fd) if isinstance(fd, int) else None
                if hit is None:
                    return func(fd, *args)
                verdict = cli.ask(kind, hit[0], args=[a for a in args if isinstance(a, int)])
                out = func(fd, *args)
                cli.after(verdict)
                return out
            return call

        def on_path(kind, func):
            def call(path, *args, **kw):
                name = cli.ours(path) if kw.get("dir_fd") is None else None
                if name is None:
                    return func(path, *args, **kw)
                verdict = cli.ask(kind, name, args=[a for a in args if isinstance(a, int)])
                out = func(path, *args, **kw)
                cli.after(verdict)
                return out
            return call

        def on_two(kind, func):
            def call(src, dst, **kw):
                one, two = cli.ours(src), cli.ours(dst)
                if one is None and two is None:
                    return func(src, dst, **kw)
                verdict = cli.ask(kind, one or "?", to=two or "?")
                out = func(src, dst, **kw)
                cli.after(verdict)
                return out
            return call

        def names_of(path):
            names = sorted(real["listdir"](path))
            if cli.listing:
                cli.order.shuffle(names)
            return names

        def sim_listdir(path="."):
            name = cli.ours(path)
            if name is not None:
                cli.ask("listdir", name)
            return names_of(path)

        class Scan:
            def __init__(self, path="."):
                name = cli.ours(path)
                if name is not None:
                    cli.ask("listdir", name)
                with real["scandir"](path) as entries:
                    items = sorted(entries, key=lambda e: e.name)
                if cli.listing:
                    cli.order.shuffle(items)
                self.left = iter(items)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.left)

            def __enter__(self):
                return self

            def __exit__(self, *_):
                pass

            def close(self):
                pass

        def sim_sleep(_seconds):
            if cli.active:
                cli.ask("sleep", "")

        def sim_flock(fd, how, *rest):
            import fcntl

            number = fd if isinstance(fd, int) else fd.fileno()
            hit = cli.fds.get(number)
            if hit is None or not cli.active:
                return real["flock"](number, how)
            while True:
                cli.ask("lock", hit[0])
                try:
                    return real["flock"](number, how | fcntl.LOCK_NB)
                except BlockingIOError:
                    if how & fcntl.LOCK_NB:
                        raise

        import fcntl

        self.patched = {
            "open": sim_open, "write": sim_write, "read": sim_read, "close": sim_close,
            "fsync": on_fd("fsync", real["fsync"]), "fdatasync": on_fd("fsync", real["fdatasync"]),
            "ftruncate": on_fd("truncate", real["ftruncate"]),
            "unlink": on_path("unlink", real["unlink"]), "remove": on_path("unlink", real["unlink"]),
            "mkdir": on_path("mkdir", real["mkdir"]), "rmdir": on_path("rmdir", real["rmdir"]),
            "truncate": on_path("truncate", real["truncate"]),
            "replace": on_two("rename", real["replace"]), "rename": on_two("rename", real["rename"]),
            "link": on_two("link", real["link"]),
            "listdir": sim_listdir, "scandir": Scan,
            "getpid": lambda: 5000 + self.number,
        }
        for name, func in self.patched.items():
            setattr(os, name, func)
        for name in ("sendfile", "copy_file_range", "splice", "pread", "pwrite", "preadv", "pwritev", "readv", "writev"):
            if hasattr(os, name):
                delattr(os, name)
        shutil._use_fd_functions = False
        shutil._USE_CP_SENDFILE = False
        shutil._HAS_FCOPYFILE = False
        builtins.open = io.open = _pyio.open
        io.FileIO = _pyio.FileIO
        io.open_code = lambda path: _pyio.open(path, "rb")
        fcntl.flock = sim_flock
        fcntl.lockf = sim_flock
        time.sleep = sim_sleep
        self.one_after_another()
        boot._io = _IoProxy(io.open_code)
        boot._os = _OsProxy(boot._os, {"listdir": sim_listdir, "open": sim_open, "replace": self.patched["replace"], "unlink": self.patched["unlink"],
                                       "mkdir": self.patched["mkdir"]})


    def one_after_another(self):
        """Threads of a start-up run where they are started (one of their legal schedules), so that a run repeats exactly."""
        import concurrent.futures as cf
        import threading

        cli, start, join, submit = self, threading.Thread.start, threading.Thread.join, cf.ThreadPoolExecutor.submit

        def sim_start(thread):
            if not cli.active or thread.daemon:
                return start(thread)
            thread._dst_done = True
            try:
                thread.run()
            except Exception:  # as threading.excepthook would
                traceback.print_exc()

        def sim_submit(pool, func, /, *args, **kwargs):
            if not cli.active:
                return submit(pool, func, *args, **kwargs)
            future = cf.Future()
            future.set_running_or_notify_cancel()
            try:
                future.set_result(func(*args, **kwargs))
            except BaseException as err:
                future.set_exception(err)
            return future

        threading.Thread.start, cf.ThreadPoolExecutor.submit = sim_start, sim_submit
        threading.Thread.join = lambda thread, timeout=None: None if getattr(thread, "_dst_done", False) else join(thread, timeout)


class _IoProxy:
    def __init__(self, open_code):
        import _io

        self._io, self.open_code = _io, open_code

    def __getattr__(self, name):
        import io

        return io.FileIO if name == "FileIO" else getattr(self._io, name)


class _OsProxy:
    def __init__(self, base, patched):
        self.__dict__.update(patched)
        self.__dict__["_base"] = base

    def __getattr__(self, name):
        return getattr(self._base, name)


def real_functions() -> Dict[str, Any]:
    import fcntl

    names = ("open", "write", "read", "close", "fsync", "fdatasync", "ftruncate", "truncate", "unlink", "mkdir", "rmdir", "replace", "rename",
             "link", "listdir", "scandir", "fstat", "lseek", "getcwd")
    real = {name: getattr(os, name) for name in names}
    real["exists"] = os.path.lexists
    real["flock"] = fcntl.flock
    real["flags"] = lambda fd: fcntl.fcntl(fd, fcntl.F_GETFL)
    return real


# the coordinator's side ------------------------------------------------------------------------------------------------------

class Proc:
    def __init__(self, pid, down, up, spec):
        self.pid, self.down, self.up, self.spec = pid, down, up, spec
        self.pending: Optional[Dict[str, Any]] = None
        self.result: Optional[Dict[str, Any]] = None
        self.killed = False
        self.ops = 0
        self.hit: List[str] = []

    def alive(self):
        return self.result is None and not self.killed

    def _exactly(self, size, deadline):
        buf = b""
        while len(buf) < size:
            ready, _, _ = select.select([self.up], [], [], max(0.0, deadline - time.monotonic()))
            if not ready:
                raise TimeoutError
            part = os.read(self.up, size - len(buf))
            if not part:
                return None
            buf += part
        return buf

    def listen(self):
        """Wait for the process's next operation or its end."""
        deadline = time.monotonic() + WAIT
        try:
            head = self._exactly(4, deadline)
            body = head and self._exactly(struct.unpack("<I", head)[0], deadline)
        except TimeoutError:
            os.kill(self.pid, signal.SIGKILL)
            self.result = {"status": "hang"}
            return
        if not body:
            self.result = {"status": "vanished"}
            return
        what, value = pickle.loads(body)
        if what == "op":
            self.pending = value
            return
        self.result = value

    def answer(self, verdict):
        self.pending = None
        data = pickle.dumps(verdict)
        os.write(self.down, struct.pack("<I", len(data)) + data)

    def wait(self):
        """The process was told to die."""
        deadline = time.monotonic() + WAIT
        while os.waitpid(self.pid, os.WNOHANG)[0] == 0:
            if time.monotonic() > deadline:
                os.kill(self.pid, signal.SIGKILL)
                raise RuntimeError("a process did not die when it was told to")
            time.sleep(0.0005)

    def end(self):
        with contextlib.suppress(OSError):
            os.kill(self.pid, signal.SIGKILL)
        for fd in (self.down, self.up):
            with contextlib.suppress(OSError):
                os.close(fd)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(self.pid, 0)


def spawn(site: str, number: int, spec: Dict[str, Any], body: Callable[[Client, Dict[str, Any]], Dict[str, Any]], log_data: bool) -> Proc:
    down_r, down_w = os.pipe()
    up_r, up_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(down_w)
        os.close(up_r)
        try:
            client = Client(site, number, spec.get("listing", 0), down_r, up_w, real_functions(), log_data)
            try:
                result = body(client, spec)
            except BaseException:
                result = {"status": "harness", "text": traceback.format_exc()[-1500:]}
            client.active = False
            client.send(("done", result))
        finally:
            os._exit(0)
    os.close(down_r)
    os.close(up_w)
    return Proc(pid, down_w, up_r, spec)


def decide(fault: Dict[str, Any], op: Dict[str, Any]) -> Optional[Dict[str, Any]]:
    """The verdict a fault gives for an operation, or None where it makes no sense there."""
    kind, how = op["kind"], fault["how"]
    size = op.get("size", 0)
    if how in ("kill", "kill_after", "interrupt"):
        return {"do": how}
    if how in ("power", "power_after"):
        return {"do": "kill" if how == "power" else "kill_after"}
    if how == "torn":
        return {"do": "torn", "keep": int(size * fault["part"])} if kind == "write" else {"do": "kill"}
    if how == "short":
        return {"do": "short", "keep": max(1, int(size * fault["part"]))} if kind in ("write", "read") and size > 1 else None
    if how == "ENOSPC":
        if kind == "write":
            return {"do": "full", "keep": int(size * fault["part"])}
        return {"do": "error", "errno": how} if kind in ("open_w", "mkdir", "fsync", "rename", "link") else None
    if how in ("EIO", "EDQUOT"):
        if kind in ("close_w", "close_r"):
            return {"do": "error", "errno": how}
        return {"do": "error", "errno": how} if kind not in ("sleep", "lock") else None
    if how in ("EACCES", "EMFILE", "EROFS"):
        if how == "EROFS" and kind not in MUTATING:
            return None
        return {"do": "error", "errno": how} if kind in ("open_w", "open_r", "listdir", "rename", "mkdir", "unlink", "rmdir") else None
    raise ValueError(how)


class Event:
    """Runs some processes at the same time, from their start to their ends."""

    def __init__(self, site: str, procs: List[Dict[str, Any]], faults: List[Dict[str, Any]], sched: int, body, record: Optional[List] = None,
                 hot: Sequence[str] = ()):
        self.hot = hot
        self.counts: Counter = Counter()
        self.site, self.faults, self.body = site, faults, body
        self.rng = random.Random(f"event/{sched}")
        self.log: List[Tuple[int, Dict[str, Any], Dict[str, Any]]] = []
        self.fired: Dict[str, int] = {}
        self.power: Optional[Dict[str, Any]] = None
        self.switches = 0
        self.steps = 0
        self.record = record
        self.with_data = any(f["how"].startswith("power") for f in faults)
        self.specs = procs

    def run(self) -> List[Dict[str, Any]]:
        procs = [spawn(self.site, i, spec, self.body, self.with_data) for i, spec in enumerate(self.specs)]
        last = None
        sticky: Dict[int, Dict[str, Any]] = {}
        try:
            for proc in procs:
                proc.listen()
            stay = self.rng.choice([0.0, 0.5, 0.9, 0.98])  # how often one process goes on before another one moves
            meet = self.rng.random() < 0.6  # processes wait for each other before they touch the files they share
            met: Dict[int, Set[str]] = {i: set() for i in range(len(procs))}
            while True:
                live = [i for i, p in enumerate(procs) if p.alive()]
                if not live:
                    break
                if meet and len(live) > 1:
                    early = {i: self.shared(procs[i].pending) for i in live}
                    early = {i: name for i, name in early.items() if name and name not in met[i]}
                    if len(early) == len(live):
                        for i, name in early.items():
                            met[i].add(name)
                    else:
                        live = [i for i in live if i not in early]
                pick = last if last in live and self.rng.random() < stay else self.rng.choice(live)
                if last is not None and pick != last:
                    self.switches += 1
                last = pick
                proc = procs[pick]
                op = proc.pending
                verdict = self.verdict(pick, proc, op, sticky)
                self.log.append((pick, op, verdict))
                self.steps += 1
                if self.steps > 60000:
                    raise Died("a start-up performs file operations without end")
                if verdict["do"] in ("kill", "kill_after", "torn"):
                    proc.answer(verdict)
                    proc.wait()
                    proc.killed = True
                    proc.result = {"status": "killed"}
                    if self.power:
                        break
                    continue
                proc.answer(verdict)
                proc.listen()
        except Died as err:
            for proc in procs:
                if proc.alive():
                    proc.result = {"status": "hang", "text": str(err)}
        finally:
            for proc in procs:
                if proc.alive():
                    with contextlib.suppress(OSError):
                        os.kill(proc.pid, signal.SIGKILL)
                    proc.killed = True
                    proc.result = {"status": "killed"}
                elif proc.result and proc.result.get("status") == "hang":
                    with contextlib.suppress(OSError):
                        os.kill(proc.pid, signal.SIGKILL)
                proc.end()
        return [{**p.result, "hit": p.hit, "ops": p.ops} for p in procs]

    def reached(self, pick: int, at: List[Any], op: Dict[str, Any]) -> bool:
        """Whether this is the n-th operation of that kind on that file."""
        path = at[1].replace(".5000.", f".{5000 + pick}.")
        return op["kind"] == at[0] and op["path"] == path and self.counts[pick, at[0], path] == at[2]

    def shared(self, op) -> str:
        """The generated file an operation is about, if it is about one."""
        return next((name for name in self.hot if op["path"].startswith(name)), "") if op["kind"] in ("open_w", "open_r", "rename") else ""

    def verdict(self, pick, proc, op, sticky):
        number = proc.ops
        proc.ops += 1
        self.counts[pick, op["kind"], op["path"]] += 1
        if self.record is not None:
            self.record.append((pick, op["kind"], op["path"]))
        for fault in self.faults:
            if fault["proc"] == pick and (self.reached(pick, fault["at"], op) if "at" in fault else fault["op"] == number):
                got = decide(fault, op)
                if got is None:
                    continue
                name = f"{fault['how']}:{op['kind']}"
                self.fired[name] = self.fired.get(name, 0) + 1
                proc.hit.append(f"{fault['how']} at {op['kind']} {op['path']}")
                if fault["how"].startswith("power"):
                    self.power = fault
                if fault.get("sticky"):
                    sticky[pick] = fault
                return got
        if pick in sticky:
            got = decide({**sticky[pick], "part": 0.0}, op)
            if got is not None and op["kind"] in MUTATING and op["kind"] not in ("unlink", "rmdir", "close_w"):
                proc.hit.append(f"{sticky[pick]['how']} at {op['kind']} {op['path']}")
                return got
        return {"do": "go"}


def after_power_loss(before: Dict[str, Optional[bytes]], log, fault: Dict[str, Any]) -> Dict[str, Optional[bytes]]:
    """What a journalling file system may hold after the machine stops: an old enough prefix of the operations on names, file contents as
    they were synced, and of later writes all, none, a part, or zeros."""
    rng = random.Random(f"power/{fault['seed']}")
    ops = [(op, verdict) for _, op, verdict in log]
    synced = max((i for i, (op, verdict) in enumerate(ops) if op["kind"] == "fsync" and verdict["do"] in ("go", "kill_after")), default=-1)
    cut = rng.choice([len(ops), synced + 1, rng.randint(synced + 1, len(ops))])
    inodes: List[Dict[str, Any]] = []
    names: Dict[str, Optional[int]] = {}
    for path, data in before.items():
        if data is None:
            names[path] = None
        else:
            inodes.append({"safe": bytearray(data), "late": []})
            names[path] = len(inodes) - 1
    view: Dict[str, Any] = dict(names)  # what running processes saw
    for number, (op, verdict) in enumerate(ops):
        kept = number < cut
        kind, path = op["kind"], op["path"]
        if verdict["do"] in ("kill", "error", "interrupt"):
            continue
        if kind == "open_w":
            flags = op["flags"]
            if path not in view and flags & os.O_CREAT:
                inodes.append({"safe": bytearray(), "late": []})
                view[path] = len(inodes) - 1
                if kept:
                    names[path] = view[path]
            elif path in view and flags & os.O_TRUNC and view[path] is not None:
                if kept:
                    inodes[view[path]] = inodes[view[path]]
                    inodes[view[path]]["late"] = []
                    inodes[view[path]]["safe"] = bytearray()
                else:
                    inodes[view[path]]["frozen"] = True
        elif kind == "write" and view.get(path) is not None:
            size = op["size"] if verdict["do"] in ("go", "kill_after") else verdict.get("keep", 0)
            if not inodes[view[path]].get("frozen"):
                inodes[view[path]]["late"].append((op["at"], op["data"][:size]))
        elif kind == "fsync" and view.get(path) is not None:
            settle(inodes[view[path]], len(inodes[view[path]]["late"]), None)
        elif kind == "truncate" and view.get(path) is not None and kept:
            node = inodes[view[path]]
            settle(node, len(node["late"]), None)
            del node["safe"][op["args"][0] if op["args"] else 0:]
        elif kind == "rename":
            if path in view:
                moved = {k: view[k] for k in view if k == path or k.startswith(path + "/")}
                for key, val in moved.items():
                    view.pop(key)
                    view[op["to"] + key[len(path):]] = val
                    if kept:
                        names.pop(key, None)
                        names[op["to"] + key[len(path):]] = val
        elif kind in ("unlink", "rmdir"):
            view.pop(path, None)
            if kept:
                names.pop(path, None)
        elif kind == "mkdir":
            view[path] = None
            if kept:
                names[path] = None
        elif kind == "link" and path in view:
            view[op["to"]] = view[path]
            if kept:
                names[op["to"]] = view[path]
    out: Dict[str, Optional[bytes]] = {}
    for path, node in sorted(names.items()):
        if node is None:
            out[path] = None
            continue
        item = inodes[node]
        if item["late"]:
            settle(item, rng.choice([0, len(item["late"]), rng.randint(0, len(item["late"]))]), rng)
        out[path] = bytes(item["safe"])
    for path in list(out):  # nothing without its directory
        parts = path.split("/")
        for i in range(1, len(parts)):
            out.setdefault("/".join(parts[:i]), None)
    return out


def settle(node, count, rng):
    """Let the first writes reach the disk; with rng, the one after them reaches it torn or as zeros."""
    late = node["late"]
    for at, data in late[:count]:
        put(node["safe"], at, data)
    if rng is not None and count < len(late):
        at, data = late[count]
        keep = rng.randint(0, len(data))
        put(node["safe"], at, data[:keep] + rng.choice([b"", b"\0" * (len(data) - keep)]))
    node["late"] = late[count:] if rng is None else []


def put(buf: bytearray, at: int, data: bytes):
    if len(buf) < at:
        buf.extend(b"\0" * (at - len(buf)))
    buf[at:at + len(data)] = data


# trees -----------------------------------------------------------------------------------------------------------------------

def read_tree(site: str) -> Dict[str, Optional[bytes]]:
    out: Dict[str, Optional[bytes]] = {}
    for base, dirs, files in os.walk(site):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        rel = os.path.relpath(base, site)
        for name in dirs:
            out[name if rel == "." else f"{rel}/{name}"] = None
        for name in sorted(files):
            with open(os.path.join(base, name), "rb") as src:
                out[name if rel == "." else f"{rel}/{name}"] = src.read()
    return out


def write_tree(site: str, now: Dict[str, Optional[bytes]], want: Dict[str, Optional[bytes]]):
    """Turn the tree now into want."""
    import shutil

    for path in sorted(now, reverse=True):
        full = os.path.join(site, path)
        if path not in want or (now[path] is None) != (want[path] is None):
            if now[path] is None:
                shutil.rmtree(full, ignore_errors=True)
            elif os.path.lexists(full):
                os.unlink(full)
    for path in sorted(want):
        full = os.path.join(site, path)
        data = want[path]
        if data is None:
            os.makedirs(full, exist_ok=True)
        elif now.get(path) != data or not os.path.lexists(full):
            with open(full, "wb") as out:
                out.write(data)
