"""C08, C09, C16: start-ups and deployment builds on a simulated disk with crashes, power losses, disk errors and odd directories."""

from __future__ import annotations

import hashlib
import json
import os
import posixpath
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor, as_completed
from typing import Any, Dict, List, Optional, Tuple

from . import disk, startup, world

HERE = os.path.dirname(os.path.abspath(__file__))
SCRIPT, LISTING = "penpa-edit/prepare_deployment.js", "penpa-edit/solver_metadata.js"
HOT = [LISTING[:-3], SCRIPT[:-3]]
PAGE = "dist/page/penpa-edit"
ERRORS = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EMFILE", "EROFS"]
HOWS = ["kill", "kill", "kill_after", "interrupt", "power", "power_after", "torn", "torn", "short", "ENOSPC", "ENOSPC", "EIO", "EIO",
        "EDQUOT", "EACCES", "EMFILE", "EROFS"]
Tree = Dict[str, Optional[bytes]]


def v(cls: str, text: str) -> Dict[str, str]:
    return {"class": cls, "text": text}


# the tree under test ---------------------------------------------------------------------------------------------------------

def copy_site(site: str):
    """A copy of the program as checked out: everything but version control, tests and what earlier runs generated."""
    skip = {".git", "tests", "dist", "build", ".github", "__pycache__", ".pytest_cache", ".venv", "node_modules", "uv.lock", "pyscript.json"}
    shutil.copytree(world.REPO, site, dirs_exist_ok=True, symlinks=False,
                    ignore=lambda base, names: [n for n in names if n in skip or (n == "solver_metadata.js")])


def evaluate(items: List[Dict[str, str]]) -> List[Dict[str, Any]]:
    done = subprocess.run(["node", os.path.join(HERE, "script_eval.js")], input=json.dumps(items).encode(), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, check=False, timeout=120)
    if done.returncode:
        raise world.HarnessError("node: " + done.stderr.decode("utf-8", "replace")[-800:])
    return json.loads(done.stdout)


class Scripts:
    """Results of evaluating page scripts, by content."""

    def __init__(self):
        self.known: Dict[Tuple[str, bytes], Dict[str, Any]] = {}

    def __call__(self, kind: str, data: bytes) -> Dict[str, Any]:
        key = (kind, data)
        if key not in self.known:
            try:
                text = data.decode("utf-8")
            except UnicodeDecodeError:
                self.known[key] = {"error": "not UTF-8"}
                return self.known[key]
            if kind == "metadata" and text.startswith("const solver_metadata = "):
                try:  # the usual form needs no script engine
                    self.known[key] = {"value": json.loads(text[len("const solver_metadata = "):].rstrip().rstrip(";"))}
                    return self.known[key]
                except ValueError:
                    pass
            self.known[key] = evaluate([{"kind": kind, "text": text}])[0]
        return self.known[key]


class Base:
    """The clean tree and what is expected of it."""

    def __init__(self, site: str):
        self.site = site
        copy_site(site)
        self.tree = disk.read_tree(site)
        from .traffic import ORIG

        self.boards: Dict[str, Dict[str, Any]] = {}
        for entry in ORIG:
            self.boards.setdefault(entry["type"], {"puzzle": entry["puzzle"], "param": entry["param"]})
        startup.preload()
        startup.warm(site)
        self.scripts = Scripts()
        self.types = sorted(p[len("solver/"):-3] for p in self.tree if p.startswith("solver/") and p.endswith(".py")
                            and p.count("/") == 1 and p != "solver/__init__.py")
        self.expect = startup.oracle(site, self.types, self.boards)
        self.types = [t for t in self.types if not self.expect[t].get("none")]
        self.needed = startup.needed_files(site)
        text = self.tree[SCRIPT].decode()
        self.server_script = self.scripts("script", self.tree[SCRIPT])
        other = text.replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true")
        self.browser_script = self.scripts("script", other.encode())
        if self.server_script.get("mode") is not False or self.browser_script.get("mode") is not True or not self.browser_script["added"]:
            raise world.HarnessError(f"the page's start-up script is not understood: {self.server_script} {self.browser_script}")
        self.ops: Dict[str, List[Any]] = {}
        self.places: Dict[str, List[List[int]]] = {}  # operations of every kind in every directory, at different paths
        self.turn = (0, 0)

    def restore(self, want: Tree):
        disk.write_tree(self.site, disk.read_tree(self.site), want)

    def measure(self):
        """The operations of an undisturbed server start and of an undisturbed build."""
        for name, argv in (("server", []), ("build", ["-D"])):
            self.restore(self.tree)
            record: List[Any] = []
            self.first = disk.Event(self.site, [{"argv": argv}], [], 0, startup.start, record).run()
            self.ops[name] = [(kind, path) for _, kind, path in record]
            groups: Dict[Tuple[str, str], List[int]] = {}
            for index, (kind, path) in enumerate(self.ops[name]):
                if (kind, path) not in self.ops[name][:index]:
                    groups.setdefault((kind, posixpath.dirname(path)), []).append(index)
            self.places[name] = [random.Random(name).sample(g, min(len(g), 25 if len(g) < 60 else 5)) for _, g in sorted(groups.items())]
        self.restore(self.tree)


# plans -----------------------------------------------------------------------------------------------------------------------

def pick_fault(rng: random.Random, base: Base, what: str, proc: int, hows: List[str], procs_of: List[Any]) -> Optional[Dict[str, Any]]:
    ops = base.ops[what]
    if not ops:
        return None
    if len(procs_of) == 1 and rng.random() < 0.4:  # all places have their turn
        deck = [index for group in base.places[what] for index in group]
        random.Random(base.turn[0]).shuffle(deck)
        index = deck[base.turn[1] % len(deck)]
        base.turn = (base.turn[0], base.turn[1] + 1)
        kind, path = ops[index]
        allowed = [h for h in ERRORS if disk.decide({"how": h, "part": 0.5}, {"kind": kind, "path": path, "size": 100})]
        if allowed:
            return {"proc": proc, "op": index, "at": [kind, path, 1], "how": rng.choice(allowed), "part": rng.choice([0.0, 0.5]), "sticky": False}
    roll = rng.random() * (1.0 if len(procs_of) == 1 else 0.45)
    if roll < 0.3:
        cands = [i for i, (k, p) in enumerate(ops) if p.split(".js")[0] + ".js" in (SCRIPT, LISTING) or p.startswith("pyscript")]
    elif roll < 0.45:
        cands = [i for i, (k, p) in enumerate(ops) if k in disk.MUTATING]
    elif roll < 0.8:  # every kind of operation and every place alike, however rare
        where = [(k, p if k == "listdir" else posixpath.dirname(p)) for k, p in ops]
        kinds = sorted(set(where))
        kinds = [one for one in kinds if one[0] == "listdir"] if rng.random() < 0.4 else kinds
        chosen = rng.choice(kinds or [("", "")])
        cands = [i for i, one in enumerate(where) if one == chosen]
        if (what == "build" or chosen[0] in ("listdir", "open_r", "read", "stat")) and rng.random() < 0.75:
            hows = [h for h in hows if h in ERRORS] or ERRORS
    elif roll < 0.9:
        cands = [i for i, (k, p) in enumerate(ops) if not p.startswith("dist/")]
    else:
        cands = list(range(len(ops)))
    index = rng.choice(cands or range(len(ops)))
    for _ in range(20):
        how = rng.choice(hows)
        kind, path = ops[index]
        fault = {"proc": proc, "op": index, "how": how, "part": rng.choice([0.0, 0.3, 0.5, 0.9, rng.random()])}
        if how in ("ENOSPC", "EROFS", "EDQUOT"):
            fault["sticky"] = rng.random() < 0.5
        if rng.random() < 0.5:  # the same operation, wherever earlier runs have moved it
            fault["at"] = [kind, path, ops[:index + 1].count((kind, path))]
        if how.startswith("power"):
            fault["seed"] = rng.randrange(1 << 30)
        if disk.decide(fault, {"kind": kind, "path": path, "size": 100}) is not None:
            return fault
    return None


def edit_of(rng: random.Random, base: Base, number: int, kinds: List[str]) -> Dict[str, Any]:
    kind = rng.choice(kinds)
    if kind == "touch_page":
        return {"kind": kind, "path": rng.choice(["penpa-edit/app.js", "penpa-edit/style.css", "index.html", "main_deploy.py"]),
                "same": rng.random() < 0.4}
    if kind == "clean":
        return {"kind": kind}
    out = {"kind": kind, "type": rng.choice(base.types), "name": f"sim{number}{rng.randrange(100)}"}
    if kind == "touch" and rng.random() < 0.5:
        name = base.expect[out["type"]]["meta"]["name"]
        other = base.expect[rng.choice(base.types)]["meta"]["name"]
        out["title"] = rng.choice([name.swapcase(), name.swapcase(), name + " \u6570\u72ec \u00e9", "\u00e9" + name[1:], name + ' "\'\\', other,
                                   other.upper(), "", name + " </script> \u2028"])  # swapped: as long as it was
    if kind == "dup":
        out["form"] = rng.choice(["Capital", "UPPER", "suffix", "prefix", "second class"])
    if kind == "broken":
        out["form"] = rng.choice(["syntax", "raise", "import", "init", "exit"])
    if kind == "litter":
        out["path"] = rng.choice(["solver/notes.txt", "solver/old.py.bak", "solver/.hidden.py~", "solver/data.json", "penpa-edit/solver_metadata.js.77.tmp",
                                  "dist/page/old.html", "dist/page/penpa-edit/solver/gone.py", "noqx/README"])
    return out


RENAME = "\nfor _c in list(globals().values()):\n    if isinstance(_c, type) and _c.__module__ == __name__:\n        _c.name = %r\n"
BROKEN = {"syntax": "def broken(:\n", "raise": "raise RuntimeError('broken solver')\n", "import": "import no_such_module_here\n",
          "init": "from noqx.manager import Solver\n\n\nclass Broken(Solver):\n    def __init__(self):\n        raise OSError('broken')\n",
          "exit": "raise ImportError('broken solver')\n"}


def apply_edit(tree: Tree, edit: Dict[str, Any], notes: Dict[str, Any]):
    """Change the sources as a user or an update would; notes keeps what to expect."""
    kind = edit["kind"]
    name = edit.get("type", "")
    file = f"solver/{name}.py"
    if kind == "touch_page":
        at = re.search(rb"(?://|/\*|<!--|#|\"\"\")\s*([A-Za-z])", tree[edit["path"]]) if edit.get("same") else None
        if at:  # another letter in a comment: the length stays
            data = tree[edit["path"]]
            tree[edit["path"]] = data[:at.start(1)] + at.group(1).swapcase() + data[at.end(1):]
            return
        mark = {"css": "/* edited */", "ml": "<!-- edited -->", "js": "// edited"}.get(edit["path"].rsplit(".", 1)[1].replace("html", "ml"), "# edited")
        tree[edit["path"]] = tree[edit["path"]] + mark.encode() + b"\n"
    elif kind == "litter":
        base, _, _ = edit["path"].rpartition("/")
        parts = base.split("/")
        for i in range(1, len(parts) + 1):
            tree.setdefault("/".join(parts[:i]), None)
        tree[edit["path"]] = b"left over\n"
    elif kind == "clean":  # the user throws away what builds left
        for path in [p for p in tree if p == "dist" or p.startswith("dist/")]:
            del tree[path]
        tree.pop("pyscript.json", None)
    elif file not in tree:
        return
    elif kind == "touch":
        tree[file] = tree[file] + (RENAME % edit.get("title", "Edited " + name)).encode()
        notes["changed"].add(name)
    elif kind == "add":
        tree[f"solver/{edit['name']}.py"] = tree[file] + (RENAME % ("New " + edit["name"])).encode()
        notes["changed"].add(edit["name"])
        notes["boards"][edit["name"]] = notes["boards"].get(name)
    elif kind == "remove":
        del tree[file]
        notes["removed"].add(name)
    elif kind == "dup":
        if edit["form"] == "second class":
            tree[file] = tree[file] + b"\n\nclass SimSecond(Solver):\n    name = 'Second'\n    category = 'sim'\n\n    def solve(self, puzzle):\n        return 'second.'\n"
        else:
            stem = {"Capital": name.capitalize(), "UPPER": name.upper(), "suffix": name + "solver", "prefix": "solver" + name}[edit["form"]]
            tree[f"solver/{stem}.py"] = tree[file] + (RENAME % ("Second " + name)).encode()
            notes["extra"].add(stem)
        notes["may_fail"] = "a second solver for a type"
    elif kind == "broken":
        tree[f"solver/{edit['name']}.py"] = BROKEN[edit["form"]].encode()
        notes["may_fail"] = "a solver that cannot be loaded"
        notes["hidden"].add(edit["name"])


SERVER_ARGS = [[], [], [], ["-tl", "60"], ["-pt", "4"], ["-d"], ["-p", "8001"], ["-H", "0.0.0.0"]]


def proc_of(rng: random.Random, what: str) -> Dict[str, Any]:
    return {"argv": ["-D"] if what == "build" else rng.choice(SERVER_ARGS), "listing": rng.choice([0, rng.randrange(1, 1 << 30)]),
            "random": rng.randrange(1 << 30)}


def make_plan(prop: str, base: Base, seed: str) -> Dict[str, Any]:
    rng = random.Random(seed)
    events: List[Dict[str, Any]] = []
    hows = rng.choice([HOWS, HOWS, ["kill", "kill_after", "torn", "interrupt"], ["power", "power_after"], ["ENOSPC", "EIO", "EROFS", "EMFILE", "EACCES", "short"]])
    if prop == "C16":
        kinds = ["add", "add", "dup", "dup", "broken", "remove", "touch", "touch", "litter"]
        if rng.random() < 0.35:
            events.append(disturbed(rng, base, "server", []))
        for i in range(rng.choice([0, 1, 1, 2])):
            events.append({"edit": edit_of(rng, base, i, kinds)})
            if rng.random() < 0.4:
                events.append(disturbed(rng, base, rng.choice(["server", "build"]), hows if rng.random() < 0.6 else []))
        if rng.random() < 0.3:
            events.append(disturbed(rng, base, "server", [h for h in hows if h in ("EIO", "EMFILE", "EACCES", "short")] or ["EIO"]))
        last = "server"
    elif prop == "C08":
        for i in range(rng.randint(1, 4)):
            if rng.random() < 0.18:
                events.append({"edit": edit_of(rng, base, i, ["touch", "add", "touch_page", "litter", "clean", "clean"])})
            what = rng.choice(["server"] * 5 + ["build"] * 2 + ["pair"] * 3)
            events.append(disturbed(rng, base, what, hows))
        last = "server"
    else:
        for i in range(rng.randint(1, 4)):
            if rng.random() < 0.35:
                events.append({"edit": edit_of(rng, base, i, ["touch", "add", "remove", "touch_page", "litter", "clean"])})
            what = rng.choice(["build"] * 6 + ["server"] * 2)
            events.append(disturbed(rng, base, what, hows if rng.random() < 0.85 else []))
        last = "build"
    final = {"procs": [proc_of(rng, last)], "faults": [], "sched": 0}
    if last == "server":
        final["procs"][0]["argv"] = rng.choice(SERVER_ARGS[:-3])
        final["look"] = "all" if prop == "C16" else "some"
    events.append(final)
    if prop == "C09" and rng.random() < 0.2:
        events.append({"procs": [proc_of(rng, "build")], "faults": [], "sched": 0})
    return {"events": events, "seed": seed}


def disturbed(rng: random.Random, base: Base, what: str, hows: List[str]) -> Dict[str, Any]:
    procs = [proc_of(rng, "build" if what == "build" else "server") for _ in range(rng.choice([2, 2, 3]) if what == "pair" else 1)]
    faults = []
    if hows and not (what == "pair" and rng.random() < 0.4):
        for _ in range(rng.choice([1, 1, 1, 2])):
            number = rng.randrange(len(procs))
            fault = pick_fault(rng, base, "build" if what == "build" else "server", number, hows, procs)
            if fault:
                faults.append(fault)
    return {"procs": procs, "faults": faults, "sched": rng.randrange(1 << 30)}


# runs ------------------------------------------------------------------------------------------------------------------------

class StorageRun:
    def __init__(self, prop: str, base: Base, plan: Dict[str, Any]):
        self.prop, self.base, self.plan = prop, base, plan
        self.bad: List[Dict[str, str]] = []
        self.fired: Dict[str, int] = {}
        self.history = hashlib.sha1()
        self.notes: Dict[str, Any] = {"changed": set(), "removed": set(), "extra": set(), "hidden": set(), "may_fail": None,
                                      "boards": dict(base.boards)}
        self.expect = dict(base.expect)
        self.source: Tree = dict(base.tree)  # what the checkout looks like without anything generated
        self.switches = self.steps = self.ups = self.builds = 0
        self.fails = 0

    def run(self):
        base = self.base
        base.restore(base.tree)
        for number, event in enumerate(self.plan["events"]):
            if "edit" in event:
                tree = disk.read_tree(base.site)
                before = dict(tree)
                apply_edit(tree, event["edit"], self.notes)
                notes: Dict[str, Any] = {"changed": set(), "removed": set(), "extra": set(), "hidden": set(), "boards": {}}
                apply_edit(self.source, event["edit"], notes)
                disk.write_tree(base.site, before, tree)
                fresh = sorted(notes["changed"])
                if fresh:
                    self.expect.update(startup.oracle(base.site, fresh, self.notes["boards"]))
                for name in notes["removed"]:
                    self.expect.pop(name, None)
                self.count(f"edit:{event['edit']['kind']}")
                continue
            self.event(number, event)
            if self.bad:
                break
        return self

    def count(self, name: str, times: int = 1):
        self.fired[name] = self.fired.get(name, 0) + times

    def event(self, number: int, event: Dict[str, Any]):
        base = self.base
        before = disk.read_tree(base.site) if any(f["how"].startswith("power") for f in event["faults"]) else {}
        procs = [dict(p) for p in event["procs"]]
        types = [t for t in base.types if t in self.expect]
        if event.get("look"):
            rng = random.Random(f"{self.plan['seed']}/look")
            names = types + sorted(self.notes["changed"] - set(types))
            if event["look"] == "some":
                names = rng.sample(names, min(6, len(names)))
            procs[0]["look"] = {"pages": ["/penpa-edit/", "/penpa-edit/app.js", "/" + LISTING, "/" + SCRIPT],
                                "solves": [[n, {"puzzle_name": n, **self.notes["boards"][n]}] for n in names if self.notes["boards"].get(n)]}
        sim = disk.Event(base.site, procs, event["faults"], event["sched"], startup.start, hot=HOT)
        results = sim.run()
        for name, times in sim.fired.items():
            self.count(name, times)
        self.switches += sim.switches
        self.steps += sim.steps
        if len(procs) > 1:
            self.count("concurrent start-ups")
        for listing in (p.get("listing") for p in procs):
            if listing:
                self.count("shuffled directories")
        if sim.power:
            now = disk.read_tree(base.site)
            disk.write_tree(base.site, now, disk.after_power_loss(before, sim.log, sim.power))
        tree = disk.read_tree(base.site)
        self.history.update(repr([(p, o["kind"], o["path"], o.get("size"), w) for p, o, w in sim.log]).encode())
        self.history.update(repr([(r["status"], r.get("code"), r["hit"]) for r in results]).encode())
        self.history.update(repr(sorted((p, hashlib.sha1(d).digest() if d is not None else None) for p, d in tree.items())).encode())
        quiet = not event["faults"]
        for proc, result in zip(procs, results):
            build = "-D" in proc["argv"]
            where = f"event {number} ({'build' if build else 'server'} {' '.join(proc['argv'])}; {', '.join(result['hit']) or 'no fault'})"
            status = result["status"]
            if status == "harness":
                raise world.HarnessError(result["text"])
            if status in ("hang", "vanished"):
                self.bad.append(v("hang", f"{where}: the start-up does not end {result.get('text', '')}"))
                continue
            good = status == "up" or (build and status == "exit" and result["code"] == 0)
            if status == "exit" and not build and result["code"] == 0:
                self.bad.append(v("exit", f"{where}: the server ended at once, reporting success"))
                continue
            if build and status == "up":
                self.bad.append(v("exit", f"{where}: the build started a server"))
                continue
            if not good:
                self.fails += 1
                undisturbed = quiet and not result["hit"] and len(procs) == 1
                if undisturbed and not self.notes["may_fail"] and status != "killed":
                    self.bad.append(v("refused", f"{where}: an undisturbed start failed: {status} {result.get('code', '')} {result.get('text', '')[-400:]}"))
                continue
            if sim.power:
                continue
            if build:
                self.builds += 1
                problems = self.judge_build(tree)
            else:
                self.ups += 1
                problems = self.judge_site(tree, "the served page")
                if result.get("look"):
                    problems += self.judge_look(result["look"], tree)
            self.bad.extend(v(cls, f"{where} reported success: {text}") for cls, text in problems[:3])

    # judges -----------------------------------------------------------------------------------------------
    def judge_list(self, data: Optional[bytes], where: str) -> List[Tuple[str, str]]:
        if data is None:
            return [("list", f"{where} has no list of puzzle types")]
        got = self.base.scripts("metadata", data)
        if "value" not in got:
            return [("list", f"{where}: the list of puzzle types cannot be read: {got.get('error')}")]
        offered = got["value"]
        names = set(self.expect) & (set(self.base.types) | self.notes["changed"])
        out = []
        missing = sorted(names - set(offered))
        extra = sorted(set(offered) - names - self.notes["extra"])
        if missing:
            out.append(("list", f"{where} does not offer {missing[:8]} ({len(missing)} missing of {len(names)})"))
        if extra:
            out.append(("list", f"{where} offers {extra[:8]}, which are not there"))
        for name in sorted(names & set(offered)):
            if offered[name] != self.expect[name]["meta"]:
                want = self.expect[name]["meta"]
                keys = [k for k in sorted(set(want) | set(offered[name])) if offered[name].get(k) != want.get(k)]
                out.append(("list", f"{where}: {name} is listed with {keys[0] if keys else ''} = {str(offered[name].get(keys[0]) if keys else '')[:80]}, "
                                    f"its own is {str(want.get(keys[0]) if keys else '')[:80]}"))
                break
        return out

    def judge_script(self, data: Optional[bytes], browser: bool, where: str) -> List[Tuple[str, str]]:
        if data is None:
            return [("script", f"{where} has no start-up script")]
        got = self.base.scripts("script", data)
        want = self.base.browser_script if browser else self.base.server_script
        if got != want:
            return [("mode" if got.get("mode") is not want["mode"] else "script",
                     f"{where}: the start-up script gives {str(got)[:150]}, expected {str(want)[:100]} (length {len(data)})")]
        plain = data.decode("utf-8", "replace").replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false").split()
        if plain != self.source[SCRIPT].decode().split():
            return [("script", f"{where}: the start-up script is not whole (length {len(data)} of {len(self.source[SCRIPT])})")]
        return []

    def judge_site(self, tree: Tree, where: str) -> List[Tuple[str, str]]:
        out = self.judge_script(tree.get(SCRIPT), False, where) + self.judge_list(tree.get(LISTING), where)
        for path, data in self.source.items():
            if path.startswith("penpa-edit/") and path not in (SCRIPT, LISTING) and data is not None and tree.get(path) != data:
                out.append(("file", f"{where}: {path} was changed"))
        return out

    def judge_look(self, seen: Dict[str, Any], tree: Tree) -> List[Tuple[str, str]]:
        out = []
        for path, (status, digest) in seen["pages"].items():
            data = tree.get("penpa-edit/index.html" if path == "/penpa-edit/" else path[1:])
            if status != 200 or data is None or digest != hashlib.sha1(data).hexdigest():
                out.append(("page", f"GET {path} gives {status} {digest if status == 0 else ''}"))
        for name, got in seen["solves"].items():
            want = self.expect[name].get("program")
            if got["status"] != 200:
                out.append(("answer", f"{name} is offered, but solving its example gives {got['status']} {got['text']}"))
            elif got["program"] != want:
                out.append(("answer", f"{name} is not solved by its own solver (program {got['program']}, its own {want})"))
        return out

    def judge_build(self, tree: Tree) -> List[Tuple[str, str]]:
        where = "the built page"
        out = self.judge_script(tree.get(f"{PAGE}/prepare_deployment.js"), True, where)
        out += self.judge_list(tree.get(f"{PAGE}/solver_metadata.js"), where)
        out += self.judge_site(tree, "after the build, the source page")
        same = [(p, f"dist/page/{p}") for p, d in self.source.items()
                if p.startswith("penpa-edit/") and p not in (SCRIPT, LISTING) and d is not None and not p.endswith(".tmp")]
        same += [("index.html", "dist/page/index.html"), ("main_deploy.py", f"{PAGE}/main_deploy.py")]
        for src, dst in same:
            if tree.get(dst) is None or tree[dst] != self.source[src]:
                out.append(("copy", f"{where} has {'no' if tree.get(dst) is None else 'an old or damaged'} copy of {src}"))
        try:
            files = json.loads(tree.get(f"{PAGE}/pyscript.json") or b"")["files"]
            listed = {posixpath.normpath(dst): posixpath.normpath(posixpath.join(PAGE, src)) for src, dst in files.items()}
        except (ValueError, KeyError, TypeError, AttributeError) as err:
            return out + [("copy", f"{where}: the list of Python files cannot be read: {err}")]
        needed = [p for p in self.base.needed if p in self.source]
        needed += [f"solver/{n}.py" for n in self.notes["changed"] if f"solver/{n}.py" in self.source]
        for path in sorted(set(needed)):
            if path not in listed:
                out.append(("copy", f"{where} does not load {path}"))
        for path, at in sorted(listed.items()):
            if path not in self.source:
                out.append(("copy", f"{where} loads {path}, which is not there"))
            elif tree.get(at) is None or tree[at] != self.source[path]:
                out.append(("copy", f"{where} has {'no' if tree.get(at) is None else 'an old or damaged'} copy of {path}"))
        return out

    def result(self) -> Dict[str, Any]:
        return {"digest": self.history.hexdigest(), "violations": self.bad, "fired": self.fired, "switches": self.switches, "steps": self.steps,
                "nontrivial": bool(self.fired), "ups": self.ups, "builds": self.builds, "fails": self.fails}


def minimise(prop: str, base: Base, plan: Dict[str, Any], bad: List[Dict[str, str]]):
    cls = bad[0]["class"]

    def attempt(cand):
        found = StorageRun(prop, base, cand).run().bad
        return found if any(x["class"] == cls for x in found) else None

    budget = time.monotonic() + 60
    changed = True
    while changed and time.monotonic() < budget:
        changed = False
        cands = []
        for i, event in enumerate(plan["events"]):
            if len(plan["events"]) > 1:
                cand = json.loads(json.dumps(plan))
                del cand["events"][i]
                cands.append(cand)
            for j in range(len(event.get("faults", []))):
                cand = json.loads(json.dumps(plan))
                del cand["events"][i]["faults"][j]
                cands.append(cand)
            if len(event.get("procs", [])) > 1:
                cand = json.loads(json.dumps(plan))
                del cand["events"][i]["procs"][-1]
                cands.append(cand)
            for p, proc in enumerate(event.get("procs", [])):
                if proc.get("listing"):
                    cand = json.loads(json.dumps(plan))
                    cand["events"][i]["procs"][p]["listing"] = 0
                    cands.append(cand)
        for cand in cands:
            found = attempt(cand)
            if found:
                plan, bad, changed = cand, found, True
                break
            if time.monotonic() > budget:
                break
    return plan, bad


# batches ---------------------------------------------------------------------------------------------------------------------

def main(argv: List[str]) -> int:
    with open(argv[0], encoding="utf-8") as src:
        job = json.load(src)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr
    site = tempfile.mkdtemp(prefix="site", dir=job["scratch"])

    def tell(line):
        out.write(json.dumps(line) + "\n")
        out.flush()

    try:
        prop = job["prop"]
        base = Base(site)
        base.measure()
        if "replay" in job:
            tell({"kind": "run", "res": StorageRun(prop, base, job["replay"]).run().result()})
            return 0
        found = 0
        for number, seed in enumerate(job["seeds"]):
            if time.monotonic() > job["deadline"]:
                tell({"kind": "cut"})
                break
            base.turn = (int(seed.split("/")[0]), (job["first"] + number) * 2)
            plan = make_plan(prop, base, seed)
            res = StorageRun(prop, base, plan).run().result()
            line = {"kind": "run", "seed": seed, "res": res}
            if number % 15 == 0:
                line["repeat_ok"] = StorageRun(prop, base, plan).run().result()["digest"] == res["digest"]
            if number == 0 and job.get("sample"):
                line["sample"] = plan
            if res["violations"]:
                found += 1
                small, bad = minimise(prop, base, plan, res["violations"])
                res["violations"] = bad
                line["replay"] = {"prop": prop, "family": "storage", "plan": small, "violations": bad}
            tell(line)
            if found >= 2:
                break
        tell({"kind": "end"})
        return 0
    except BaseException:
        tell({"kind": "error", "text": traceback.format_exc()[-3000:]})
        return 3


COMPONENTS = {
    "main.py, noqx/*, solver/* start-up and build code": "real, from a scratch copy of /repo's working tree, one forked process per start-up",
    "starlette application, static files, solve endpoint (final look)": "real, called in process",
    "Python's import system, shutil, json, argparse, logging, uvicorn.Config": "real",
    "buffered file objects": "real (_pyio, the Python version of io) over the simulated calls",
    "file operations": "performed on the scratch copy after the simulator granted, delayed, failed or tore them",
    "page cache and power loss": "simulated (prefix of name changes, synced contents, parts of later writes)",
    "scheduling of concurrent start-ups, process numbers, directory orders, random sources": "simulated",
    "uvicorn.run, clingo search": "stand-ins (the application is loaded, no socket is opened; the program is recorded)",
    "page scripts": "real, evaluated by node",
}
ASSUME = {
    "C08": ["a file system keeps a prefix of the changes of names in their order and what was synced; later writes may be lost, cut or zero",
            "the operator does not change the files by hand while the program starts",
            "start-ups running at the same time have different process numbers"],
    "C09": ["a build does not run at the same time as another build or start-up in the same directory",
            "a file system keeps a prefix of the changes of names in their order and what was synced"],
    "C16": ["the engine is a recorder here: solving under the own name is judged by the program handed to the engine"],
}
RULE = {
    "C08": "A run is a history of 1-4 start-ups (servers, several servers at once, builds) with kills, power losses, torn and short writes and disk "
           "errors at chosen file operations, and a last undisturbed server start that must serve a whole page. Non-trivial: a fault was "
           "injected, directories were shuffled or start-ups ran at the same time.",
    "C09": "A run is a history of 1-4 builds and server starts with faults at chosen file operations and edits of the sources between them, and a "
           "last undisturbed build. Every build that reports success must be complete. Non-trivial: as for C08.",
    "C16": "A run is a history of edits of the solver directory (added, removed, edited, duplicate, broken solvers, litter) and start-ups over "
           "shuffled directories, and a last undisturbed start in which every type is solved. Non-trivial: as for C08.",
}
RUNS = {"quick": {"C08": 480, "C09": 400, "C16": 200}, "thorough": {"C08": 12000, "C09": 8000, "C16": 6000}}


def check(prop: str, tier: str, seed: int) -> int:
    from . import run as runner

    report = runner.Report(prop, tier, seed)
    scratch = tempfile.mkdtemp(prefix=f"dst{prop}")
    deadline = time.monotonic() + {"quick": 420, "thorough": 3 * 3600}[tier]
    try:
        workers = runner.WORKERS
        batches = workers if tier == "quick" else workers * 6
        per = (RUNS[tier][prop] + batches - 1) // batches
        jobs = [{"prop": prop, "options": {"hashseed": random.Random(f"{seed}/{prop}/{b}").randrange(1 << 20)}, "scratch": scratch,
                 "seeds": [f"{seed}/{prop}/{b}/{i}" for i in range(per)], "deadline": deadline, "first": b * per, "sample": b < 3} for b in range(batches)]
        with ThreadPoolExecutor(workers) as pool:
            futures = [pool.submit(runner.run_batch, job, scratch, i, "dst.storage", 800 if tier == "quick" else 4 * 3600)
                       for i, job in enumerate(jobs)]
            for number, future in enumerate(as_completed(futures)):
                if future.cancelled():
                    continue
                for line in future.result():
                    if line["kind"] == "run":
                        for key in ("ups", "builds", "fails"):
                            report.totals[key] = report.totals.get(key, 0) + line["res"].get(key, 0)
                        if line.get("replay"):
                            line["replay"]["options"] = jobs[futures.index(future)]["options"]
                    report.take(line)
                if report.violations or len(report.errors) > 2:
                    for other in futures:
                        other.cancel()
        return report.finish(RULE[prop], COMPONENTS, ASSUME[prop])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(data: Dict[str, Any], path: str) -> int:
    from . import run as runner

    scratch = tempfile.mkdtemp(prefix="dstreplay")
    try:
        job = {"prop": data["prop"], "options": data.get("options", {"hashseed": 0}), "scratch": scratch, "replay": data["plan"]}
        for line in runner.run_batch(job, scratch, 0, "dst.storage"):
            if line["kind"] == "error":
                print(line["text"], file=sys.stderr)
                return 2
            if line["kind"] == "run":
                print(f"history digest {line['res']['digest']}")
                for one in line["res"]["violations"]:
                    print(f"  [{one['class']}] {one['text'][:500]}")
                if line["res"]["violations"]:
                    print(f"VIOLATION property={data['prop']} replay={path}")
                    return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    CODE = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(CODE)
