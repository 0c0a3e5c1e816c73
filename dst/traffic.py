"""Workload generation and judges for everything that goes through the server."""

from __future__ import annotations

import base64
import hashlib
import json
import os
import random
from typing import Any, Dict, List, Optional, Tuple

from .board import LAYERS, Board

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "pool.json"), encoding="utf-8") as _src:
    POOL: List[Dict[str, Any]] = json.load(_src)
BY_TYPE: Dict[str, List[Dict[str, Any]]] = {}
for _entry in POOL:
    BY_TYPE.setdefault(_entry["type"], []).append(_entry)
TYPES = sorted(BY_TYPE)
BY_BOARD: Dict[str, List[Dict[str, Any]]] = {}
for _entry in POOL:
    BY_BOARD.setdefault(_entry["puzzle"], []).append(_entry)
ORIG = [e for e in POOL if e["kind"] == "orig" and e["outcome"] == 1]
MULTI = [e for e in POOL if isinstance(e["outcome"], int) and 2 <= e["outcome"] <= 9]
FULL = [e for e in POOL if e["outcome"] == 10]
WITH_PARAMETERS = sorted({e["type"] for e in POOL if len(e["param"]) > 0})
LIGHT = [e for e in POOL if e["ms"] <= 150]


def b64(data: bytes) -> str:
    return base64.b64encode(data).decode()


def body_of(entry: Dict[str, Any]) -> str:
    return b64(json.dumps({"puzzle_name": entry["type"], "puzzle": entry["puzzle"], "param": entry["param"]}).encode())


def request(entry: Dict[str, Any], rid: str) -> Dict[str, Any]:
    return {"id": rid, "body": body_of(entry), "note": f"{entry['type']}/{entry['kind']}"}


def bad_body(rng: random.Random) -> Tuple[str, str]:
    """A well-formed HTTP request whose content is not a proper solve request."""
    entry = rng.choice(LIGHT)
    good = {"puzzle_name": entry["type"], "puzzle": entry["puzzle"], "param": entry["param"]}
    kind = rng.choice(["notjson", "empty", "list", "string", "null", "missing", "type", "unknown", "trunc", "noprefix", "garbage",
                       "latin", "surrogate", "deep", "bignum", "othershape", "emptyname", "intname", "listname", "dup", "textboard",
                       "surrclue", "foreignclue", "foreignclue", "longname", "param"])
    if kind == "notjson":
        data = json.dumps(good).encode()[: rng.randrange(1, 40)]
    elif kind == "empty":
        data = b""
    elif kind == "list":
        data = json.dumps([good]).encode()
    elif kind == "string":
        data = b'"solve"'
    elif kind == "null":
        data = rng.choice([b"null", b"0", b"true", b"NaN"])
    elif kind == "missing":
        del good[rng.choice(sorted(good))]
        data = json.dumps(good).encode()
    elif kind == "type":
        good[rng.choice(sorted(good))] = rng.choice([None, 3, [], {}, True, "x"])
        data = json.dumps(good).encode()
    elif kind == "unknown":
        good["puzzle_name"] = rng.choice(["nosuchpuzzle", "Slitherlink", "../main", "clingo", "__class__", ""])
        data = json.dumps(good).encode()
    elif kind == "trunc":
        good["puzzle"] = good["puzzle"][: rng.randrange(len(good["puzzle"]))]
        data = json.dumps(good).encode()
    elif kind == "noprefix":
        good["puzzle"] = good["puzzle"][9:]
        data = json.dumps(good).encode()
    elif kind == "garbage":
        good["puzzle"] = "m=edit&p=" + b64(bytes(rng.randrange(256) for _ in range(rng.randrange(60))))
        data = json.dumps(good).encode()
    elif kind == "latin":
        data = json.dumps(good).encode()[:-1] + b"\xff\xfe}"
    elif kind == "surrogate":
        good[rng.choice(["puzzle_name", "puzzle"])] = "\ud800" * rng.randrange(1, 4)
        data = json.dumps(good).encode()
    elif kind == "surrclue":
        board = Board.decode(entry["puzzle"])
        rows, cols = board.size
        board.q["number"][str(board.index(rng.randrange(rows), rng.randrange(cols)))] = ["\ud800", 1, "1"]
        board.q["symbol"][str(board.index(rng.randrange(rows), rng.randrange(cols)))] = [1, "\udfff", 1]
        good["puzzle"] = board.encode()
        data = json.dumps(good).encode()
    elif kind == "foreignclue":  # clues in foreign letters, which the reason of the rejection may quote
        board = Board.decode(entry["puzzle"])
        rows, cols = board.size
        clue = rng.choice(["é", "日本", "Ω?", "٣", "²", "½", "😀", "A" * 300, "\x00", "\u2028", "<b>", '"', "%s", "{}"])
        for _ in range(rng.choice([1, 1, rows * cols // 2])):
            spot = str(board.index(rng.randrange(rows), rng.randrange(cols)))
            if rng.random() < 0.7:
                board.q["number"][spot] = [clue, 1, rng.choice(["1", "1", "2", "4", "5"])]
            else:
                board.q["symbol"][spot] = [1, clue, 1]
        good["puzzle"] = board.encode()
        data = json.dumps(good, ensure_ascii=rng.random() < 0.5).encode()
    elif kind == "longname":
        good["puzzle_name"] = rng.choice(["x" * 41, "x" * 5000, good["puzzle_name"] + "é", "日" * 50, good["puzzle_name"] + "\n", "%s%s%n", "\x00"])
        data = json.dumps(good, ensure_ascii=rng.random() < 0.5).encode()
    elif kind == "param":
        good["param"] = rng.choice([{"é": "ü"}, {k: "日" for k in good["param"]}, {k: None for k in good["param"]}, {"x" * 300: 1},
                                    {k: [v] for k, v in good["param"].items()}, {k: str(v) + "½" for k, v in good["param"].items()}])
        data = json.dumps(good, ensure_ascii=rng.random() < 0.5).encode()
    elif kind == "deep":
        data = b"[" * 100000
    elif kind == "bignum":
        data = b'{"puzzle_name": ' + b"9" * 6000 + b"}"
    elif kind == "othershape":
        board = Board.decode(entry["puzzle"])
        board.parts[0] = board.parts[0].replace("square", rng.choice(["hex", "tri", "pyramid", "", "iso"]), 1)
        good["puzzle"] = board.encode()
        data = json.dumps(good).encode()
    elif kind == "emptyname":
        good["puzzle_name"] = ""
        data = json.dumps(good).encode()
    elif kind == "intname":
        good["puzzle_name"] = 7
        data = json.dumps(good).encode()
    elif kind == "listname":
        good["puzzle_name"] = [good["puzzle_name"]]
        data = json.dumps(good).encode()
    elif kind == "dup":
        text = json.dumps(good)
        data = (text[:-1] + ', "puzzle_name": "nosuch"}').encode()
    else:
        good["puzzle"] = rng.choice(["hello", "m=edit&p=", "m=edit&p=====", "https://example.com/#m=edit&p=abc", "m=solve&p=abcd"])
        data = json.dumps(good).encode()
    return b64(data), kind


def pick(rng: random.Random, focus: Optional[List[str]], light: bool = True) -> Dict[str, Any]:
    """A pool entry, weighted towards informative outcomes."""
    if focus:
        pool = [e for e in BY_TYPE[rng.choice(focus)] if not light or e["ms"] <= 400]
        if pool:
            return rng.choice(pool)
    roll = rng.random()
    if roll < 0.4:
        entry = rng.choice(ORIG)
    elif roll < 0.65:
        entry = rng.choice(MULTI)
    elif roll < 0.8:
        entry = rng.choice(FULL)
    else:
        entry = rng.choice(LIGHT)
    if light and entry["ms"] > 400 and rng.random() < 0.9:
        return rng.choice(LIGHT)
    return entry


def turns(rng: random.Random, count: int) -> List[str]:
    """Some puzzle types; over the runs of a check every type has its turn."""
    slot = getattr(rng, "slot", None)
    if slot is None:
        return rng.sample(TYPES, count)
    order = list(TYPES)
    random.Random(f"turns/{rng.root}").shuffle(order)
    return [order[(slot * count + k) % len(order)] for k in range(count)]


def engine_spec(rng: random.Random, limit: float, slow: float = 0.15) -> Dict[str, Any]:
    """How the engine behaves for one request; never at the edge of the limit."""
    spec: Dict[str, Any] = {"shape": rng.choice(["even", "front", "back", "burst", "late"])}
    roll = rng.random()
    if roll < slow:
        spec["T"] = limit * rng.choice([1.2, 1.5, 3.0, 20.0])
        spec["late"] = int(rng.random() < 0.5)
    elif roll < 0.6:
        spec["T"] = limit * rng.choice([0.01, 0.2, 0.5, 0.8])
    else:
        spec["T"] = rng.choice([0.0, 0.001, 0.05])
    if rng.random() < 0.2:
        spec["ground"] = limit * rng.choice([0.001, 0.01, 0.1])
    if rng.random() < 0.1:
        spec["create"] = limit * 0.01
    return spec


def network_faults(rng: random.Random, conn: Dict[str, Any], limit: float, rate: float):
    """Segmentation, delays, disconnects and slow readers for one connection."""
    for pos, req in enumerate(conn["reqs"]):
        if pos and rng.random() < rate * 0.6:
            req["glue"] = 1
        if rng.random() < rate:
            size = rng.choice([400, 300 + len(req.get("body", "")) * 3 // 4])
            req["cuts"] = sorted({rng.randrange(1, size) for _ in range(rng.randrange(1, 6))})
            req["gaps"] = [rng.choice([0.0, 0.001, 0.1, 1.0]) for _ in range(3)]
        if rng.random() < rate * 0.3 and "body" in req and req.get("method", "POST") == "POST":
            req["chunked"] = rng.choice([1, 7, 64, 1000])
        if rng.random() < rate * 0.2:
            req["headers"] = [rng.choice([["Expect", "100-continue"], ["Connection", "keep-alive"], ["Connection", "close"]])]
    if rng.random() < rate * 0.5:
        conn["end"] = {"kind": rng.choice(["rst", "eof"]), "delay": rng.choice([0.0, 0.001, limit * 0.3, limit * 1.1])}
        if rng.random() < 0.6:
            conn["end"]["after_bytes"] = rng.randrange(1, 3000)
        else:
            conn["end"]["delay"] = rng.choice([0.0, 0.002, 0.02, limit * 0.4])
    elif rng.random() < rate * 0.4:
        conn["stall"] = {"from": rng.choice([0.0, 0.01]), "for": rng.choice([0.5, limit, 3 * limit]), "window": rng.choice([0, 100, 5000])}


def tidy(plan: Dict[str, Any]):
    """No client goes on after it has said that it will not: HTTP forbids it."""
    for conn in plan.get("conns", []):
        for req in conn["reqs"][:-1]:
            if any(h[0].lower() == "connection" and h[1].lower() == "close" for h in req.get("headers", [])):
                del req["headers"]


RAW = [
    b"GARBAGE\r\n\r\n", b"GET\r\n\r\n", b"POST /api/solve/ HTTP/1.1\r\n\r\n", b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc",
    b"GET / HTTP/9.9\r\nHost: x\r\n\r\n", b"POST /api/solve/ HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n",
    b"POST /api/solve/ HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nabcde",
    b"POST /api/solve/ HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\n",
    b"GET / HTTP/1.1\r\nHost: x\r\nbad header\r\n\r\n", b"\r\n\r\n\r\n\r\n", b"GET /" + b"a" * 70000 + b" HTTP/1.1\r\n\r\n",
]
PAGES = ["/", "/penpa-edit/", "/penpa-edit/index.html", "/penpa-edit/app.js", "/penpa-edit/solver_metadata.js",
         "/penpa-edit/prepare_deployment.js", "/penpa-edit/nosuch.js", "/api/solve/", "/nosuch"]


def page_request(rng: random.Random, rid: str) -> Dict[str, Any]:
    return {"id": rid, "method": rng.choice(["GET", "GET", "GET", "HEAD"]), "path": rng.choice(PAGES), "page": 1}


# canonical outcomes -----------------------------------------------------------
def canon_board(url: Any) -> str:
    try:
        board = Board.decode(url)
        key = repr((board.everything_else(), sorted(board.marks()), board.answer_rest()))
        return hashlib.sha1(key.encode("utf-8", "surrogatepass")).hexdigest()[:16]
    except Exception as err:
        return f"undecodable:{type(err).__name__}"


def parse_solve_reply(reply) -> Dict[str, Any]:
    """The outcome a client sees, or {"bad": reason} if the reply is not well-formed."""
    try:
        data = json.loads(reply.body.decode("utf-8"))
    except (ValueError, RecursionError) as err:
        return {"bad": f"status {reply.status} with a body that is not JSON: {reply.body[:60]!r} ({type(err).__name__})"}
    if not isinstance(data, dict):
        return {"bad": "the body is not a JSON object"}
    if "json" not in reply.headers.get("content-type", ""):
        return {"bad": "the content type is not JSON"}
    if reply.status == 200:
        urls = data.get("url")
        if not isinstance(urls, list) or not all(isinstance(u, str) for u in urls):
            return {"bad": "a success without a list of boards"}
        return {"status": 200, "urls": urls}
    if reply.status in (400, 500, 504):
        if not isinstance(data.get("detail"), str):
            return {"bad": f"status {reply.status} without a text reason"}
        return {"status": reply.status, "detail": data["detail"]}
    return {"bad": f"unexpected status {reply.status}"}


def canon(outcome: Dict[str, Any]) -> Dict[str, Any]:
    if "urls" in outcome:
        return {"status": 200, "boards": sorted(canon_board(u) for u in outcome["urls"])}
    return outcome


def same(a: Dict[str, Any], b: Dict[str, Any]) -> bool:
    """Equal outcomes; capped lists only have to be equally long."""
    if a.get("status") == b.get("status") == 200:
        if len(a["boards"]) == len(b["boards"]) >= 10:
            return True
        return a["boards"] == b["boards"]
    return a == b


def show(outcome: Dict[str, Any]) -> str:
    if "boards" in outcome:
        return f"200 with {len(outcome['boards'])} boards {[x[:6] for x in outcome['boards']]}"
    return json.dumps(outcome)[:160]


# which replies are owed --------------------------------------------------------
def owed(conn) -> int:
    """How many of the connection's requests must have been answered."""
    count = 0
    for pos, req in enumerate(conn.plan["reqs"]):
        if "raw" in req or conn.taken < conn.offsets[pos]:
            break
        if conn.closed_by == "client" and (conn.plan.get("end") or {}) and len(conn.parser.replies) <= pos:
            break
        count += 1
        if any(h[0].lower() == "connection" and h[1] == "close" for h in req.get("headers", [])):
            break
        replies = conn.parser.replies
    return count


def is_solve(req: Dict[str, Any]) -> bool:
    return "raw" not in req and req.get("method", "POST") == "POST" and req.get("path", "/api/solve/") == "/api/solve/"


def outcomes(run) -> Dict[str, Dict[str, Any]]:
    """Parsed outcome of every answered solve request, by id."""
    out: Dict[str, Dict[str, Any]] = {}
    for conn in run.conns:
        for pos, reply in enumerate(conn.parser.replies[: len(conn.items)]):
            if is_solve(conn.plan["reqs"][pos]):
                out[str(conn.items[pos][0])] = dict(parse_solve_reply(reply), at=reply.at)
    return out


# judges ---------------------------------------------------------------------------
Violation = Dict[str, str]


def v(cls: str, text: str) -> Violation:
    return {"class": cls, "text": text}


def note_of(run, rid: str) -> str:
    for conn in run.conns:
        for pos, (item, _) in enumerate(conn.items):
            if str(item) == rid:
                return conn.plan["reqs"][pos].get("note", "")
    return ""


def judge_replies(run) -> List[Violation]:
    """One complete, well-formed reply per request, in order; the server survives."""
    bad: List[Violation] = []
    if run.deadlock:
        bad.append(v("stuck", f"the server can make no progress: {run.deadlock}"))
    elif run.stuck:
        waiting = [c.number for c in run.conns if not c.over()]
        bad.append(v("stuck", f"connections {waiting} were still waiting when the run ended"))
    if run.world.gone:
        bad.append(v("unavailable", "the server has ended"))
    for conn in run.conns:
        if conn.parser.error:
            bad.append(v("unreadable", f"connection {conn.number}: {conn.parser.error}"))
        replies, need = conn.parser.replies, owed(conn)
        if len(replies) < need and not run.deadlock:
            bad.append(v("missing", f"connection {conn.number}: {need} complete requests delivered, {len(replies)} replies "
                                    f"(request {conn.items[len(replies)][0]} {conn.plan['reqs'][len(replies)].get('note', '')})"))
        sent_items = sum(1 for o in conn.offsets if conn.taken >= o)
        begun = sum(1 for o in [0] + conn.offsets[:-1] if conn.taken > o)
        if len(replies) > max(begun, sent_items) or (conn.closed_by != "client" and conn.parser.data and need == len(conn.items)):
            bad.append(v("extra", f"connection {conn.number}: more was sent than one reply per request"))
        for pos, reply in enumerate(replies[: len(conn.items)]):
            req = conn.plan["reqs"][pos]
            if is_solve(req):
                out = parse_solve_reply(reply)
                if "bad" in out and conn.taken >= conn.offsets[pos]:
                    bad.append(v("malformed", f"request {conn.items[pos][0]} {req.get('note', '')}: {out['bad']}"))
            elif req.get("page") and conn.taken >= conn.offsets[pos]:
                bad += judge_page(req, reply)
    return bad


def judge_page(req, reply) -> List[Violation]:
    path, method = req["path"], req["method"]
    if path == "/":
        if reply.status not in (301, 302, 303, 307, 308) or not reply.headers.get("location", "").endswith("/penpa-edit/"):
            return [v("page", f"{method} / gave {reply.status}, not a redirect to the page")]
        return []
    if path == "/api/solve/":
        return [] if reply.status == 405 else [v("page", f"{method} {path} gave {reply.status}")]
    name = path[len("/penpa-edit/"):] or "index.html"
    full = os.path.join(os.getcwd(), "penpa-edit", name)
    if path.startswith("/penpa-edit/") and os.path.isfile(full):
        with open(full, "rb") as src:
            data = src.read()
        if reply.status != 200 or (method == "GET" and reply.body != data):
            return [v("page", f"{method} {path} gave {reply.status} with {len(reply.body)} of {len(data)} bytes")]
        return []
    return [] if reply.status == 404 else [v("page", f"{method} {path} gave {reply.status}")]


def judge_reference(run, refs: Dict[str, Dict[str, Any]], skip=()) -> List[Violation]:
    """Every reply equals the reply to the same request alone at a fresh server."""
    bad: List[Violation] = []
    for rid, out in outcomes(run).items():
        if rid not in refs or rid in skip:
            continue
        got = canon({k: val for k, val in out.items() if k != "at"})
        if not same(got, refs[rid]):
            bad.append(v("differs", f"request {rid} {note_of(run, rid)}: got {show(got)}, alone {show(refs[rid])}"))
    if run.deadlock:
        bad.append(v("stuck", run.deadlock))
    elif run.stuck:
        bad.append(v("stuck", "requests were never answered"))
    for conn in run.conns:
        for pos in range(len(conn.parser.replies), owed(conn)):
            if str(conn.items[pos][0]) in refs:
                bad.append(v("unanswered", f"request {conn.items[pos][0]} {conn.plan['reqs'][pos].get('note', '')} got no reply, "
                                           f"alone {show(refs[str(conn.items[pos][0])])}"))
    return bad


def judge_limit(run, limit: float) -> List[Violation]:
    """No search runs past the limit; success only with a finished search; no time-out without reason."""
    bad: List[Violation] = []
    tol = max(1.0, 0.02 * limit)
    by_req: Dict[str, List[Any]] = {}
    for search in run.searches:
        by_req.setdefault(str(search.req), []).append(search)
        end = run.sim.now if search.ended is None else search.ended
        stall = search.spec.get("stall_cancel", 0) + search.spec.get("stall_wait", 0) + run.paused(search.req)
        if end - search.started > limit + tol + stall:
            bad.append(v("overrun", f"request {search.req}: search ran {end - search.started:.3f} s, limit {limit} s"))
    outs = outcomes(run)
    for rid, searches in by_req.items():
        out = outs.get(rid)
        if out is None or "status" not in out:
            continue
        last = searches[-1]
        if out["status"] == 200 and last.end_reason not in ("exhausted",) and not (
            last.end_reason == "callback" and last.models_cap and len(last.delivered) >= last.models_cap
        ):
            bad.append(v("partial", f"request {rid}: success although its search was {last.end_reason or 'still running'} "
                                    f"after {len(last.delivered)} answers"))
        held = run.paused(rid)
        if out["status"] == 200 and last.end_reason == "exhausted" and last.ended - last.started > limit + held + 1e-6:
            bad.append(v("partial", f"request {rid}: success for a search of {last.ended - last.started:.3f} s, limit {limit} s"))
        if out["status"] == 200 and len(out["urls"]) != len(last.texts) and last.end_reason == "exhausted":
            bad.append(v("partial", f"request {rid}: {len(out['urls'])} boards for {len(last.texts)} answers"))
        spec = last.spec
        extra = sum(spec.get(k, 0) for k in ("create", "ground", "stall_wait", "stall_cancel")) + held
        unfinished = last.complete is False or spec.get("T", 0.01) > limit + tol + held
        if unfinished and out["status"] != 504:
            bad.append(v("notimeout", f"request {rid}: search unfinished at the limit, status {out['status']}"))
        if not unfinished and out["status"] == 504 and spec.get("T", 0.01) + extra < limit * 0.97 and last.complete:
            bad.append(v("spurious", f"request {rid}: time-out although it took {spec.get('T', 0.01) + extra:.3f} s, limit {limit} s"))
    for rid, out in outs.items():
        if out.get("status") == 504 and rid not in by_req and run.paused(rid) < limit * 0.97:
            bad.append(v("spurious", f"request {rid}: time-out without a search"))
    if run.deadlock or run.stuck:
        bad.append(v("stuck", run.deadlock or "requests were never answered"))
    return bad


def judge_leaks(run) -> List[Violation]:
    """When a request is over, its searches are."""
    bad: List[Violation] = []
    for rid, running in run.running_at_reply:
        for idx in running:
            search = run.searches[idx]
            if str(search.req) == str(rid) and str(rid) not in run.excused:
                bad.append(v("leak", f"request {rid} was answered while its search {idx} was still running"))
    if not run.stuck and not run.deadlock:
        for search in run.searches:
            if search.ended is None and str(search.req) not in run.excused:
                bad.append(v("leak", f"search {search.index} of request {search.req} still runs after everything is over"))
            if search.misused:
                bad.append(v("misuse", f"an answer of search {search.index} was used after its callback"))
    else:
        bad.append(v("stuck", run.deadlock or "requests were never answered"))
    return bad


# independent conversion of answers to marks ----------------------------------------
REFINED = {"battleship", "easyasabc", "news"}


def expected_board(url: str, ptype: str, text: str) -> Optional[str]:
    """The board an answer (facts as text) denotes, or None where this model does not know."""
    if ptype in REFINED:
        return None
    board = Board.decode(url)
    add: Dict[str, Dict[str, Any]] = {k: {} for k in LAYERS}
    for fact in text.split(" "):
        if not fact:
            continue
        name, _, rest = fact.partition("(")
        args = rest.rstrip(")").split(",")
        try:
            r, c = int(args[0]), int(args[1])
        except (ValueError, IndexError):
            return None
        cell = str(board.index(r, c))
        if name in ("edge_top", "edge_left", "edge_diag_up", "edge_diag_down"):
            a = board.index(r - 1, c - 1, 1)
            z = {"edge_top": (r - 1, c), "edge_left": (r, c - 1), "edge_diag_down": (r, c)}.get(name)
            if name == "edge_diag_up":
                a, z = board.index(r, c - 1, 1), (r - 1, c)
            key = f"{a},{board.index(*z, 1)}"
            if not board.q["edge"].get(key):
                add["edge"][key] = 3
        elif name == "grid_direction":
            way = args[2].strip('"')
            other = {"r": (r, c, 3), "d": (r, c, 2), "l": (r, c - 1, 3), "u": (r - 1, c, 2)}.get(way)
            if other is None:
                return None
            key = f"{cell},{board.index(*other)}"
            if ptype == "hashi":
                add["line"][key] = 30 if args[3] == "2" else 3
            elif not board.q["line"].get(key):
                add["line"][key] = 3
        elif name in ("number", "content") and len(args) == 3:
            if not board.q["number"].get(cell):
                add["number"][cell] = [args[2].strip('"'), 2, "1"]
        elif name == "triangle":
            style = {"ul": 1, "ur": 4, "dl": 2, "dr": 3}.get(args[2].strip('"'))
            if style is None:
                return None
            if not board.q["symbol"].get(cell):
                add["symbol"][cell] = [style, "tri", 1]
        elif name in ("gray", "black") and len(args) == 2:
            if not board.q["surface"].get(cell):
                add["surface"][cell] = 8 if name == "gray" else 4
        elif len(args) == 2 and name.count("__") == 1 and name.split("__")[1].isdigit():
            shape, style = name.split("__")
            if ptype == "nondango" or not board.q["symbol"].get(cell):
                add["symbol"][cell] = [int(style), shape, 1]
        else:
            return None
    for layer, marks in add.items():
        board.a[layer].update(marks)
    return canon_board(board.encode())


def judge_delivery(run, singles: Dict[str, List[str]]) -> List[Violation]:
    """A success has exactly one board per answer of its search: the board that answer alone gives."""
    bad: List[Violation] = []
    outs = outcomes(run)
    bodies = {}
    for conn in run.conns:
        for pos, (rid, _) in enumerate(conn.items):
            req = conn.plan["reqs"][pos]
            if is_solve(req):
                try:
                    bodies[str(rid)] = json.loads(base64.b64decode(req["body"]))
                except (ValueError, RecursionError):
                    pass
    for search in run.searches:
        rid = str(search.req)
        out = outs.get(rid)
        if out is None or out.get("status") != 200:
            continue
        mine = [s for s in run.searches if str(s.req) == rid]
        if search is not mine[-1]:
            continue
        got = sorted(canon_board(u) for u in out["urls"])
        cap = 10
        if len(search.delivered) > cap or len(got) > cap:
            bad.append(v("cap", f"request {rid}: {len(got)} boards, cap {cap}"))
        if len(got) != len(search.texts):
            bad.append(v("count", f"request {rid} {note_of(run, rid)}: the search has {len(search.texts)} answers up to the cap, "
                                  f"{len(search.delivered)} were collected, the reply has {len(got)} boards"))
            continue
        body = bodies.get(rid)
        if body is not None:
            want = [expected_board(body["puzzle"], body["puzzle_name"], t) for t in search.texts]
            if None not in want and sorted(want) != got:
                bad.append(v("content", f"request {rid} {note_of(run, rid)}: boards do not show the answers found "
                                        f"(missing {len(set(want) - set(got))}, invented {len(set(got) - set(want))})"))
                continue
        if rid in singles and sorted(singles[rid]) != got:
            bad.append(v("content", f"request {rid} {note_of(run, rid)}: boards differ from those of the same answers delivered one by one"))
    if run.deadlock or run.stuck:
        bad.append(v("stuck", run.deadlock or "requests were never answered"))
    return bad


# histories of one user ---------------------------------------------------------------
def judge_untouched(run) -> List[Violation]:
    """Each answer board is the submitted board plus marks of the answer that cover no clue."""
    bad: List[Violation] = []
    for conn in run.conns:
        for pos, reply in enumerate(conn.parser.replies[: len(conn.items)]):
            req = conn.plan["reqs"][pos]
            if not is_solve(req) or reply.status != 200:
                continue
            rid = str(conn.items[pos][0])
            out = parse_solve_reply(reply)
            try:
                body = json.loads(base64.b64decode(req["body"]))
                sent = Board.decode(body["puzzle"])
            except Exception:
                continue
            search = [s for s in run.searches if str(s.req) == rid][-1:]
            for url in out.get("urls", []):
                text = untouched(sent, url, body["puzzle_name"])
                if text:
                    bad.append(v("touched", f"request {rid} {req.get('note', '')}: {text}"))
                    break
            if search and len(search[0].texts) == len(out.get("urls", [])):
                want = [expected_board(body["puzzle"], body["puzzle_name"], t) for t in search[0].texts]
                if None not in want and sorted(want) != sorted(canon_board(u) for u in out["urls"]):
                    bad.append(v("marks", f"request {rid} {req.get('note', '')}: the boards are not the submitted board plus the answers"))
    if run.deadlock or run.stuck:
        bad.append(v("stuck", run.deadlock or "requests were never answered"))
    return bad


def untouched(sent: Board, url: str, ptype: str) -> Optional[str]:
    try:
        got = Board.decode(url)
    except Exception as err:
        return f"an answer board cannot be read ({type(err).__name__})"
    if got.everything_else() != sent.everything_else():
        where = [i for i, (x, y) in enumerate(zip(sent.parts, got.parts)) if x != y and i != 4]
        return f"an answer board differs from the submitted one in parts {where} ({len(sent.parts)} / {len(got.parts)} parts)"
    if got.answer_rest() != sent.answer_rest():
        return "an answer board lost or changed free drawings of the user"
    for layer in LAYERS:
        old, new = sent.a.get(layer, {}), got.a.get(layer, {})
        lost = [k for k in old if k not in new]
        if lost:
            return f"the user's {layer} marks at {lost[:4]} are gone"
        for key, val in new.items():
            if old.get(key) == val:
                continue
            if layer in ("surface", "number", "symbol", "edge", "line") and sent.q.get(layer, {}).get(key) and not (
                    ptype == "nondango" and layer == "symbol") and not (ptype == "hashi" and layer == "line"):
                return f"the {layer} clue at {key} is covered by {val}"
    return None


def judge_adopted(run) -> List[Violation]:
    """What a reply to an adopted board must contain."""
    bad: List[Violation] = []
    for conn in run.conns:
        for pos, reply in enumerate(conn.parser.replies[: len(conn.items)]):
            req = conn.plan["reqs"][pos]
            if not is_solve(req) or not req.get("adopted"):
                continue
            rid = str(conn.items[pos][0])
            if any(str(s.req) == rid and not s.complete for s in run.searches):
                continue  # the real engine did not finish: not vetted
            if reply.status == 504:
                continue  # decided by C03
            out = canon(parse_solve_reply(reply))
            for want in req["adopted"]:
                what = {"whole": "an adopted answer", "some": "a partly adopted answer", "back": "the board after erasing"}[want["kind"]]
                name = f"request {rid} {req.get('note', '')}"
                if out.get("status") != 200:
                    bad.append(v("rejected", f"{name}: {what} is rejected: {show(out)}"))
                elif len(out["boards"]) >= 10:
                    continue
                elif want["board"] not in out["boards"]:
                    bad.append(v("lost", f"{name}: {what} is not among the answers: {show(out)}, expected {want['board'][:6]}"))
                elif want["only"] and len(out["boards"]) != 1:
                    bad.append(v("more", f"{name}: the only answer, {what}, is one of {len(out['boards'])} when submitted"))
    if run.deadlock or run.stuck:
        bad.append(v("stuck", run.deadlock or "requests were never answered"))
    return bad
