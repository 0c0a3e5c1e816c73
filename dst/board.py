"""Independent codec for penpa-edit URLs, plus seeded board mutations.

Nothing here imports the code under test: the oracle must not share its decoder.
"""

from __future__ import annotations

import copy
import json
import zlib
from base64 import b64decode, b64encode
from typing import Any, Dict, List, Optional, Tuple

PREFIX = "m=edit&p="
ABBR = [
    ("z9", '"qa"'), ("zQ", '"pu_q"'), ("zA", '"pu_a"'), ("zG", '"grid"'), ("zM", '"edit_mode"'),
    ("zS", '"surface"'), ("zL", '"line"'), ("zE", '"edge"'), ("zW", '"wall"'), ("zC", '"cage"'),
    ("zN", '"number"'), ("z1", '"sudoku"'), ("zY", '"symbol"'), ("zP", '"special"'), ("zB", '"board"'),
    ("zR", '"command_redo"'), ("zU", '"command_undo"'), ("z8", '"command_replay"'), ("zF", '"freeline"'),
    ("z2", '"freeedge"'), ("zT", '"thermo"'), ("z3", '"arrows"'), ("zD", '"d"'), ("z0", '"squareframe"'),
    ("z5", '"polygon"'), ("z4", '"deleteedge"'), ("z6", '"killercages"'), ("z7", '"nobulbthermo"'),
    ("z_", '"__a"'), ("zO", "null"),
]  # fmt: skip
LAYERS = ("surface", "number", "sudoku", "symbol", "edge", "line")


def expand(text: str) -> str:
    for short, long in ABBR:
        text = text.replace(short, long)
    return text


def shrink_text(text: str) -> str:
    for short, long in ABBR:
        text = text.replace(long, short)
    return text


def dump(layer: Any) -> str:
    """As the page writes it: letters as they are."""
    text = json.dumps(layer, separators=(",", ":"), ensure_ascii=False)
    try:
        text.encode()
    except UnicodeEncodeError:  # only a crafted board has half of a character
        text = json.dumps(layer, separators=(",", ":"))
    return text


class Board:
    """A decoded penpa URL: raw parts, clue layer `q`, answer layer `a`."""

    def __init__(self, parts: List[str]):
        self.parts = parts
        self.q: Dict[str, Any] = json.loads(expand(parts[3]))
        self.a: Dict[str, Any] = json.loads(expand(parts[4]))

    @classmethod
    def decode(cls, url: str) -> "Board":
        if not url.startswith(PREFIX):
            raise ValueError("missing penpa prefix")
        raw = b64decode(url[len(PREFIX):], validate=True)
        return cls(zlib.decompress(raw, -15).decode().split("\n"))

    def encode(self) -> str:
        parts = list(self.parts)
        parts[3] = shrink_text(dump(self.q))
        parts[4] = shrink_text(dump(self.a))
        comp = zlib.compressobj(9, zlib.DEFLATED, -15)
        return PREFIX + b64encode(comp.compress("\n".join(parts).encode()) + comp.flush()).decode()

    def copy(self) -> "Board":
        new = Board.__new__(Board)
        new.parts = list(self.parts)
        new.q = copy.deepcopy(self.q)
        new.a = copy.deepcopy(self.a)
        return new

    # geometry -----------------------------------------------------------------
    @property
    def margin(self) -> Tuple[int, int, int, int]:
        return tuple(json.loads(self.parts[1]))

    @property
    def size(self) -> Tuple[int, int]:
        head = self.parts[0].split(",")
        t, b, l, r = self.margin
        return int(head[2]) - t - b, int(head[1]) - l - r

    @property
    def full(self) -> Tuple[int, int]:
        head = self.parts[0].split(",")
        return int(head[2]) + 4, int(head[1]) + 4

    def index(self, r: int, c: int, category: int = 0) -> int:
        t, _, l, _ = self.margin
        fr, fc = self.full
        return category * fr * fc + (r + 2 + t) * fc + c + 2 + l

    def coord(self, index: int) -> Tuple[int, int, int]:
        t, _, l, _ = self.margin
        fr, fc = self.full
        category, rest = divmod(index, fr * fc)
        return rest // fc - 2 - t, rest % fc - 2 - l, category

    # views --------------------------------------------------------------------
    def marks(self, layer: str = "a") -> frozenset:
        """The drawn elements of a layer, canonical and hashable."""
        data = self.a if layer == "a" else self.q
        return frozenset((k, key, json.dumps(val)) for k in LAYERS for key, val in data.get(k, {}).items())

    def everything_else(self) -> Tuple:
        """All that a solve must not touch: every part but the answer layer, byte for byte."""
        return tuple(p for i, p in enumerate(self.parts) if i != 4)

    def answer_rest(self) -> str:
        """The parts of the answer layer that hold no marks."""
        return json.dumps({k: v for k, v in self.a.items() if k not in LAYERS}, sort_keys=True)


def blank_like(board: Board, rows: int, cols: int) -> Board:
    """An empty board of another size, with the header style and margins of `board`."""
    new = board.copy()
    t, b, l, r = board.margin
    head = new.parts[0].split(",")
    head[1], head[2] = str(cols + l + r), str(rows + t + b)
    new.parts[0] = ",".join(head)
    for layer in (new.q, new.a):
        for key in LAYERS:
            layer[key] = {}
    return new


def reframe(board: Board, margin: Tuple[int, int, int, int]) -> Board:
    """The same board with other margins."""
    rows, cols = board.size
    new = board.copy()
    head = new.parts[0].split(",")
    head[1], head[2] = str(cols + margin[2] + margin[3]), str(rows + margin[0] + margin[1])
    new.parts[0] = ",".join(head)
    new.parts[1] = json.dumps(list(margin), separators=(",", ":"))

    def move(index: int) -> int:
        r, c, category = board.coord(index)
        return new.index(r, c, category)

    def move_key(layer: str, key: str) -> str:
        if layer == "sudoku":
            return str(4 * move(int(key) // 4) + int(key) % 4)
        return ",".join(str(move(int(k))) for k in key.split(","))

    for old, fresh in ((board.q, new.q), (board.a, new.a)):
        for layer, marks in old.items():
            if isinstance(marks, dict) and not layer.startswith("command"):
                try:
                    fresh[layer] = {move_key(layer, k): val for k, val in marks.items()}
                except ValueError:
                    pass
    return new


FOREIGN = ["数独", "Ж?", "é", "ñ1", "①②", "→←", "🂡", "№", "\u200b", "ß"]


def title(rng, board: Board) -> None:
    """Names and remarks in the head of the board, as its author may have left them."""
    head = board.parts[0].split(",")
    for pos, field in enumerate(head):
        if field in ("Title: ", "Author: ") and rng.random() < 0.7:
            head[pos] = field + rng.choice(FOREIGN + ["Easy one", "a%2C b", "10x10 'n' \"q\"", "Two words ", "  ", "tab\t"])
    if len(head) > 4 and head[-1] in ("false", "true"):
        for pos in (-4, -3):  # source and rules
            if head[pos] == "" and rng.random() < 0.3:
                head[pos] = rng.choice(FOREIGN + ["Shade cells%2C then connect. ", "%2D first%2D second", " "])
    board.parts[0] = ",".join(head)
    if rng.random() < 0.4:
        board.parts[8] = rng.choice(['"x"', '"1"'])
    if rng.random() < 0.4 and len(board.parts) > 17:
        board.parts[17] = rng.choice(['["mine"]', '["two words", "é"]', "[]"])


def restyle(rng, board: Board) -> None:
    """The same clues drawn with other pens: styles that mean the same."""
    for key, val in board.q["edge"].items():
        if "," in key and val == 2 and rng.random() < 0.5:
            board.q["edge"][key] = rng.choice([3, 5, 8, 21])
    for key, val in board.q["surface"].items():
        if val in (1, 3, 8) and rng.random() < 0.5:
            board.q["surface"][key] = rng.choice([1, 3, 8])
    for val in board.q["number"].values():
        if isinstance(val, list) and len(val) == 3 and rng.random() < 0.3:
            val[1] = rng.choice([1, 2, 5, 8, 9, 10])
    for val in board.q["symbol"].values():
        if isinstance(val, list) and len(val) == 3 and rng.random() < 0.3:
            val[2] = rng.choice([1, 2])


def scribble(rng, board: Board, count: int) -> None:
    """Things a user draws while thinking, most of them without a meaning for a solver."""
    rows, cols = board.size
    for _ in range(count):
        r, c = rng.randrange(rows), rng.randrange(cols)
        cell = str(board.index(r, c))
        kind = rng.choice(["candidates", "note", "colour", "freeline", "cross_edge", "cross_line", "wall", "cage", "thermo", "green", "star",
                           "history", "other", "clue_note", "clue_colour"])
        a = board.a
        if kind == "candidates" and cell not in board.q["number"]:
            a["number"].setdefault(cell, [rng.choice(["12", "34", "1 9"]), 1, "7"])
        elif kind == "note" and cell not in board.q["number"]:
            a["number"].setdefault(cell, [rng.choice(FOREIGN), 1, "7"])
        elif kind == "clue_note" and cell not in a["number"]:  # on the layer of the clues
            board.q["number"].setdefault(cell, [rng.choice(["12", "34", "1 9", *FOREIGN]), 1, "7"])
        elif kind == "clue_colour" and cell not in a["surface"]:
            board.q["surface"].setdefault(cell, rng.choice([5, 6, 7, 9]))
        elif kind == "colour":
            a["surface"].setdefault(cell, rng.choice([5, 6, 7, 9]))
        elif kind == "freeline":
            a.setdefault("freeline", {})[f"{cell},{board.index(rng.randrange(rows), rng.randrange(cols))}"] = 3
        elif kind == "cross_edge" and 0 < r < rows - 1 and 0 < c < cols - 1:
            if rng.random() < 0.3:
                a["edge"].setdefault(str(board.index(r, c, rng.choice([2, 3]))), 98)
        elif kind == "cross_line":
            if rng.random() < 0.3 and r < rows - 1 and c < cols - 1:
                a["line"].setdefault(str(board.index(r, c, rng.choice([2, 3]))), 98)
        elif kind == "wall":
            a.setdefault("wall", {})[f"{board.index(r, c, 2)},{board.index(r, c, 3)}"] = 2
        elif kind == "cage":
            a.setdefault("cage", {})[f"{board.index(r, c, 1)},{board.index(r, c, 2)}"] = 10
        elif kind == "thermo":
            a.setdefault("thermo", []).append([int(cell), board.index(rng.randrange(rows), rng.randrange(cols))])
        elif kind == "history":  # what the editor keeps for its undo button
            for name in rng.sample(["command_undo", "command_redo", "command_replay"], 2):
                steps = a.setdefault(name, {"__a": []}).setdefault("__a", [])
                steps.append(rng.choice([["symbol", int(cell), None, "pu_a_col", 0], ["number", int(cell), [rng.choice(FOREIGN), 1, "7"], "pu_a"],
                                         ["surface", int(cell), 2, "pu_a"], ["line", f"{cell},{int(cell) + 1}", None, "pu_a"]]))
        elif kind == "other":
            name = rng.choice(["freeedge", "arrows", "killercages", "nobulbthermo", "polygon", "squareframe", "d", "deleteedge"])
            if isinstance(a.get(name), list):
                a[name].append([int(cell), board.index(rng.randrange(rows), rng.randrange(cols))])
            elif isinstance(a.get(name), dict):
                a[name][f"{cell},{board.index(rng.randrange(rows), rng.randrange(cols))}"] = rng.choice([1, 3])
        elif kind == "green" and rng.random() < 0.3:
            a["surface"].setdefault(cell, 2)
        elif kind == "star" and rng.random() < 0.3 and cell not in board.q["symbol"]:
            a["symbol"].setdefault(cell, [2, "star", 1])
