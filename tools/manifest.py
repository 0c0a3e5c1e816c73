"""Writes MANIFEST.json (run by hand after changing what is claimed)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B -m dst.run"
SERVER = ("Seeded search over simulated executions of the real server (uvicorn, starlette, main.py, noqx, solver) in one process: "
          "schedules, network, engine timing and failures are chosen by the seed. Holds on everything explored; nothing is proved. "
          "Trusted: the simulator, the independent codec and the judges in dst/.")
CLAIMED = {
    "C01": ("deterministic simulation with fault injection, replies compared with solo reference runs", "exploration", SERVER),
    "C02": ("deterministic simulation with fault injection of network and malformed traffic", "exploration", SERVER),
    "C03": ("deterministic simulation on virtual time with slow searches, grounding and clock jumps", "exploration", SERVER),
    "C04": ("deterministic simulation with fault injection, engine threads audited at each reply and at the end", "exploration", SERVER),
    "C05": ("deterministic simulation of answer arrival schedules, independent conversion as oracle", "exploration", SERVER),
    "C06": ("deterministic simulation of server processes differing in every random source, outcomes compared", "exploration", SERVER),
    "C07": ("deterministic simulation with fault injection at engine calls and at lines of the code", "exploration", SERVER),
    "C12": ("deterministic simulation of interleaved bridge calls with fault injection, compared with the simulated server", "exploration",
            "Seeded search over interleavings and failing calls of the in-browser solver loaded from a real deployment build; the "
            "pyscript bridge and clingo-wasm are stand-ins. Nothing is proved."),
    "C13": ("deterministic simulation of user histories among other traffic, independent codec as oracle", "exploration", SERVER),
    "C14": ("deterministic simulation of solve/adopt/erase histories among other traffic", "exploration", SERVER),
    "C15": ("deterministic simulation with fault injection under random start-up options, effective engine settings judged", "exploration", SERVER),
}
STORAGE = ("Seeded search over crash points, torn and unsynced writes, disk errors, directory orders and interleavings of the real start-up "
           "and build code on a simulated disk. Holds on everything explored; nothing is proved. Trusted: the disk model in dst/disk.py.")
PAGE = ("Seeded search over user actions, reply orders, delays and failures with the real page script on a simulated page (DOM, editor, "
        "network and engine are stand-ins). Holds on everything explored; nothing is proved.")
MORE = {
    "C08": ("deterministic simulation with crash and disk-fault injection of the start-up code", "exploration", STORAGE),
    "C09": ("deterministic simulation with crash and disk-fault injection of the deployment build", "exploration", STORAGE),
    "C16": ("deterministic simulation of start-ups over directory orders, added files and failing imports", "exploration", STORAGE),
    "C10": ("deterministic simulation of the page with delayed, reordered, lost and failing replies", "exploration", PAGE),
    "C11": ("deterministic simulation of the page over action sequences and outcomes", "exploration", PAGE),
    "C20": ("deterministic simulation of the page over choices, imports and solves in flight", "exploration", PAGE),
}
PURE = ("The property speaks about one pure computation of one input: no schedule, clock, I/O, fault or history takes part in it, so a "
        "simulator has nothing to decide. ")
NOT = {
    "C17": PURE + "Deciding it needs an independent rule checker for each of the 130 puzzle types.",
    "C18": PURE + "Deciding it needs an independent complete solver for each of the 130 puzzle types.",
    "C19": PURE + "What of it shows in histories (answers, clues, margins, adopted boards) is decided by C05, C13 and C14.",
}


def main():
    import sys

    sys.path.insert(0, ROOT)
    from dst.families import FAMILY

    claimed = dict(CLAIMED)
    claimed.update({p: item for p, item in MORE.items() if p in FAMILY})
    data = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -m dst.setup",
        "checks": [
            {"property": prop, "quick_cmd": f"{PY} {prop} quick", "thorough_cmd": f"{PY} {prop} thorough",
             "evidence_file": f"evidence/{prop}.json", "technique": tech, "level": level, "level_note": note}
            for prop, (tech, level, note) in sorted(claimed.items())
        ],
        "not_applicable": [{"property": p, "reason": r} for p, r in NOT.items()]
        + [{"property": p, "reason": "check not built yet"} for p in MORE if p not in claimed],
        "notes": "No hooks in /repo: every seam used is an import, a standard library call or a library interface. "
                 "Replay a violation with: /opt/venv/bin/python -B -m dst.run --replay FILE",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as out:
        json.dump(data, out, indent=1)
        out.write("\n")


main()
