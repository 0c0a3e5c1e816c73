"""Adds to dst/pool.json: boards rejected half-way through their program ("late") and boards under other parameters ("param"). Run once, by hand."""
import json, logging, os, random, sys, time, multiprocessing as mp
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo"); os.chdir("/repo")
sys.dont_write_bytecode = True
sys.argv = ["x"]
logging.disable(logging.CRITICAL)
from dst.board import Board, LAYERS, blank_like
import noqx.clingo as nc
from noqx.manager import load_solvers, modules
load_solvers("solver")
with open("/verif/dst/pool.json") as f:
    POOL = [e for e in json.load(f) if e["kind"] not in ("late", "param")]
BY = {}
for e in POOL:
    BY.setdefault(e["type"], []).append(e)


def bad_mark(board, rng):
    rows, cols = board.size
    b = board.copy()
    for _ in range(rng.choice([1, 1, 2])):
        lay = rng.choice(["number", "symbol", "number", "edge", "line"])
        cat = rng.choice([0, 0, 1, 2, 3])
        idx = str(b.index(rng.randrange(rows), rng.randrange(cols), cat))
        if lay == "number":
            b.q[lay][idx] = [rng.choice(["?", "x", "-", "99", "1.5", "A", "", "12"]), 1, rng.choice(["1", "1", "4", "6"])]
        elif lay == "symbol":
            vocab = list(b.q[lay].values()) or [[2, "star", 1], [1, "circle_M", 1]]
            b.q[lay][idx] = rng.choice(vocab + [[1, "circle_L", 1], [[1, 1, 0, 1], "arrow_fouredge_B", 1], [9, "diamond_S", 1]])
        else:
            b.q[lay][idx] = 98
    return b


def outcome(name, url, p):
    t = time.time()
    try:
        res = len(nc.run_solver(name, url, p)["url"])
    except ValueError:
        res = "400"
    except TimeoutError:
        res = "504"
    except Exception:
        res = "500"
    return res, round((time.time() - t) * 1000)


def work(name):
    nc.Config.time_limit = 4
    out, mod = [], modules[name]
    rng = random.Random(f"late/{name}")
    bases = [e for e in BY[name] if e["kind"] in ("orig", "blank", "drop") and isinstance(e["outcome"], int) and e["outcome"] > 0]
    if not bases:
        bases = [e for e in BY[name] if isinstance(e["outcome"], int)] or BY[name]
    bases = sorted(bases, key=lambda e: len(e["puzzle"]))
    seen, late = {}, []
    for k in range(300):
        base = rng.choice(BY[name] if rng.random() < 0.5 else bases)
        if base["kind"] in ("noparam", "badparam", "cross"):
            continue
        board = bad_mark(Board.decode(base["puzzle"]), rng)
        mod.program = ""
        seen_prog = None
        try:
            p = nc.prepare_puzzle(name, board.encode(), base["param"])
            mod.solve(p)
            continue
        except Exception as err:
            seen_prog, text = mod.program, type(err).__name__ + str(err)[:24]
        if not seen_prog or seen.get((text, board.size)):
            continue
        seen[text, board.size] = 1
        res, ms = outcome(name, board.encode(), base["param"])
        late.append({"type": name, "kind": "late", "puzzle": board.encode(), "param": base["param"], "outcome": res, "ms": ms})
        if len(late) > 4:
            break
    out += late
    # parameters
    pars = mod.parameters
    if pars:
        cand = []
        for base in [b for b in bases if b["kind"] == "orig"] + bases[:2]:
            for _ in range(10):
                p = dict(base["param"])
                for key in rng.sample(sorted(p), rng.randint(1, len(p))):
                    spec = pars[key]
                    if spec["type"] == "checkbox":
                        p[key] = not p[key]
                    elif spec["type"] == "select":
                        p[key] = rng.choice(sorted(spec["default"]))
                    elif spec["type"] == "number":
                        p[key] = rng.choice(["0", "1", "2", "3", "4", "5", "6", "8", "10"])
                    else:
                        p[key] = rng.choice(["AB", "ABC", "ABCD", "XYZ"])
                if p != base["param"] and (base["puzzle"], json.dumps(p, sort_keys=True)) not in [(c[0], json.dumps(c[1], sort_keys=True)) for c in cand]:
                    cand.append((base["puzzle"], p))
        for url, p in cand[:14]:
            res, ms = outcome(name, url, p)
            if ms <= 1000 and res not in ("504",):
                out.append({"type": name, "kind": "param", "puzzle": url, "param": p, "outcome": res, "ms": ms})
    return out


if __name__ == "__main__":
    with mp.Pool(8) as pool:
        more = [r for rs in pool.map(work, sorted(modules), chunksize=1) for r in rs]
    import collections
    print(collections.Counter((r["kind"], str(r["outcome"])) for r in more), len({r["type"] for r in more if r["kind"] == "late"}))
    print("no late:", sorted(set(modules) - {r["type"] for r in more if r["kind"] == "late"}))
    with open("/verif/dst/pool.json", "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(r) for r in POOL + more) + "\n]\n")
