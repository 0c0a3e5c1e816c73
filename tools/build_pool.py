"""Builds dst/pool.json: vetted solve requests (run once, by hand; the result is committed)."""
import json, logging, os, random, sys, time, multiprocessing as mp
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo"); os.chdir("/repo")
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
from dst.board import Board, LAYERS, blank_like
import noqx.clingo as nc
from noqx.manager import load_solvers, modules
load_solvers("solver")

def params(mod, ex):
    cfg = ex.get("config") or {}
    out = {}
    for k, v in mod.parameters.items():
        d = v["default"]
        if v["type"] == "select":
            d = next(iter(d)) if isinstance(d, dict) else d
        val = cfg.get(k, d)
        out[k] = val if isinstance(val, bool) else str(val)
    return out

def mutate(board, rng, kind):
    b = board.copy()
    if kind == "drop":
        lays = [k for k in LAYERS if b.q[k]]
        if not lays: return None
        lay = rng.choice(lays)
        ks = list(b.q[lay]); rng.shuffle(ks)
        for k in ks[:rng.randint(1, max(1, len(ks) // 3))]: del b.q[lay][k]
    elif kind == "blank":
        rows, cols = rng.randint(2, 5), rng.randint(2, 5)
        n = blank_like(board, rows, cols)
        t, l = board.margin[0], board.margin[2]
        for lay in ("surface", "number", "symbol"):
            vocab = list(b.q[lay].values())
            if vocab and rng.random() < 0.8:
                for _ in range(rng.randint(0, 3)):
                    n.q[lay][str(n.index(rng.randrange(rows), rng.randrange(cols)))] = rng.choice(vocab)
        b = n
    elif kind == "dup":
        lays = [k for k in ("number", "symbol", "surface") if b.q[k]]
        if not lays: return None
        lay = rng.choice(lays); rows, cols = b.size
        for _ in range(rng.randint(1, 3)):
            b.q[lay][str(b.index(rng.randrange(rows), rng.randrange(cols)))] = rng.choice(list(b.q[lay].values()))
    return b

BOARDS = {}
for _n in sorted(modules):
    for _e in modules[_n].examples:
        if _e.get("data"):
            BOARDS.setdefault(_n, []).append(_e["data"])

def work(name):
    out = []
    mod = modules[name]
    nc.Config.time_limit = 4
    for i, ex in enumerate(mod.examples):
        if not ex.get("data"): continue
        board = Board.decode(ex["data"]); p = params(mod, ex)
        todo = [("orig", board)]
        for kind in ("drop", "drop", "blank", "blank", "blank", "dup", "dup"):
            todo.append((kind, mutate(board, random.Random(f"{name}/{i}/{len(todo)}"), kind)))
        r2 = random.Random(f"{name}/{i}/x")
        for _ in range(4):
            todo.append(("cross", r2.choice(BOARDS[r2.choice(sorted(BOARDS))])))
        todo.append(("noparam", ex["data"]))
        todo.append(("badparam", ex["data"]))
        for kind, b in todo:
            if b is None: continue
            url = ex["data"] if kind == "orig" else b if isinstance(b, str) else b.encode()
            p = params(mod, ex)
            if kind == "noparam":
                if not p: continue
                p = {}
            if kind == "badparam":
                if not p: continue
                k = r2.choice(sorted(p)); p[k] = r2.choice(["", "x", "-1", None, [], "0"])
            t = time.time()
            try:
                res = nc.run_solver(name, url, p)["url"]; outcome = len(res)
            except ValueError as e: outcome = "400"
            except TimeoutError: outcome = "504"
            except Exception as e: outcome = "500"
            dt = time.time() - t
            if dt > (1.0 if kind != "orig" else 5): continue
            out.append({"type": name, "kind": kind, "puzzle": url, "param": p, "outcome": outcome, "ms": round(dt * 1000)})
    return out

if __name__ == "__main__":
    with mp.Pool(8) as pool:
        allr = [r for rs in pool.map(work, sorted(modules), chunksize=1) for r in rs]
    with open("/verif/dst/pool.json", "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(r) for r in allr) + "\n]\n")
    import collections
    print(len(allr), collections.Counter((r["kind"], str(r["outcome"])) for r in allr))
