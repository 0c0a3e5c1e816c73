"""One server process of C06: answers its plans and reports the canonical outcome of every request."""

from __future__ import annotations

import json
import os
import sys
import tempfile
import traceback
from typing import List

from . import engine, traffic, world


def main(argv: List[str]) -> int:
    with open(argv[0], encoding="utf-8") as src:
        job = json.load(src)
    out = os.fdopen(os.dup(1), "w")
    sys.stdout = sys.stderr
    try:
        site = tempfile.mkdtemp(prefix="site", dir=job["scratch"])
        engine.CACHE_DIR = job["cache"]
        world.build_site(site)
        wld = world.World()
        try:
            wld.boot(site, job["options"]["argv"], job["options"])
        except world.BootFailure as failure:
            out.write(json.dumps({"kind": "boot", "text": str(failure)}) + "\n")
            out.write(json.dumps({"kind": "end"}) + "\n")
            return 0
        for number, plan in enumerate(job["plans"]):
            def go(_emit, plan=plan):
                run = wld.execute(plan)
                outs = traffic.outcomes(run)
                for item in outs.values():
                    item.pop("at", None)
                return {"outs": {rid: traffic.canon(o) for rid, o in outs.items()}, "fired": wld.state.fired,
                        "digest": run.digest(), "simulated": run.sim.now - 1000.0, "searches": len(run.searches),
                        "switches": run.sim.switches, "events": len(run.sim.history), "stuck": run.deadlock or run.stuck}

            res = world.fork_call(go)
            if "hang" in res:
                res = {"outs": {}, "hang": res["hang"], "digest": "hang", "fired": {}}
            elif "died" in res:
                raise world.HarnessError(f"run died: {res['died']}")
            out.write(json.dumps({"kind": "outs", "plan": number, "res": res}) + "\n")
            out.flush()
        out.write(json.dumps({"kind": "end"}) + "\n")
        return 0
    except BaseException:
        out.write(json.dumps({"kind": "error", "text": traceback.format_exc()}) + "\n")
        return 3
    finally:
        out.flush()


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
