From e69603433ca61315471b9f946d818c9e6ea8e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 01/12] fix: make the room search deterministic

full_bfs started each room at a random cell and kept the last clue it met, so
a room with several clues gave different answers to identical requests.
---
 noqx/rule/helper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/noqx/rule/helper.py b/noqx/rule/helper.py
index 2f89f12..0789539 100644
--- a/noqx/rule/helper.py
+++ b/noqx/rule/helper.py
@@ -1,6 +1,5 @@
 """Helper functions for generation solvers and rules."""
 
-import random
 from collections import deque
 from typing import Dict, Iterable, Iterator, Optional, Tuple, Union
 
@@ -100,7 +99,7 @@ def full_bfs(
         return clue_cell, tuple(connected_component)
 
     while len(unexplored_cells) != 0:
-        start_cell = random.choice(tuple(unexplored_cells))  # get a random start cell
+        start_cell = min(unexplored_cells)  # a fixed start cell, so that the same board always gives the same rooms and clues
         clue, room = single_bfs(start_cell)
         clue_to_room[room] = clue
 
-- 
2.43.0


From c3e3797c7acf0a28ea732c0b12c95ee020478709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 02/12] fix: accept battleship middle parts on the border of
 the board

The solver itself returns such parts, and rejected them when the board came back.
---
 solver/battleship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 220d55e..10b3ae1 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -43,7 +43,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r}, {c - 1}), {fleet_name}({r}, {c - 1}).")
 
             if style == "2":
-                fail_false(0 < c < puzzle.col - 1 and 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
+                fail_false(0 < c < puzzle.col - 1 or 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
                 self.add_program_line(f":- #count {{ R, C: {fleet_name}(R, C), adj_4({r}, {c}, R, C) }} != 2.")
 
             if style == "3":
-- 
2.43.0


From 46025eb205f6ce5eb75617e6f7da3d2f64be28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 03/12] fix: keep juosan clues when lines are already drawn on
 the board

A drawn line in a room was taken for its clue, so the count was dropped and a
returned board sent back had extra answers.
---
 solver/juosan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/juosan.py b/solver/juosan.py
index 86b134f..3d3df9e 100644
--- a/solver/juosan.py
+++ b/solver/juosan.py
@@ -44,7 +44,8 @@ class JuosanSolver(Solver):
         self.add_program_line(shade_c())
         self.add_program_line(jousan_constraint())
 
-        areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
+        clues = {point: num for point, num in puzzle.text.items() if point.pos == "sudoku_0"}  # neglect the drawn lines
+        areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, clues)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
             if rc:
-- 
2.43.0


From 6f53bb5f19405a6b21b161ef3a18fff7d59b6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 04/12] fix: read numbers in blank kakuru cells as filled in

They were taken for clues, so a returned board sent back had no answer.
---
 solver/kakuru.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/solver/kakuru.py b/solver/kakuru.py
index 4a57502..45e8d35 100644
--- a/solver/kakuru.py
+++ b/solver/kakuru.py
@@ -1,7 +1,7 @@
 """The Kakuru solver."""
 
 from noqx.manager import Solver
-from noqx.puzzle import Color, Puzzle
+from noqx.puzzle import Color, Point, Puzzle
 from noqx.rule.common import defined, display, grid
 from noqx.rule.helper import fail_false, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent, avoid_num_adjacent
@@ -32,6 +32,11 @@ class KakuruSolver(Solver):
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
             validate_type(pos, "normal")
+            if Point(r, c) not in puzzle.surface:  # a number in a blank cell is filled in already, not a clue
+                if isinstance(num, int):
+                    self.add_program_line(f":- not number({r}, {c}, {num}).")
+                continue
+
             self.add_program_line(f":- number(_, _, N), {{ grid(R, C): number(R, C, N), adj_8(R, C, {r}, {c}) }} > 1.")
             if isinstance(num, int):
                 self.add_program_line(f":- #sum {{ N, R, C: number(R, C, N), adj_8(R, C, {r}, {c}) }} != {num}.")
-- 
2.43.0


From 9ce8d76a81405b1b00f9a88fe83a4910992f5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 05/12] fix: rewrite the page's generated files as a whole

prepare_deployment.js is read, truncated and written back at every start-up and
deployment: a stop in between, or another process starting at the same time,
left it empty, and no later start-up could restore it.
---
 main.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/main.py b/main.py
index f30d890..01ca570 100644
--- a/main.py
+++ b/main.py
@@ -45,6 +45,21 @@ async def solver_api(request: Request) -> JSONResponse:
         return JSONResponse({"detail": "Unknown error."}, status_code=500)
 
 
+def rewrite_file(filename: str, content: str):
+    """Rewrite a file as a whole: whenever the process stops, either the old or the new content is there."""
+    temp_name = f"{filename}.{os.getpid()}.tmp"
+    try:
+        with open(temp_name, "w", encoding="utf-8", newline="\n") as temp:
+            temp.write(content)
+            temp.flush()
+            os.fsync(temp.fileno())
+        os.replace(temp_name, filename)
+    except BaseException:
+        if os.path.exists(temp_name):
+            os.remove(temp_name)
+        raise
+
+
 # argument parser
 parser = argparse.ArgumentParser(description="noqx startup settings.")
 parser.add_argument("-H", "--host", default="127.0.0.1", type=str, help="the host to run the server on.")
@@ -75,16 +90,14 @@ if __name__ == "main" or (__name__ == "__main__" and args.enable_deployment):
     logging.debug("Loading solvers...")
     load_solvers("solver")
 
-    with open("penpa-edit/solver_metadata.js", "w", encoding="utf-8", newline="\n") as f:
-        # dump the metadata to a javascript file for further import
-        logging.debug("Dumping solver metadata...")
-        f.write(f"const solver_metadata = {json.dumps(list_solver_metadata(), indent=2)};")
+    # dump the metadata to a javascript file for further import
+    logging.debug("Dumping solver metadata...")
+    rewrite_file("penpa-edit/solver_metadata.js", f"const solver_metadata = {json.dumps(list_solver_metadata(), indent=2)};")
 
     with open("./penpa-edit/prepare_deployment.js", "r", encoding="utf-8", newline="\n") as f:
         fin = f.read()
 
-    with open("./penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
-        f.write(fin.replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false"))
+    rewrite_file("./penpa-edit/prepare_deployment.js", fin.replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false"))
 
 
 if args.enable_deployment:
@@ -109,8 +122,7 @@ if args.enable_deployment:
     with open("./penpa-edit/prepare_deployment.js", "r", encoding="utf-8", newline="\n") as f:
         fin = f.read()
 
-    with open("./penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
-        f.write(fin.replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true"))
+    rewrite_file("./penpa-edit/prepare_deployment.js", fin.replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true"))
 
     for filename in os.listdir("penpa-edit"):
         shutil.copy(f"./penpa-edit/{filename}", f"./dist/page/penpa-edit/{filename}")
@@ -123,8 +135,7 @@ if args.enable_deployment:
     with open("./penpa-edit/prepare_deployment.js", "r", encoding="utf-8", newline="\n") as f:
         fin = f.read()
 
-    with open("./penpa-edit/prepare_deployment.js", "w", encoding="utf-8", newline="\n") as f:
-        f.write(fin.replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false"))
+    rewrite_file("./penpa-edit/prepare_deployment.js", fin.replace("ENABLE_DEPLOYMENT = true", "ENABLE_DEPLOYMENT = false"))
 
     sys.exit(0)
 
-- 
2.43.0


From fa17393ba1395fb7e50fbbac35504cc15d020400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 06/12] fix: answer with JSON when an error message quotes
 unpaired surrogates

Encoding the reply failed inside the error handler, so the client got a plain
text 500 instead of the reason its board was rejected.
---
 main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 01ca570..31900db 100644
--- a/main.py
+++ b/main.py
@@ -37,7 +37,8 @@ async def solver_api(request: Request) -> JSONResponse:
         return JSONResponse(result)
     except ValueError as err:
         logging.error(traceback.format_exc())
-        return JSONResponse({"detail": str(err)}, status_code=400)
+        detail = str(err).encode("utf-8", "backslashreplace").decode("utf-8")  # the message may quote unpaired surrogates
+        return JSONResponse({"detail": detail}, status_code=400)
     except TimeoutError as err:
         return JSONResponse({"detail": str(err)}, status_code=504)
     except Exception:  # pylint: disable=broad-except  # pragma: no cover
-- 
2.43.0


From c39f40ebb9a2383e83651eec4ce04c01353fc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 07/12] fix: neglect the reply to a solve abandoned by Reset

A late reply replaced the board being edited with the old puzzle's solution, a
late error disabled Solve on it, and a first solve ending in an error threw.
---
 penpa-edit/app.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index eacf0e4..6d6a202 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -161,6 +161,7 @@ $(window).on("load", function () {
   let puzzleContent = null;
   let solutionList = null;
   let solutionPointer = -1;
+  let solveToken = 0; // identifies the current solve, replies to abandoned ones are neglected
   let puzzleParameters = {};
 
   let puzzleSearchBoxInput = document.querySelector(".choices__input.choices__input--cloned");
@@ -332,6 +333,7 @@ $(window).on("load", function () {
           }
         }
       } else {
+        const token = ++solveToken;
         fetch("/api/solve/", {
           method: "POST",
           body: JSON.stringify({
@@ -343,6 +345,7 @@ $(window).on("load", function () {
         })
           .then(async (response) => {
             let body = await response.json();
+            if (token !== solveToken) return;
             if (response.status === 400 || response.status === 500) {
               Swal.fire({
                 icon: "error",
@@ -377,6 +380,7 @@ $(window).on("load", function () {
             }
           })
           .catch((e) => {
+            if (token !== solveToken) return;
             Swal.fire({
               icon: "question",
               title: "Unexpected error",
@@ -385,6 +389,7 @@ $(window).on("load", function () {
             });
           })
           .finally(() => {
+            if (token !== solveToken || !solutionList) return;
             solveButton.textContent = `Solution (${solutionPointer + 1}/${
               solutionList.length === 10 ? "10+" : solutionList.length
             })`;
@@ -404,6 +409,7 @@ $(window).on("load", function () {
   });
 
   resetButton.addEventListener("click", async () => {
+    solveToken++; // abandon the current solve
     if (puzzleContent !== null) {
       if (ENABLE_DEPLOYMENT && solveButton.textContent === "Solving..." && solveButton.disabled === true) {
         clingo.worker.terminate(); // terminate the web worker
-- 
2.43.0


From d2628d0d56d4effa3ba4e100bcbb468b88cc4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 08/12] fix: report errors raised during the search

The search runs in the background, and its errors are only raised by get():
a search or a model callback that failed, e.g. out of memory, gave a success
with the solutions found until then.
---
 noqx/clingo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index 1ed75f5..ac8de40 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -51,6 +51,7 @@ class ClingoSolver:
         with self.clingo_instance.solve(on_model=self.store_model, async_=True) as handle:  # type: ignore
             handle.wait(Config.time_limit)
             handle.cancel()
+            handle.get()  # raise any error that stopped the search or the collection of its models
 
     def solution(self) -> List[str]:
         """Get the solutions."""
-- 
2.43.0


From 57895601e5fa6af7a4a18e8ce1fe68953f705916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 09/12] fix: refuse to start when no solver can be found

pkgutil yields nothing if the directory can not be read, so the server
started, and the deployment was built, with an empty list of puzzles.
---
 noqx/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/noqx/manager.py b/noqx/manager.py
index 0ac4691..7612436 100644
--- a/noqx/manager.py
+++ b/noqx/manager.py
@@ -16,6 +16,9 @@ def load_solvers(solver_dir: str):
     for module_info in pkgutil.iter_modules([solver_dir]):
         puzzle_names.append(module_info.name)
 
+    if not puzzle_names:  # pkgutil also yields nothing if the directory can not be read
+        raise ValueError(f"No solver found in {solver_dir}.")
+
     for pt in sorted(puzzle_names):
         __import__(f"{solver_dir}.{pt}")
 
-- 
2.43.0


From a89b263bc0ae663fc6bce2a893912daa46d15ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 10/12] fix: import penpa boards without renaming parts of
 their content

---
 penpa-edit/app.js | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index 6d6a202..5245071 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -6,9 +6,7 @@ function exp() {
   return result;
 }
 
-function imp(penpa) {
-  let urlstring = penpa || document.getElementById("urlstring").value;
-
+function replace_unsupported(urlstring) {
   // replace unsupported solver to supported solvers
   urlstring = urlstring.replace("chocona", "aqre");
   urlstring = urlstring.replace("cocktail", "aqre");
@@ -34,6 +32,16 @@ function imp(penpa) {
 
   // replace unsupported host to supported host
   urlstring = urlstring.replace("pzplus.tck.mn", "puzz.link");
+  return urlstring;
+}
+
+function imp(penpa) {
+  let urlstring = penpa || document.getElementById("urlstring").value;
+
+  // the names may occur by chance in the encoded content of a penpa board
+  if (!urlstring.includes("m=edit")) {
+    urlstring = replace_unsupported(urlstring);
+  }
 
   // interception for solver mode
   if (urlstring && urlstring.includes("m=solve")) {
-- 
2.43.0


From cdffd908858ae3144b47c84c417fb26a67afac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 11/12] fix: send only the parameters of the current puzzle
 type

The parameters of the previous solve were sent along when another type with
parameters was chosen.
---
 penpa-edit/app.js | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index 5245071..d294a26 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -273,14 +273,13 @@ $(window).on("load", function () {
       solveButton.textContent = "Solving...";
       solveButton.disabled = true;
 
+      puzzleParameters = {}; // reset parameters
       if (Object.keys(solver_metadata[puzzleName].parameters).length > 0) {
         for (const [k, _] of Object.entries(solver_metadata[puzzleName].parameters)) {
           const paramInput = document.getElementById(`param_${k}`);
           if (paramInput.type === "checkbox") puzzleParameters[k] = paramInput.checked;
           else puzzleParameters[k] = paramInput.value;
         }
-      } else {
-        puzzleParameters = {}; // reset parameters
       }
 
       if (ENABLE_DEPLOYMENT) {
-- 
2.43.0


From 47b8a78c8c82d472391c2b51c7fbcc4b7d2d2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 12/12] fix: let the engine simplify programs as it does by
 default

One iteration of its equivalence preprocessing (eq = 1) makes clasp lose answers of norinuri boards on which some cells are drawn already:
a board with a solution is told to have none.
---
 noqx/clingo.py    | 2 +-
 penpa-edit/app.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index ac8de40..d1a81f7 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -43,7 +43,7 @@ class ClingoSolver:
         """Solve the problem."""
         self.clingo_instance.configuration.sat_prepro = 2
         self.clingo_instance.configuration.asp.trans_ext = "dynamic"  # type: ignore
-        self.clingo_instance.configuration.asp.eq = 1  # type: ignore
+        self.clingo_instance.configuration.asp.eq = 3  # type: ignore
         self.clingo_instance.configuration.solve.parallel_mode = Config.parallel_threads  # type: ignore
         self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore
         self.clingo_instance.add(program=program)
diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index d294a26..5bae8b8 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -294,7 +294,7 @@ $(window).on("load", function () {
             throw new Error(program.get("result"));
           }
 
-          const options = "--sat-prepro --trans-ext=dynamic --eq=1 --models=10";
+          const options = "--sat-prepro --trans-ext=dynamic --eq=3 --models=10";
           const result = await clingo.run(program.get("result"), options);
 
           if (result.Result === "ERROR") {
-- 
2.43.0

