"""Nothing has to be built: checks that the installed interpreters and libraries are there."""

import shutil
import sys

import clingo
import h11
import starlette
import uvicorn

if not shutil.which("node"):
    sys.exit("node is missing")
print(f"python {sys.version.split()[0]}, clingo {clingo.__version__}, starlette {starlette.__version__}, uvicorn {uvicorn.__version__}, h11 {h11.__version__}")
