"""List the public functions and methods of the tree: the roots of the caller-data rules."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sbv.front import Program
from sbv import purity
out = []
for f in purity.functions(Program()):
    parts = f.name.split(":")[1].split(".")
    if any(x.startswith("_") and not x.startswith("__") for x in parts):
        continue
    out.append(f.name)
open(purity.API, "w").write("\n".join(sorted(set(out))) + "\n")
