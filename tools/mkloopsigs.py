#!/usr/bin/env python3-vt
"""Writes pyvc/loopsigs.json: the identifiers used in each loop of the functions that have loop contracts (run by hand when loop contracts are written).
Lets the loop contracts find their loops when a loop is added, extracted or removed elsewhere in the function."""
import os, sys, ast, json, glob
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from pyvc import api, loader
keys = {k.split("#")[0] for i in range(1, 20) for c in api.load("C%02d" % i) for k in (c.loops or {})}
out = {}
for f in sorted(glob.glob(os.path.join(loader.REPO, "atrcopy", "*.py"))):
    short = os.path.basename(f)[:-3]
    short = "init" if short == "__init__" else short

    def walk(n, path):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                q = path + [x.name]
                if isinstance(x, ast.FunctionDef) and ".".join(q) in keys:
                    out[".".join(q)] = [loader.signature(l) for l in loader.loops_of(x)]
                walk(x, q)
            else:
                walk(x, path)
    walk(ast.parse(open(f).read()), [short])
json.dump(out, open(os.path.join(HERE, "pyvc", "loopsigs.json"), "w"), indent=0, sort_keys=True)
print(len(out), "functions; not found:", sorted(keys - set(out)))
