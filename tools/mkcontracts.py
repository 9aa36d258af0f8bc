#!/usr/bin/env python3-vt
"""Writes CONTRACTS.md: every contract with the functions, loop contracts, bound and statement (run by hand)."""
import os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from pyvc import api
out = ["# Contracts\n", "Generated by `tools/mkcontracts.py` from `pyvc/contracts/`.\n"]
for i in range(1, 20):
    p = "C%02d" % i
    out.append("\n## %s\n" % p)
    for c in api.load(p):
        out.append("- **%s**%s: %s" % (c.name, " (bounded: %s)" % c.bounded if c.bounded else "", " ".join((c.statement or "").split())))
        if c.functions:
            out.append("  - functions: %s" % ", ".join("`%s`" % f for f in c.functions))
        if c.loops:
            out.append("  - loop contracts: %s" % ", ".join("`%s`" % f for f in c.loops))
open(os.path.join(HERE, "CONTRACTS.md"), "w").write("\n".join(out) + "\n")
