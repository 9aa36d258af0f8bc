"""runs every contract on random inputs against the real code (check of the contracts themselves): python3-vt tools/fuzzall.py SECS [PROP...]"""
import sys, os, json, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pyvc import api, run
secs = float(sys.argv[1])
props = sys.argv[2:] or ["C%02d" % i for i in range(1, 20)]
todo = []
for p in props:
    try:
        todo += [(p, c) for c in api.load(p)]
    except ImportError:
        pass


def one(x):
    p, c = x
    if not c.replay:
        return p, c.name, dict(result="no replay")
    return p, c.name, run.fuzz(dict(module=c.module, name=c.name), {}, secs, seed=int(os.environ.get("SEED", "1")))


with ThreadPoolExecutor(6) as ex:
    for p, name, r in ex.map(one, todo):
        r.pop("trace", None) if r["result"] != "fail" else None
        print(p, name, str(r)[:600], flush=True)
