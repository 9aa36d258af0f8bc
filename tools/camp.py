#!/usr/bin/env python3
"""camp.py BUGS.py [IDs...]: apply each listed change to a copy of /repo, run the repository's tests and the property's
quick check (or, with --keep, of every property in KEEP for behaviour-preserving edits) there.
BUGS.py defines BUGS = [(id, prop, file, old, new), ...]; old/new may be lists of equal length (several sites; file too)."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
src, ids = sys.argv[1], sys.argv[2:]
ns = {}
exec(open(src).read(), ns)
BUGS = [b for b in ns["BUGS"] if not ids or b[0] in ids]
PY = "/opt/venv-pypy/bin/python"
BASE = len(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if False else 174


def one(b):
    bid, prop, files, olds, news = b
    d = "/tmp/x/camp_" + bid
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    L = lambda x: x if isinstance(x, list) else [x]
    olds, news = L(olds), L(news)
    files = L(files) * (len(olds) if not isinstance(files, list) else 1)
    try:
        for f, o, n in zip(files, olds, news):
            p = d + "/atrcopy/" + f
            s = open(p).read()
            if s.count(o) < 1:
                return bid, prop, "OLD TEXT NOT FOUND: " + o[:60], ""
            open(p, "w").write(s.replace(o, n, 1))
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, text=True).stdout
        os.makedirs("/tmp/x/diffs", exist_ok=True)
        open("/tmp/x/diffs/%s.diff" % bid, "w").write(diff)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300"], cwd=d + "/test", env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = t.stdout.strip().splitlines()[-1]
        tests = "tests ok" if "failed" not in last and "error" not in last else "TESTS FAIL"
        outs = []
        for pr in L(prop):
            c = subprocess.run(["python3-vt", "-B", "/verif/check.py", pr, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=d),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            msg = [l for l in c.stdout.splitlines() if l.startswith("  ")][:3]
            st = {0: "quiet", 1: "CAUGHT"}.get(c.returncode, "rc=%d" % c.returncode)
            if v and v[0].endswith("found"):
                st += " (no failing input)"
            outs.append("%s %s | %s" % (pr, st, " // ".join(m.strip()[:110] for m in msg)))
        return bid, prop, tests, "\n      ".join(outs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for r in ex.map(one, BUGS):
        print("%-22s %s: %s" % (r[0], r[2], r[3]), flush=True)
