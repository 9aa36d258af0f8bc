"""check.py PROP [--tier quick|thorough]

Decides one property: (1) deductive part: pyvc generates and discharges the
obligations of the property's contracts from the current source in /repo;
(2) run-time part: the same contracts evaluated on the real code (PyPy, real
numpy) on random inputs.  Exit 0: held; exit 1 with a VIOLATION line: broken.
"""
import os, sys, json, time, argparse, subprocess, tempfile, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = "/opt/venv-pypy/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
TITLES = {}


def load_known():
    """known findings: lines `finding: property=<id> key=<key> <text>` suppress, `fixed:` lines suppress nothing"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                parts = dict(p.split("=", 1) for p in line.split()[1:3])
                out.setdefault(parts["property"], {})[parts["key"]] = line.split(None, 3)[3].strip()
    return out


def start_rt(prop, seed, secs, nproc):
    ps = []
    for i in range(nproc):
        cmd = [PYPY, "-B", os.path.join(HERE, "rt", "run.py"), prop, "--seed", str(seed * 100 + i), "--secs", str(secs)]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True))
    return ps


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    t0 = time.time()
    secs = 16 if tier == "quick" else 200
    budget = 150 if tier == "quick" else 700
    nrt = 3 if tier == "quick" else 4
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rts = start_rt(prop, seed, secs, nrt)
    proof = dict(harnesses=[], error=None)
    out = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
    out.close()
    try:
        pr = subprocess.run(["python3-vt", "-B", "-m", "pyvc.run", prop, "--tier", tier, "--out", out.name, "--budget", str(budget), "--jobs", "6"],
                            cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 120)
        try:
            proof = json.load(open(out.name))
        except Exception:
            proof["error"] = "pyvc gave no result: " + pr.stderr[-1500:]
    except subprocess.TimeoutExpired:
        proof["error"] = "pyvc ran out of time"
    finally:
        os.unlink(out.name)
    trials = distinct = 0
    samples, fails, rterr = [], [], []
    for p in rts:
        try:
            o, e = p.communicate(timeout=secs * 5 + 240)
            r = json.loads(o.strip().splitlines()[-1])
            trials += r["trials"]
            distinct += r["distinct"]
            samples += r["samples"][:1]
            fails += r["fails"]
        except Exception as ex:
            p.kill()
            rterr.append("%r %s" % (ex, (e if 'e' in dir() else "")[-800:]))
    violations = []
    for f in fails:
        violations.append(dict(kind="run-time contract", failing_input=True, **f))
    for h in proof["harnesses"]:
        for r in h.get("refuted", []):
            violations.append(dict(kind="obligation", harness=h["name"], **r))
    known = load_known().get(prop, {})
    shown = []
    for v in violations:
        key = hashlib.sha1((v.get("trial") or v.get("harness", "") + v.get("obligation", "")).encode()).hexdigest()[:10]
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
            continue
        shown.append((key, v))
    # prefer violations with a failing input
    shown.sort(key=lambda kv: not kv[1].get("failing_input"))
    lines = []
    for key, v in shown[:5]:
        path = os.path.join(HERE, "replays", "%s_%s.json" % (prop, key))
        doc = dict(property=prop, **v)
        if v["kind"] == "run-time contract":
            doc["replay_cmd"] = "cd /verif && %s -B rt/run.py %s --replay %s" % (PYPY, prop, v["trial"])
        elif v.get("failing_input"):
            doc["replay_cmd"] = "cd /verif && %s -B -m pyvc.replay %s" % (PYPY, path)
        with open(path, "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
        tail = "" if v.get("failing_input") else " no-failing-input-found"
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    if any(v.get("failing_input") for _, v in shown):
        lines = [l for l in lines if not l.endswith("no-failing-input-found")]
    H = proof["harnesses"]
    full = [h for h in H if not h.get("bounded")]
    obligations = sum(h.get("obligations", 0) for h in full)
    discharged = sum(h.get("discharged", 0) for h in full)
    complete = [h for h in H if h.get("status") == "proved" and not h.get("bounded")]
    bounded = [h for h in H if h.get("bounded")]
    undecided = [dict(harness=h["name"], why=h.get("reason")) for h in H if h.get("status") not in ("proved", "refuted")]
    ev = dict(property=prop, tier=tier, seed=seed,
              level=LEVELS.get(prop, "proof"),
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd="cd /verif && python3-vt -B -m pyvc.run %s --tier %s" % (prop, tier),
                  trusted_base=proof.get("trusted_base", []),
                  contracts_proved=[h["name"] for h in complete],
                  contracts_bounded=[dict(name=h["name"], bound=h["bounded"], status=h.get("status"), obligations=h.get("obligations", 0), discharged=h.get("discharged", 0)) for h in bounded],
                  replaced_by_contract=sorted({"%s: %s" % (h["name"], f) for h in H for f in h.get("stubs", [])}),
                  contracts_undecided=undecided,
                  functions_under_contract=sorted({f for h in H for f in h.get("functions", [])}),
                  paths=sum(h.get("paths", 0) for h in H),
                  backends=proof.get("backends", {}),
                  solver_s=round(sum(h.get("solver_s", 0) for h in H), 2),
                  per_contract=[{k: h.get(k) for k in ("name", "status", "bounded", "obligations", "discharged", "paths", "solver_s", "wall_s", "reason", "statement", "loops")} for h in H],
                  proof_error=proof.get("error"),
                  evaluations=trials, distinct_nontrivial=distinct,
                  rule="run-time evaluation of the same contracts on random inputs from an independent generator; a trial counts once per distinct description of what was exercised, skipped trials do not count",
                  samples=samples or ["none"]),
              assumptions=proof.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(shown))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d/%d obligations discharged (without bounded ones) in %d contracts (%d proved, %d bounded, %d undecided); %d run-time trials; %.1f s" % (
        prop, discharged, obligations, len(H), len(complete), len(bounded), len(undecided), trials, time.time() - t0))
    for u in undecided:
        print("  undecided: %s: %s" % (u["harness"], u["why"]))
    if proof.get("error"):
        print("  deductive part: " + proof["error"][-600:])
    for key, v in shown[:5]:
        print("  " + str(v.get("message") or v.get("obligation"))[:600])
    for l in lines:
        print(l)
    return 1 if lines else 0


LEVELS = {c["property"]: c["level"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}

if __name__ == "__main__":
    sys.exit(main())
