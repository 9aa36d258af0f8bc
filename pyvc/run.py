"""python3-vt -m pyvc.run PROP [--tier T] [--out F] [--budget S] [--jobs N] [--only NAME]

Generates and discharges the obligations of the property's contracts from the
current source of /repo."""
import sys, os, json, time, argparse, subprocess, tempfile, traceback
import multiprocessing as mp
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from . import api, core

PYPY = "/opt/venv-pypy/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "z3 and cvc5 (SMT back ends)",
    "pyvc itself: the mechanical source transformation (loader.py), the path explorer, and its model of Python integers, lists, dicts, sets and strings",
    "pyvc/npstub.py: contracts assumed for numpy 1.22 (views share their buffer; uint8 stores wrap; scalar promotion; fancy store: last write wins)",
    "text formatting, logging and print output are not modelled",
]


def run_one(c, deadline, tier):
    """executed in its own process"""
    from . import symapi, loader
    t0 = time.time()
    run = core.Run(c.name, deadline, timeout_ms=10000 if tier == "quick" else 40000)
    run.loop_specs = c.loops
    run.unroll = c.unroll
    v = symapi.V(run)
    status, reason = "proved", None
    unexpected = []

    def body():
        try:
            c.fn(v)
        except Exception as e:
            symapi.check_engine_error(e)
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/pyvc/" not in f.filename]
            at = "%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
            name = "no unexpected exception"
            ob = run.obligations.setdefault(name, [0, 0])
            ob[0] += 1
            if run.feasible():
                run.hurry()
                r, m = run.refine() if run.products else (run.check(), None)
                if r == core.z3.sat:
                    m = m or run.solver.model()
                    ent = dict(obligation=name, detail="%s: %s at %s" % (type(e).__name__, e, at), inputs=run.model_inputs(m), approx=run.approx)
                    run.refuted.append(ent)
                    ent["inputs"] = run.model_inputs(run.small_model(m))
                else:
                    if r == core.z3.unsat:
                        ob[1] += 1
                    else:
                        run.unknown.append("%s (%s at %s)" % (name, type(e).__name__, at))
            else:
                ob[1] += 1
    try:
        mods = symapi.mods()
        run.obligations["no unexpected exception"] = [1, 1]
        run.explore(body)
    except core.Unsupported as e:
        status, reason = "undecided", "unsupported: %s" % e
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except core.OutOfTime:
        status, reason = "undecided", "out of time"
    except MemoryError:
        status, reason = "undecided", "out of memory"
    except Exception as e:
        status, reason = "undecided", "engine error: %s" % traceback.format_exc()[-900:]
    if status == "proved" and run.unknown:
        status, reason = "undecided", "solver gave no answer for: %s" % ", ".join(sorted(set(run.unknown)))[:400]
    if run.refuted:
        status = "refuted"
    if status == "proved":
        dead = [k for k, ok in run.covers.items() if ok is False]
        if dead:
            status, reason = "undecided", "unreachable: %s" % dead
        n = sum(x[0] for x in run.obligations.values())
        if n <= 1:
            status, reason = "undecided", "no obligation reached"
    if core.PROF:
        for k, (n, t) in sorted(core.PROF.items(), key=lambda x: -x[1][1])[:12]:
            print("prof %6.1fs %5d %s" % (t, n, k), flush=True)
    if core.SITES:
        for k, n in sorted(core.SITES.items(), key=lambda x: -x[1])[:15]:
            print(n, k)
    ref, seen = [], {}
    for r in run.refuted:
        seen[r["obligation"]] = seen.get(r["obligation"], 0) + 1
        if seen[r["obligation"]] <= 4:
            ref.append(r)
    return dict(name=c.name, status=status, reason=reason, bounded=c.bounded or ("loops unrolled" if run.bounded else None), statement=c.statement,
                obligations=sum(x[0] for x in run.obligations.values()), discharged=sum(x[1] for x in run.obligations.values()),
                obligation_names=sorted(run.obligations), paths=run.paths, solver_s=round(run.solver_s, 2), wall_s=round(time.time() - t0, 2),
                functions=sorted(run.functions), stubs=sorted(run.stubs), loops=run.loops, refuted=ref, backends=run.backends, cut="invariant" in run.loops.values(), module=c.module,
                nonlinear=run.nonlinear)


def child(c, deadline, tier, q):
    try:
        r = run_one(c, deadline, tier)
    except BaseException as e:
        r = dict(name=c.name, status="undecided", reason="engine error: %s" % traceback.format_exc()[-900:], bounded=c.bounded, obligations=0, discharged=0, paths=0, solver_s=0, wall_s=0, functions=[], loops={}, refuted=[], backends={}, module=c.module)
    q.send(r)
    q.close()


def replay(h, r, timeout=60):
    """evaluate the contract on the model's inputs against the real code"""
    doc = dict(module=h["module"], contract=h["name"], inputs=r["inputs"])
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as fh:
        json.dump(doc, fh)
    try:
        o = subprocess.run([PYPY, "-B", "-m", "pyvc.replay", fh.name], cwd=HERE, capture_output=True, text=True, timeout=timeout)
        return json.loads(o.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return dict(result="error", why="no result within %d s" % timeout)
    except Exception as e:
        return dict(result="error", why=repr(e))
    finally:
        os.unlink(fh.name)


def fuzz(h, inputs, secs, seed=1):
    """evaluate the contract on random inputs near the given ones against the real code"""
    doc = dict(module=h["module"], contract=h["name"], inputs=inputs or {}, fuzz=secs, seed=seed)
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as fh:
        json.dump(doc, fh)
    try:
        o = subprocess.run([PYPY, "-B", "-m", "pyvc.replay", fh.name], cwd=HERE, capture_output=True, text=True, timeout=secs + 30)
        return json.loads(o.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return dict(result="error", why="no result in time")
    except Exception as e:
        return dict(result="error", why=repr(e))
    finally:
        os.unlink(fh.name)


def judge(h, c, a, search=True):
    """replay the refuted obligations of a contract on the real code"""
    keep, mism = [], []
    confirmed = set()
    for r in h["refuted"]:
        if r["obligation"] in confirmed:
            continue
        rr = replay(h, r) if (r["inputs"] is not None and c.replay) else dict(result="error", why="no inputs")
        r["replay"] = rr
        r["message"] = "%s: obligation failed: %s%s" % (h["name"], r["obligation"], (" (" + r["detail"] + ")") if r.get("detail") else "")
        r["module"], r["contract"] = h["module"], h["name"]
        if rr["result"] == "fail":
            r["failing_input"] = True
            r["message"] += "; on the real code: %s" % "; ".join(rr["failed"])[:300]
            confirmed.add(r["obligation"])
            keep.append(r)
        elif h.get("cut") or not c.replay:
            r["failing_input"] = False
            keep.append(r)
        else:
            mism.append(r)
    if keep and not confirmed and h.get("cut") and c.replay and search:
        # an invariant failed: look for a failing input with the loops unrolled
        h2 = unrolled(c, a)
        if h2 is not None and h2["status"] == "refuted":
            judge(h2, c, a, False)
            hits = [r for r in h2["refuted"] if r.get("failing_input")]
            if hits:
                keep = hits
                confirmed = {r["obligation"] for r in hits}
    if not confirmed and c.replay and search:
        # the model's inputs do not fail: try inputs near them
        for r in (keep + mism)[:3]:
            rr = fuzz(h, r["inputs"], 12)
            if rr["result"] == "fail":
                r["failing_input"] = True
                r["inputs"], r["replay"] = rr["inputs"], rr
                r["message"] += "; on the real code: %s" % "; ".join(rr["failed"])[:300]
                confirmed.add(r["obligation"])
                keep, mism = [r], [m for m in mism if m is not r]
                break
    keep = [r for r in keep if r.get("failing_input") or not confirmed]
    h["refuted"] = keep
    h["mismatches"] = [dict(obligation=r["obligation"], detail=r.get("detail"), replay=r["replay"]) for r in mism]
    if not keep:
        h["status"] = "undecided"
        h["reason"] = "counterexample does not fail on the real code: %s" % "; ".join("%s (%s) %s" % (m["obligation"], m["detail"], m["replay"].get("why") or m["replay"]["result"]) for m in h["mismatches"])[:600]


def unrolled(c, a, secs=45):
    """the contract with all loops unrolled a few times instead of cut"""
    c2 = api.Contract(c.fn, c.prop, c.functions, c.bounded, {}, 4, c.tier, c.replay)
    rx, tx = mp.Pipe(False)
    p = mp.Process(target=child, args=(c2, time.time() + secs, "quick", tx))
    p.start()
    tx.close()
    got = None
    try:
        if rx.poll(secs + 20):
            got = rx.recv()
    except EOFError:
        pass
    p.kill()
    return got


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    try:
        cs = api.load(a.prop)
    except ImportError as e:
        cs = []
        err = "no contracts: %s" % e
    else:
        err = None
    if a.tier == "quick":
        cs = [c for c in cs if c.tier == "quick"]
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    deadline = t0 + a.budget
    todo = list(cs)
    running, results = [], []
    while todo or running:
        while todo and len(running) < a.jobs:
            c = todo.pop(0)
            rx, tx = mp.Pipe(False)
            p = mp.Process(target=child, args=(c, deadline, a.tier, tx))
            p.start()
            tx.close()
            running.append((p, rx, c))
        for item in list(running):
            p, rx, c = item
            got = None
            if rx.poll(0.01):
                try:
                    got = rx.recv()
                except EOFError:
                    got = dict(name=c.name, status="undecided", reason="verifier process ended", bounded=c.bounded, obligations=0, discharged=0, paths=0, solver_s=0, wall_s=0, functions=[], loops={}, refuted=[], backends={}, module=c.module)
            elif time.time() > deadline + 25:
                p.kill()
                got = dict(name=c.name, status="undecided", reason="out of time", bounded=c.bounded, obligations=0, discharged=0, paths=0, solver_s=0, wall_s=0, functions=[], loops={}, refuted=[], backends={}, module=c.module)
            if got is not None:
                p.join(5)
                running.remove(item)
                results.append(got)
        time.sleep(0.02)
    order = {c.name: i for i, c in enumerate(cs)}
    results.sort(key=lambda h: order[h["name"]])
    byname = {c.name: c for c in cs}
    for h in results:
        if h["status"] == "refuted":
            judge(h, byname[h["name"]], a)
        c = byname[h["name"]]
        if h["status"] == "undecided" and c.loops and c.replay and "out of time" not in str(h["reason"]):
            # the proof does not apply to the present code: bounded search for a failing input instead
            h2 = unrolled(c, a)
            if h2 is not None:
                h["search"] = dict(status=h2["status"], obligations=h2["obligations"], reason=h2["reason"])
                if h2["status"] == "refuted":
                    judge(h2, c, a, False)
                    hits = [r for r in h2["refuted"] if r.get("failing_input")]
                    if hits:
                        h["refuted"], h["status"] = hits, "refuted"
        if h["status"] == "undecided" and c.replay:
            # bounded stand-in: random inputs on the real code
            rr = fuzz(dict(module=c.module, name=c.name), {}, 15 if a.tier == "quick" else 120)
            h["random_runs"] = {k: rr.get(k) for k in ("result", "runs", "skipped", "why", "error")}
            if rr["result"] == "fail":
                h["status"] = "refuted"
                h["refuted"] = [dict(obligation="; ".join(rr["failed"])[:200], inputs=rr["inputs"], replay=rr, failing_input=True, module=c.module, contract=c.name,
                                     message="%s: on the real code: %s" % (c.name, "; ".join(rr["failed"])[:300]))]
    backends = {}
    for h in results:
        for k, n in (h.get("backends") or {}).items():
            backends[k] = backends.get(k, 0) + n
    doc = dict(property=a.prop, harnesses=results, backends=backends, trusted_base=TRUSTED, assumptions=ASSUMPTIONS.get("*", []) + ASSUMPTIONS.get(a.prop, []), error=err, wall_s=round(time.time() - t0, 2))
    if a.out:
        with open(a.out, "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
    else:
        for h in results:
            print("%-46s %-9s %s obligations %d/%d paths %d solver %.1fs wall %.1fs" % (h["name"], h["status"], "(%s)" % h["bounded"] if h["bounded"] else "", h["discharged"], h["obligations"], h["paths"], h["solver_s"], h["wall_s"]))
            if h["reason"]:
                print("      " + h["reason"])
            for r in h["refuted"]:
                print("      REFUTED %s failing_input=%s" % (r["message"], r["failing_input"]))
                print("        inputs", str(r["inputs"])[:600])
        if err:
            print(err)


DISK = ["the boot sectors (track 0 on DOS 3.3), the VTOC and the directory sectors are marked used in the allocation table",
        "contracts are composed by hand (the callee's contract stands for the callee, see replaced_by_contract and DESIGN.md)"]
ASSUMPTIONS = {
    "*": ["Python integers are mathematical integers (exact in Python); numpy scalars and arrays wrap as modelled in npstub.py",
          "the code runs single threaded", "memory is not exhausted", "objects with __len__ and __getitem__ are iterated by index until __len__ (CPython: until IndexError)"],
    "C01": DISK + ["the file name follows the 8.3 form (c06_name_atari)"],
    "C02": DISK + ["the file name has at most 30 characters with no leading or trailing space (c06_name_dos33)"],
    "C03": DISK, "C04": DISK + ["MyDOS images with more than one VTOC sector and ED sectors above 719 are outside the table that is written"],
    "C05": ["a step of an operation may write any bytes of the image and then raise any Exception; get_metadata after a completed operation does not raise (c09 contracts: it only raises on damaged images)"],
    "C06": DISK + ["names of different files differ", "the catalog chain is well formed when it is written"],
    "C09": ["pigeonhole: distinct sector numbers in a range are at most as many as the range (stated as a lemma in the contracts, not derived by the solver)",
            "SpartaDOS: opening and deleting at run time only; get_file_segment is proved for any sector map (c09_map_sparta: get_sector_map ends)"],
    "C10": ["segments are not empty and have origins below $FFFF"],
    "C12": ["KBoot: executables of at most 65535 bytes; get_xex is replaced by its contract (C10)", "Apple boot: pages below $C0, all pages fit on the disk, command list fits the boot sector, no origins $2001 or $4001; get_fstbt_code is replaced by its contract (c12_fstbt)", "Apple boot ghost: the number of pages of the first j segments is between 0 and that of all segments (sums of positive numbers), and every load belongs to one segment (owner); c12_prefix has the start and the step of the induction on j", "what the loader does with a command (load a page, load the next pages, switch the screen, end) is as the comments of fstbt describe; the 6502 code itself is not verified"],
    "C13": ["interleaving: length, base arrays and base positions of the views are those of their contracts (c13_read, c13_step)", "interleaving: results of less than 2**32 elements"],
    "C14": ["numpy.where lists the true positions in ascending order, numpy.diff and numpy.split have their documented meaning", "lemma locate: an ascending list whose first element is at most t has a last element that is at most t"],
    "C15": ["sorted returns some permutation of its argument", "get_style_ranges and set_style_ranges are replaced by their contracts (C14)", "uuid values are opaque"],
    "C18": ["an image behaves as a map from names to contents (C01, C02, C06)", "the local disk behaves as a map from paths to contents", "file names are opaque texts", "argparse is executed, not modelled, on the listed command lines"],
    "C19": ["gzip, bz2 and lzma decompressors return the compressed contents or raise one of the errors that the standard library documents for damaged data"],
}

if __name__ == "__main__":
    main()
