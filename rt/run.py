"""Run-time contract checks on the real code.

run.py PROP --seed N --secs S [--max M]   random trials, JSON report on stdout
run.py PROP --replay TRIALSEED            one trial again
"""
import os, sys, json, time, random, signal, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Fail
import registry


class Timeout(BaseException):
    pass


def watch(limit):
    """raise Timeout after `limit` seconds of processor time (a busy machine is no endless loop) or with 5 GB in use"""
    ticks = [0]

    def tick(*a):
        ticks[0] += 1
        if ticks[0] >= limit:
            raise Timeout("did not finish within %d s" % limit)
        with open("/proc/self/statm") as fh:
            if int(fh.read().split()[1]) * 4096 > 5 << 30:
                raise Timeout("uses more than 5 GB")
    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, 1, 1)


def one(fn, tseed, limit=60):
    rng = random.Random(tseed)
    watch(limit)
    try:
        return ("ok", fn(rng))
    except Fail as e:
        return ("fail", str(e))
    except Timeout as e:
        return ("fail", str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ("fail", "unexpected %r at %s" % (e, "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=float, default=10)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--min", type=int, default=20)
    ap.add_argument("--replay")
    a = ap.parse_args()
    fn = registry.get(a.prop)
    if a.replay:
        st, msg = one(fn, a.replay)
        print(json.dumps(dict(status=st, message=msg)))
        return 1 if st == "fail" else 0
    t0 = time.time()
    n, seen, samples, fails = 0, set(), [], []
    while n < a.max and (time.time() - t0 < a.secs or n < a.min) and time.time() - t0 < a.secs * 4 + 60:
        ts = "%s:%d:%d" % (a.prop, a.seed, n)
        st, msg = one(fn, ts)
        n += 1
        if st == "fail":
            fails.append(dict(trial=ts, message=msg))
            if len(fails) >= 3:
                break
        elif msg and not str(msg).startswith("skip"):
            seen.add(str(msg))
            if len(samples) < 3:
                samples.append(str(msg)[:400])
    print(json.dumps(dict(prop=a.prop, trials=n, distinct=len(seen), samples=samples, fails=fails, wall=round(time.time() - t0, 2))))
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
