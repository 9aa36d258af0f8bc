"""Runs a contract on concrete inputs against the real code (PyPy, real numpy).

python -m pyvc.replay FILE: FILE is a JSON document with contract module, name
and inputs; prints what failed; exit 1 if an obligation fails, 0 if all hold,
3 if the inputs do not satisfy the contract's assumptions."""
import sys, os, json
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import importlib
from pyvc.api import REG, Outcome


class Skip(BaseException):
    pass


class RV:
    symbolic = False
    FORALL_MAX = 200000

    def __init__(self, inputs):
        self.inputs = inputs
        self.np = np
        self.failed = []
        self.checked = 0

    def mod(self, name):
        if name == "init":
            return importlib.import_module("atrcopy")
        return importlib.import_module("atrcopy." + name)

    def _in(self, name, default=None):
        v = self.inputs.get(name)
        if v is None:
            # an input that the failed path has not read yet: any value does
            return dict(default=0, entries=[]) if default is None else default
        return v

    def int(self, name, lo=None, hi=None):
        v = self._in(name, lo if lo is not None else hi if hi is not None and hi < 0 else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def bool(self, name):
        return bool(self._in(name, False))

    def bytes(self, name, n):
        d = self._in(name)
        a = np.empty(int(n), dtype=np.uint8)
        a[:] = d["default"] & 255
        for p, x in d["entries"]:
            if 0 <= p < n:
                a[p] = x & 255
        return a

    def uints(self, name, n, bound, dtype="uint32"):
        d = self._in(name)
        a = np.empty(int(n), dtype=dtype)
        a[:] = min(max(0, d["default"]), max(0, bound - 1))
        for p, x in d["entries"]:
            if 0 <= p < n:
                a[p] = min(max(0, x), max(0, bound - 1))
        return a

    def bits(self, name, n):
        a = self.bytes(name, n)
        a[a > 1] = 1
        return a

    def bit(self, x):
        return bool(x)

    def count(self, a):
        return int(np.count_nonzero(a))

    def bstr(self, name, n, maxlen=None):
        return self.bytes(name, n).tobytes()

    def pairs(self, name, n, bound, ordered=False, first=None):
        a = self.uints(name + ".0", n, (bound if first is None else first) + 1, "int64")
        b = self.uints(name + ".1", n, bound + 1, "int64")
        r = [(int(x), int(y)) for x, y in zip(a, b)]
        return [(min(p), max(p)) for p in r] if ordered else r

    def choice(self, name, options):
        return options[self._in(name, 0)]

    def setmap(self, d, f, n):
        for p in range(int(n)):
            if f[p]:
                d[p] = int(f[p])

    cut = False

    def seglist(self, name, n, omax=0xfffe, lmin=1, lmax=65535, top=None):
        seg = self.mod("segments")
        n = int(n)
        o = [int(x) for x in self.uints(name + ".origin", n, omax + 1, "int64")]
        ln = [min(lmax, max(lmin, int(x))) for x in self.uints(name + ".len", n, lmax + 1, "int64")]
        if top is not None and any(a + b > top for a, b in zip(o, ln)):
            raise Skip("segments too long")
        flat = dict((int(p), int(x)) for p, x in self._in(name + ".flat")["entries"])
        lst = []
        for j in range(n):
            a = np.zeros(ln[j], dtype=np.uint8)
            for t in range(ln[j]):
                a[t] = flat.get(j * 65536 + t, 0)
            lst.append(seg.DefaultSegment(seg.SegmentData(a), o[j]))
        return lst, lambda j: o[j], lambda j: ln[j], lambda j, t: flat.get(j * 65536 + t, 0)

    def seq(self, name, n, lo, hi, distinct=True):
        n = int(n)
        d = dict((int(p), int(x)) for p, x in self._in(name)["entries"])
        vals = [d.get(j, 0) for j in range(n)]
        if any(x < lo or x >= hi for x in vals) or distinct and len(set(vals)) != n:
            raise Skip(name)
        first = {}
        for j, x in enumerate(vals):
            first.setdefault(x, j)
        return (lambda j: vals[j]), (lambda s: first.get(s, -1)), (lambda k, s: -1 < first.get(s, -1) < k)

    def numlist(self, num, n):
        return [num(j) for j in range(n)]

    def objlist(self, n, make):
        return [make(j) for j in range(n)]

    def fill(self, arr, fn):
        for i in range(len(arr)):
            arr[i] = fn(i)

    def objdict(self, n, make):
        return dict((j, make(j)) for j in range(n))

    def patch(self, cls, name, fn):
        self.patched.append((cls, name, vars(cls).get(name, MISSING)))
        setattr(cls, name, fn)

    setglobal = patch

    def at_end(self, fn):
        self.ends.append(fn)

    def setbytes(self, arr, new):
        arr[:] = new

    def psum(self, name, base, f):
        def S(j):
            return base + sum(f(i) for i in range(j))
        return S, lambda j, n=None: None

    def spec(self, name, fn=None):
        return fn

    def define(self, *a, **kw):
        pass

    def plain(self, x):
        try:
            json.dumps(x)
            return True
        except TypeError:
            return False

    def keep(self, name, x):
        pass

    def note(self, name, a):
        pass

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def ensure(self, name, c):
        self.checked += 1
        if not c:
            self.failed.append(name)
        return bool(c)

    def forall(self, name, lo, hi, fn):
        lo, hi = int(lo), int(hi)
        idx = self.indices(lo, hi)
        k = self.inputs.get("forall " + name)
        if k is not None and lo <= k < hi:
            idx.insert(0, k)
        for i in idx:
            self.checked += 1
            if not fn(i):
                self.failed.append(name)
                return

    def indices(self, lo, hi):
        return list(range(lo, min(hi, lo + self.FORALL_MAX)))

    def exists(self, name, lo, hi, fn, hint=None):
        self.checked += 1
        if not any(fn(i) for i in range(int(lo), int(hi))):
            self.failed.append(name)

    def exists2(self, name, n, m, fn):
        self.checked += 1
        if not any(fn(j, i) for j in range(int(n)) for i in range(int(m))):
            self.failed.append(name)

    def get2(self, lst, j):
        return lst[j]

    def inapplicable(self, why):
        raise Skip(why)

    def cover(self, name):
        pass

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Ite(self, c, a, b):
        return a if c else b

    def call(self, fn, *a, **kw):
        try:
            return Outcome(value=fn(*a, **kw))
        except Exception as e:
            return Outcome(exc=e)

    def stub(self, cls, name, fn):
        pass

    def len(self, x):
        return len(x)

    def copy(self, a):
        return a.copy()

    def get(self, a, i):
        return int(a[i]) if not isinstance(a[i], (bool, np.bool_)) else bool(a[i])

    def probes(self, ms):
        pass

    def truth(self, a, i):
        return bool(a[i])

    def true(self, c):
        return bool(c)


class FV(RV):
    """draws the inputs that are not given at random"""
    FORALL_MAX = 1500

    def __init__(self, inputs, rng):
        RV.__init__(self, inputs)
        self.rng = rng

    def indices(self, lo, hi):
        if hi - lo <= self.FORALL_MAX:
            return list(range(lo, hi))
        r = self.rng
        return list(range(lo, lo + 200)) + list(range(hi - 200, hi)) + [r.randrange(lo, hi) for _ in range(self.FORALL_MAX - 400)]

    def number(self, lo, hi):
        r = self.rng
        lo0 = lo if lo is not None else -3 if hi is None else min(0, hi)
        if hi is not None and hi - lo0 <= 16:
            return r.randint(lo0, hi)
        top = lo0 + r.choice([3, 10, 40, 300, 800, 3000])
        if hi is not None:
            top = min(hi, top) if hi - lo0 > 100000 else hi if r.random() < .4 else min(hi, top)
        k = r.random()
        if k < .15:
            return lo0
        if k < .3:
            return top
        if k < .6:
            return r.randint(lo0, min(top, lo0 + 20))
        if k < .7:
            return max(lo0, min(top, r.choice([1, 2, 7, 8, 127, 128, 129, 255, 256, 257, 359, 360, 368, 719, 720, 721, 65535, 65536]) + r.randint(-1, 1)))
        return r.randint(lo0, top)

    def array(self, name, n, lo, hi):
        """values lo <= x < hi"""
        if self.inputs.get(name) is not None:
            return
        r = self.rng
        n = int(n)
        k = r.random()
        d = r.choice([lo, hi - 1, r.randrange(lo, hi)])
        ent = []
        if k < .5 and n <= 200000:
            ent = [(p, r.randrange(lo, hi)) for p in range(n)]
        elif n:
            ent = [(p, r.randrange(lo, hi)) for p in sorted({r.randrange(n) for _ in range(r.randint(0, 12))})]
        self.inputs[name] = dict(n=n, default=d, entries=ent)

    def int(self, name, lo=None, hi=None):
        if self.inputs.get(name) is None:
            self.inputs[name] = self.number(lo, hi)
        return RV.int(self, name, lo, hi)

    def bool(self, name):
        if self.inputs.get(name) is None:
            self.inputs[name] = self.rng.random() < .5
        return RV.bool(self, name)

    def choice(self, name, options):
        if self.inputs.get(name) is None:
            self.inputs[name] = self.rng.randrange(len(options))
        return RV.choice(self, name, options)

    def bytes(self, name, n):
        self.array(name, n, 0, 256)
        return RV.bytes(self, name, n)

    def bits(self, name, n):
        self.array(name, n, 0, 2)
        return RV.bits(self, name, n)

    def uints(self, name, n, bound, dtype="uint32"):
        self.array(name, n, 0, max(1, bound))
        return RV.uints(self, name, n, bound, dtype)

    def seglist(self, name, n, omax=0xfffe, lmin=1, lmax=65535, top=None):
        n = int(n)
        if n > 60:
            raise Skip("long list")
        self.array(name + ".origin", n, 0, omax + 1)
        self.array(name + ".len", n, lmin, min(lmax + 1, self.rng.choice([lmin + 3, 40, 600])))
        self.array(name + ".flat", 65536 * n, 0, 256)
        return RV.seglist(self, name, n, omax, lmin, lmax, top)

    def seq(self, name, n, lo, hi, distinct=True):
        n = int(n)
        if n > 3000 or distinct and n > hi - lo:
            raise Skip(name)
        if self.inputs.get(name) is None:
            r = self.rng
            near = min(hi, lo + max(n, 1) + r.choice([0, 3, 1000, 100000]))
            vals = r.sample(range(lo, near), n) if distinct else [r.randrange(lo, near) for _ in range(n)]
            self.inputs[name] = dict(n=n, default=0, entries=list(enumerate(vals)))
        return RV.seq(self, name, n, lo, hi, distinct)


def fuzz(doc, secs, seed=1):
    """random inputs, with the given ones kept in part"""
    import random, time, copy
    rng = random.Random(seed)
    importlib.import_module(doc["module"])
    c = [c for c in REG if c.name == doc["contract"]][0]
    end = time.time() + secs
    n = skipped = 0
    last = None
    while time.time() < end:
        base = {}
        for k, x in (doc["inputs"] or {}).items():
            if x is not None and rng.random() < (.5 if isinstance(x, dict) else .8):
                base[k] = x
        v = FV(base, rng)
        r = once(c, v)
        n += 1
        if r["result"] == "skip":
            skipped += 1
        elif r["result"] == "fail":
            r["inputs"] = v.inputs
            r["runs"] = n
            return r
        elif r["result"] == "error":
            last = r["why"]
    return dict(result="hold", runs=n, skipped=skipped, error=last)


def run(doc):
    importlib.import_module(doc["module"])
    c = [c for c in REG if c.name == doc["contract"]][0]
    v = RV(doc["inputs"] or {})
    return once(c, v)


def once(c, v):
    v.patched, v.ends = [], []
    try:
        return attempt(c, v)
    finally:
        for fn in v.ends:
            fn()
        for cls, name, old in reversed(v.patched):
            if old is MISSING:
                delattr(cls, name)
            else:
                setattr(cls, name, old)


MISSING = object()


class Endless(BaseException):
    pass


def tick(*a):
    raise Endless()


ENDS = 30


def attempt(c, v):
    import signal
    ends = c.prop == "C09"
    if ends:
        signal.signal(signal.SIGALRM, tick)
        signal.alarm(ENDS)
    try:
        c.fn(v)
    except Endless as e:
        import traceback
        if not any("/atrcopy/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            return dict(result="error", why="no result within %d s" % ENDS)
        return dict(result="fail", failed=v.failed + ["the call ends (no result within %d s)" % ENDS])
    except Skip as e:
        # inputs that come after the failed obligation have no value
        if v.failed:
            return dict(result="fail", failed=v.failed)
        return dict(result="skip", why=str(e))
    except MemoryError:
        # the inputs do not fit into the memory set aside for a replay
        return dict(result="fail", failed=v.failed) if v.failed else dict(result="error", why="out of memory")
    except Exception as e:
        import traceback
        if not v.failed and not any("/atrcopy/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            return dict(result="error", why="the contract failed: %s: %s" % (type(e).__name__, e))
        return dict(result="fail", failed=v.failed + ["no unexpected exception: %s: %s" % (type(e).__name__, e)], trace=traceback.format_exc()[-1500:])
    finally:
        if ends:
            signal.alarm(0)
    if v.failed:
        return dict(result="fail", failed=v.failed)
    return dict(result="hold", checked=v.checked)


if __name__ == "__main__":
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    doc = json.load(open(sys.argv[1]))
    r = fuzz(doc, doc["fuzz"], doc.get("seed", 1)) if doc.get("fuzz") else run(doc)
    print(json.dumps(r))
    sys.exit({"fail": 1, "hold": 0, "skip": 3, "error": 4}[r["result"]])
