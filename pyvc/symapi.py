"""The contract API on symbolic values."""
import re
import traceback
import builtins
import z3
from . import core, npstub, containers, loader
from .core import *
from .api import Outcome

_mods = None


def mods():
    global _mods
    if _mods is None:
        _mods = loader.load_package()
    return _mods


class V:
    symbolic = True

    def __init__(self, run):
        self.run = run
        self.np = npstub
        self.And, self.Or, self.Not, self.Implies, self.Ite = And, Or, Not, Implies, Ite

    def mod(self, name):
        return mods()[name]

    # -- inputs
    def int(self, name, lo=None, hi=None):
        e = z3.Int("in_" + name)
        self.run.inputs.append(("int", name, e, None))
        if lo is not None:
            self.run.add(e >= toint(lo))
        if hi is not None:
            self.run.add(e <= toint(hi))
        return SymInt(e)

    def bool(self, name):
        e = z3.Bool("in_" + name)
        self.run.inputs.append(("bool", name, e, None))
        return SymBool(e)

    def _bytefn(self, name, n, et="uint8", bound=None):
        f = z3.Function("in_" + name, z3.IntSort(), z3.IntSort())
        self.run.inputs.append(("bytes", name, f, n if isinstance(n, int) else toint(n)))
        lo, hi = (0, 255) if et == "uint8" else (0, 2 ** 32 - 1)
        if bound is not None:
            hi = toint(bound) - 1
        cache = {}

        def get(p):
            if not isinstance(p, SymInt) and p in cache:
                t = cache[p]
            else:
                t = f(toint(p))
                if not isinstance(p, SymInt):
                    cache[p] = t
            r = core.CUR
            k = ("byte", t.get_id())
            if k not in r.facts:
                r.facts.add(k)
                r.cache.setdefault("keep", []).append(t)
                r.add(z3.And(t >= lo, t <= hi))
            return SymInt(t, et)
        return get

    def bytes(self, name, n):
        """array of n arbitrary bytes"""
        g = self._bytefn(name, n)
        b = npstub.Buf(n, "uint8", npstub.Base(g))
        return npstub.ndarray(b, 0, n, 1, npstub.uint8, None)

    def uints(self, name, n, bound, dtype="uint32"):
        """array of n arbitrary integers, 0 <= x < bound"""
        g = self._bytefn(name, n, dtype, bound)
        b = npstub.Buf(n, dtype, npstub.Base(g))
        return npstub.ndarray(b, 0, n, 1, npstub._by[dtype], None)

    def bstr(self, name, n, maxlen=None):
        """immutable bytes object"""
        g = self._bytefn(name, n)
        return npstub.SymBytes(lambda i: npstub.untag(g(i)), n, maxlen)

    def pairs(self, name, n, bound, ordered=False, first=None):
        """list of n arbitrary pairs of integers 0 <= x <= bound (n symbolic); ordered: the first is not above the second;
        first: the bound of the first if it is another one"""
        first = bound if first is None else first
        a = self._bytefn(name + ".0", n, "uint32", first + 1)
        b = self._bytefn(name + ".1", n, "uint32", bound + 1)
        i = z3.Int("pair_i")
        for k in ("0", "1"):
            f = z3.Function("in_%s.%s" % (name, k), z3.IntSort(), z3.IntSort())
            self.run.add(z3.ForAll([i], z3.And(f(i) >= 0, f(i) <= toint(first if k == "0" else bound)), patterns=[f(i)]))
        if ordered:
            f, g = [z3.Function("in_%s.%s" % (name, k), z3.IntSort(), z3.IntSort()) for k in ("0", "1")]
            self.run.add(z3.ForAll([i], f(i) <= g(i), patterns=[f(i), g(i)]))
        return containers.SymList(lambda i: (npstub.untag(a(i)), npstub.untag(b(i))), n)

    def choice(self, name, options):
        k = self.run.choose(len(options))
        e = z3.Int("in_" + name)
        self.run.inputs.append(("int", name, e, None))
        self.run.add(e == k)
        return options[k]

    def setmap(self, d, f, n):
        """make the (empty) dict d the map p -> f[p] for 0 <= p < n with f[p] > 0"""
        if d.log:
            raise Unsupported("setmap on a used dict")
        containers.log("dict", d)
        g = f.getter()
        d.base = (lambda k: And(k >= 0, k < n, g(k) > 0) if isnum(k) else False, lambda k: npstub.untag(g(k)))

    def plain(self, x):
        """only plain Python values (what JSON can hold)"""
        if isinstance(x, containers.SList) and x.sym:
            return tag(x.get(SymInt(z3.Int(self.run.fresh("plain_i"))))) is None
        if isinstance(x, list):
            return builtins.all(self.plain(y) for y in x)
        if isinstance(x, (SymInt, CInt)):
            return tag(x) is None
        return x is None or isinstance(x, (int, str, SymBool, npstub.SymStr))

    def runs(self, name, pred, n):
        """list of ranges that together contain exactly the i in [0, n) with pred(i)"""
        r = self.run
        a, b = [z3.Function(r.fresh(name + k), z3.IntSort(), z3.IntSort()) for k in ".a.b".split(".")[1:]]
        m = SymInt(z3.Int(r.fresh(name + ".n")))
        r.add(m.e >= 0)
        lst = containers.SymList(lambda j: (SymInt(a(toint(j))), SymInt(b(toint(j)))), m)
        r.cache.setdefault("runs", []).append((lst, pred, n))
        i = SymInt(z3.Int("runs_i"))
        r.add(z3.ForAll([i.e], z3.Implies(tobool(And(m == 0, i >= 0, i < n)), z3.Not(tobool(pred(i))))))
        j = SymInt(z3.Int("runs_j"))
        r.add(z3.ForAll([j.e], z3.Implies(tobool(And(j >= 0, j < m)), z3.And(a(j.e) >= 0, a(j.e) < b(j.e), b(j.e) <= toint(n))), patterns=[a(j.e)]))
        return lst

    def in_ranges(self, ranges, q):
        j = SymInt(z3.Int("range_j"))
        e = self._in(ranges, j, q)
        for lst, pred, n in self.run.cache.get("runs", []):
            # the same ranges as those of a list made by `runs`: they contain q exactly if pred(q)
            if e.eq(self._in(lst, j, q)):
                return Ite(And(q >= 0, q < n), pred(q), mkbool(z3.Exists([j.e], e)))
        return mkbool(z3.Exists([j.e], e))

    def _in(self, ranges, j, q):
        x, y = ranges.get(j)
        return tobool(And(j >= 0, j < ranges.slen(), q >= x, q < y))

    def fill(self, arr, fn):
        """element i becomes fn(i)"""
        et = arr.buf.et
        off = arr.off
        arr.buf.put_range(off, off + arr._n, lambda p: wrap(fn(p - off), et))

    def note(self, name, a):
        """make an array known to the loop contracts"""
        g = a.getter()
        self.run.cache[name] = lambda i: npstub.untag(g(i))

    def keep(self, name, x):
        """make a value known to the loop contracts"""
        self.run.cache[name] = x

    def array(self, n, fn, et="uint8"):
        """array of n elements fn(i)"""
        return npstub.fresh_array(n, et, fn)

    def opaque_products(self):
        """from here on products, quotients and remainders of two unknowns are uninterpreted functions (with the laws of 0 and 1, and commutativity); the contract
        supplies what it needs to know about them as instances of lemmas"""
        r, I = self.run, z3.IntSort()
        m, q, t = (z3.Function(r.fresh(x), I, I, I) for x in ("mul", "div", "mod"))

        def mul(a, b):
            r.fact(z3.And(m(a, b) == m(b, a), z3.Implies(a == 1, m(a, b) == b), z3.Implies(b == 1, m(a, b) == a), z3.Implies(z3.Or(a == 0, b == 0), m(a, b) == 0)))
            r.product_terms[m(a, b).get_id()] = m(a, b) == a * b
            return m(a, b)

        def div(a, b):
            r.fact(z3.Implies(b == 1, q(a, b) == a))
            r.product_terms[q(a, b).get_id()] = q(a, b) == a / b
            return q(a, b)

        def mod(a, b):
            r.fact(z3.Implies(b == 1, t(a, b) == 0))
            r.product_terms[t(a, b).get_id()] = t(a, b) == a % b
            return t(a, b)
        r.products = (mul, div, mod)

    def seglist(self, name, n, omax=0xfffe, lmin=1, lmax=65535, top=None):
        """list of n segments (n symbolic): any origins, lengths and bytes.  Returns (list, origin(j), length(j), byte(j, t))"""
        r = self.run
        seg = self.mod("segments")
        O = self._bytefn(name + ".origin", n, "uint32", omax + 1)
        r.inputs.append(("int", name + ".n", toint(n), None))
        fn = z3.Function("in_%s.len" % name, z3.IntSort(), z3.IntSort())
        r.inputs.append(("bytes", name + ".len", fn, toint(n)))
        fl = z3.Function("in_%s.flat" % name, z3.IntSort(), z3.IntSort())
        r.inputs.append(("flat", name + ".flat", fl, (toint(n), fn)))
        made = {}

        def length(j):
            t = fn(toint(j))
            r.fact(z3.And(t >= lmin, t <= lmax, *([toint(origin(j)) + t <= top] if top else [])))
            return SymInt(t)

        def byte(j, t):
            e = fl(toint(j) * 65536 + toint(t))
            r.fact(z3.And(e >= 0, e <= 255))
            return SymInt(e)

        def get(j):
            k = z3.simplify(toint(j)).get_id()
            if k not in made:
                m = length(j)
                d = npstub.ndarray(npstub.Buf(m, "uint8", npstub.Base(lambda p: retag(byte(j, p), "uint8"))), 0, m, 1, npstub.uint8, None)
                made[k] = (seg.DefaultSegment(seg.SegmentData(d), origin(j)), z3.simplify(toint(j)))
            return made[k][0]

        def origin(j):
            return npstub.untag(O(j))
        lst = containers.SList()
        if self.cut:
            lst.sym = (get, n)
        else:
            list.extend(lst, [get(i) for i in range(self.upto(n, 4))])
        return lst, origin, length, byte

    def seq(self, name, n, lo, hi, distinct=True):
        """n integers num(0..n-1) in [lo, hi).  Returns num, idx, member: idx(s) is the first j with num(j) = s (if any),
        member(k, s): is s one of the first k"""
        r = self.run
        f = z3.Function("in_" + name, z3.IntSort(), z3.IntSort())
        r.inputs.append(("seq", name, f, toint(n)))
        x = z3.Function(r.fresh(name + ".idx"), z3.IntSort(), z3.IntSort())
        nn = toint(n)

        def num(j):
            j = toint(j)
            t = f(j)
            at = x(t) == j if distinct else z3.And(x(t) >= 0, x(t) <= j, f(x(t)) == t)
            r.fact(z3.Implies(z3.And(j >= 0, j < nn), z3.And(t >= toint(lo), t < toint(hi), at)))
            return SymInt(t)

        def idx(s):
            return SymInt(x(toint(s)))

        def member(k, s):
            i = idx(s)
            return And(i >= 0, i < k, num(i) == s)
        for j in range(4):
            num(j)
        return num, idx, member

    def numlist(self, num, n):
        return containers.SymList(num, n if self.cut else self.upto(n, 4))

    def objlist(self, n, make):
        """list of n objects make(j)"""
        return containers.ObjList(n if self.cut else self.upto(n, 4), make)

    def objdict(self, n, make):
        """dict j -> make(j), 0 <= j < n"""
        d = containers.SDict()
        if self.cut:
            d.base, d.contig = (lambda k: And(k >= 0, k < n) if isnum(k) else False, containers.Objects(make)), n
        else:
            for j in range(self.upto(n, 4)):
                d[j] = make(j)
        return d

    def patch(self, cls, name, fn):
        """replaces the function in the symbolic run and when replayed"""
        self.stub(cls, name, fn)

    def setglobal(self, mod, name, value):
        """sets a global of a module for this run"""
        r = self.run
        r.undo.append((mod, name, name in mod.__dict__, mod.__dict__.get(name)))
        setattr(mod, name, value)

    def at_end(self, fn):
        pass

    def setbytes(self, arr, new):
        """overwrite an array with another one"""
        arr[:] = new

    def upto(self, n, m):
        """n as a concrete number of at most m (loops are unrolled: larger cases are left out)"""
        if isinstance(n, SymInt):
            for c in range(m + 1):
                if n == c:
                    return c
            self.run.bounded = True
            raise PathEnd()
        return n

    def psum(self, name, base, f):
        """prefix sums S(0) = base, S(j + 1) = S(j) + f(j): returns S and a function that states the recurrence at j"""
        r = self.run
        S = z3.Function(r.fresh(name), z3.IntSort(), z3.IntSort())
        r.add(S(0) == toint(base))

        def rec(j, n=None):
            j = toint(j)
            r.fact(S(j + 1) == S(j) + toint(f(SymInt(j))))
            if n is not None:
                # lemma psum (c10_lemma): prefix sums of positive numbers increase
                r.fact(z3.Implies(z3.And(j >= 0, j < toint(n)), z3.And(S(j) >= toint(base), S(j + 1) <= S(toint(n)))))
        return (lambda j: SymInt(S(toint(j)))), rec

    def spec(self, name, fn=None):
        """a specification function of one or more integers, known only by the facts stated about it"""
        r = self.run
        nm = r.fresh(name)

        def F(*a):
            f = z3.Function(nm, *[z3.IntSort()] * (len(a) + 1))
            return SymInt(f(*[toint(x) for x in a]))
        return F

    def define(self, F, lo, hi, fn, pre=()):
        """F(*pre, p) = fn(p) for lo <= p < hi"""
        p = SymInt(z3.Int(self.run.fresh("def_p")))
        t = F(*(tuple(pre) + (p,)))
        self.run.add(z3.ForAll([p.e], z3.Implies(tobool(And(p >= lo, p < hi)), t.e == toint(fn(p))), patterns=[t.e]))

    @property
    def cut(self):
        """are loops cut by their contracts (else they are unrolled or run)"""
        return builtins.bool(self.run.loop_specs)

    def bits(self, name, n):
        """array of n bytes 0 or 1"""
        g = self._bytefn(name, n, "uint8", 2)
        return npstub.ndarray(npstub.Buf(n, "uint8", npstub.Base(g)), 0, n, 1, npstub.uint8, None)

    def bit(self, x):
        """0 or 1 as a truth value"""
        return x == 1

    def count(self, a):
        """number of nonzero elements"""
        return npstub.untag(npstub.count_nonzero(a))

    # -- logic
    def assume(self, c):
        self.run.assume(c)
        if not self.run.feasible():
            raise PathEnd()

    def ensure(self, name, c):
        return self.run.ensure(name, c)

    def forall(self, name, lo, hi, fn):
        r = self.run
        i = SymInt(z3.Int(r.fresh("forall " + name)))
        n = len(r.inputs)
        r.inputs.append(("int", "forall " + name, i.e, None))
        r.obligations.setdefault(name, [0, 0])

        def go():
            if not r.feasible():
                return
            r.ensure(name, fn(i))
        r.assume_scoped(And(i >= lo, i < hi), go)
        del r.inputs[n:]

    def probes(self, ms):
        """time for a feasibility check (quantified facts keep the solver from answering "feasible")"""
        self.run.probe_ms = ms

    def positions(self, n):
        """the n lists of positions (numpy.where) that the code has made: (length, element(k), index(position), last(k with element <= t))"""
        p = self.run.cache.get("positions", [])
        if len(p) != n:
            raise Unsupported("the code makes %d lists of positions" % len(p))
        return p

    def exists(self, name, lo, hi, fn, hint=None):
        """some i in [lo, hi) satisfies fn (hint(): the one that does)"""
        r = self.run
        if hint is not None:
            i = hint()
            self.ensure(name, And(i >= lo, i < hi))
            self.ensure(name, fn(i))
            return
        i = SymInt(z3.Int(r.fresh("exists " + name)))
        body = And(i >= lo, i < hi, fn(i))
        r.ensure(name, SymBool(z3.Exists([i.e], tobool(body))) if not isinstance(body, bool) else body)

    def exists2(self, name, n, m, fn):
        """some 0 <= j < n, 0 <= i < m satisfy fn"""
        r = self.run
        j = SymInt(z3.Int(r.fresh("exists " + name)))
        i = SymInt(z3.Int(r.fresh("exists " + name)))
        body = And(j >= 0, j < n, i >= 0, i < m, fn(j, i))
        r.ensure(name, SymBool(z3.Exists([j.e, i.e], tobool(body))) if not isinstance(body, bool) else body)

    def get2(self, lst, j):
        """element j of a list of tuples"""
        return lst.get(j)

    def inapplicable(self, why):
        """the code does something that the contract does not describe"""
        raise Unsupported(why)

    def cover(self, name):
        self.run.cover(name)

    def call(self, fn, *a, **kw):
        try:
            return Outcome(value=fn(*a, **kw))
        except Exception as e:
            check_engine_error(e)
            return Outcome(exc=e)

    def stub(self, cls, name, fn):
        """from here on calls of cls.name are replaced by its contract `fn` (proved by another harness)"""
        if not hasattr(cls, name):
            raise Unsupported("no function %s to replace by its contract" % name)
        r = self.run
        had = name in cls.__dict__
        old = cls.__dict__.get(name)
        setattr(cls, name, fn)
        r.undo.append((cls, name, had, old))
        r.stubs.add("%s.%s" % (getattr(cls, "__name__", cls), name))

    # -- values
    def len(self, x):
        return loader.b_len(x)

    def copy(self, a):
        return a.copy()

    def get(self, a, i):
        """element i (0 <= i < len) of an array, bytes or list, as an integer"""
        if hasattr(a, "get"):
            return npstub.untag(a.get(i))
        return a[i]

    def truth(self, a, i):
        """element i of an array of truth values"""
        return mkbool(tobool(a.get(i)))

    def true(self, c):
        """python truth value (branches)"""
        return bool(c)

    def bytesof(self, a):
        return a


ENGINE_NAMES = re.compile(r"\b(Sym[A-Z]\w*|CInt|SList|SDict|SSet|Record|ZipSeq|Indexed|Objects|ndarray|Dead)\b")


def check_engine_error(e):
    """an exception raised by the engine itself is no behaviour of the code"""
    if isinstance(e, (AttributeError, NameError, NotImplementedError, RecursionError, z3.Z3Exception, ImportError)) or type(e) in (TypeError, KeyError, AssertionError):
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1].filename if tb else ""
        if "/pyvc/" in last and not getattr(e, "modelled", False) and not isinstance(e, AttributeError):
            raise Unsupported("engine: %s: %s at %s:%d" % (type(e).__name__, e, last.split("/")[-1], tb[-1].lineno))
        if isinstance(e, AttributeError) and not getattr(e, "modelled", False) and getattr(e, "obj", None) is not None \
                and (type(e.obj).__module__ or "").startswith("pyvc"):
            raise Unsupported("%s" % e)
        if isinstance(e, TypeError) and not getattr(e, "modelled", False) and ENGINE_NAMES.search(str(e)):
            raise Unsupported("%s" % e)
        if isinstance(e, UnboundLocalError) and "invariant" in core.CUR.loops.values():
            raise Unsupported("variable that a cut loop leaves undefined: %s" % e)
        if isinstance(e, (RecursionError, z3.Z3Exception)):
            raise Unsupported("engine: %r" % e)
