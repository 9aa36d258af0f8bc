"""Loops: concrete loops run as they are; a loop with a contract is cut at its
head: the invariant is established, an arbitrary iteration is taken from it,
and must re-establish it (and decrease the variant)."""
import builtins
import z3
from .core import *
from .api import AtMost
from .npstub import SymSeq
from . import core
from .containers import SList, SymRange, SDict, SSet
from .npstub import ndarray, tri

MAX_CONCRETE = 3000


class Dead:
    """value of a variable that the contract says is not carried between iterations"""
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **kw):
        raise Unsupported("the variable %s is carried between iterations" % object.__getattribute__(self, "_n"))

    def __getattr__(self, k):
        self._no()
    __setattr__ = __getitem__ = __setitem__ = __bool__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = _no
    __iter__ = __call__ = __len__ = __and__ = __or__ = __mod__ = __floordiv__ = __index__ = __iadd__ = __isub__ = __ne__ = __contains__ = __rmul__ = _no
    __hash__ = object.__hash__


class Map:
    """a map in closed form: k is a key if has(k), its value is val(k)"""
    def __init__(self, has, val):
        self.has, self.val = has, val


class LoopState:
    """what a loop contract talks about.  mode 'check': the stated facts are
    obligations on the present state; mode 'assume': they define the state at
    the start of an arbitrary iteration k."""
    def __init__(self, loop, mode, k, locs, phase):
        self.loop, self.mode, self.k, self.locs, self.phase = loop, mode, k, locs, phase
        self.key = loop.key
        self.run = core.CUR

    def __getitem__(self, name):
        if self.mode == "assume" and name in self.loop.vals:
            return self.loop.vals[name]
        if name not in self.locs:
            raise Unsupported("loop contract of %s: no variable %s" % (self.key, name))
        return self.locs[name]

    def unfit(self, why):
        return Unsupported("loop contract of %s: %s" % (self.key, why))

    def fits(self, name):
        """the contract states how a variable moves: the loop must have it and set it"""
        if name not in self.locs:
            raise Unsupported("loop contract of %s: no variable %s" % (self.key, name))
        if self.loop.names is not None and name not in self.loop.names:
            raise Unsupported("loop contract of %s: the loop does not set %s" % (self.key, name))

    def name(self, what):
        return "%s: %s (%s)" % (self.key, what, self.phase)

    def ghost(self, name, make):
        """a value fixed when the loop starts"""
        g = self.loop.__dict__.setdefault("ghosts", {})
        if name not in g:
            if self.phase != "established":
                raise Unsupported("ghost %s made late" % name)
            g[name] = make()
        return g[name]

    def newint(self, name):
        """a fresh integer of the assumed state"""
        v = SymInt(z3.Int(self.run.fresh(self.key.split(".")[-1] + "!" + name)))
        self.loop.__dict__.setdefault("ints", {})[name] = v
        return v

    def ghost_of(self, name):
        return self.loop.ints[name]

    And, Or, Not, Ite, Implies = staticmethod(And), staticmethod(Or), staticmethod(Not), staticmethod(Ite), staticmethod(Implies)

    def exists(self, n, fn):
        xs = [SymInt(z3.Int(self.run.fresh("ex"))) for _ in range(n)]
        b = fn(*xs)
        return b if isinstance(b, bool) else mkbool(z3.Exists([x.e for x in xs], tobool(b)))

    @staticmethod
    def num(x):
        """as int() makes it"""
        return retag(x, None) if isinstance(x, SymInt) else int(x)

    def covered(self, rr, q, order=None, n=None):
        """is q (or an element i with order(i) = q) in one of the first k of the ranges rr: Exists j < k ...
        The predicate is known by consequences of this definition: nothing at 0, one range more from k to k + 1, a witness and
        its converse for the assumed k."""
        r = self.run
        key = ("covered", id(rr), order is not None)
        if key not in r.cache:
            nm = r.fresh("covered")
            r.cache[key] = (z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.BoolSort()), z3.Function(nm + ".w", z3.IntSort(), z3.IntSort(), z3.IntSort()), rr)
        H, W, _ = r.cache[key]
        qq = toint(q)

        def inr(j, i=None):
            x, y = rr.get(j)
            if order is None:
                return tobool(And(q >= x, q < y))
            if i is not None:
                return tobool(And(i >= x, i < y, order(i) == q))
            i = SymInt(z3.Int("covered_i"))
            return z3.Exists([i.e], tobool(And(i >= x, i < y, order(i) == q)))
        k = toint(self.k)
        if self.phase == "established":
            r.fact(z3.Not(H(k, qq)))
        elif self.phase == "preserved":
            r.fact(H(k, qq) == z3.Or(H(toint(self.k - 1), qq), inr(self.k - 1)))
        else:
            w = SymInt(W(k, qq))
            r.fact(z3.Implies(H(k, qq), z3.And(w.e >= 0, w.e < k, inr(w))))
            j, i = SymInt(z3.Int("covered_j")), SymInt(z3.Int("covered_i"))
            f0 = toint(rr.get(j)[0])
            if order is None:
                r.fact(z3.ForAll([j.e], z3.Implies(z3.And(j.e >= 0, j.e < k, inr(j)), H(k, qq)), patterns=[f0]))
            else:
                r.fact(z3.ForAll([j.e, i.e], z3.Implies(z3.And(j.e >= 0, j.e < k, inr(j, i)), H(k, qq)), patterns=[z3.MultiPattern(f0, toint(order(i)))]))
        return mkbool(H(k, qq))

    # -- local variables
    def local(self, name, value):
        """the variable equals this closed form"""
        self.fits(name)
        if self.mode == "check":
            self.run.ensure(self.name(name + " is as stated"), self.locs[name] == value)
        else:
            self.loop.vals[name] = value

    def bind(self, name, fn):
        """the variable is this very object"""
        self.fits(name)
        if self.mode == "check":
            self.run.ensure(self.name(name + " is as stated"), self.locs[name] is fn())
        else:
            self.loop.vals[name] = fn()

    def open(self, name, make):
        """the variable holds some value that make() describes; nothing is checked about it, so what is proved may not depend on it"""
        if self.mode == "assume":
            self.loop.vals[name] = make()

    def dead(self, *names):
        """variables that every iteration sets before it uses them (any use is then an error of the contract)"""
        for n in names:
            if self.mode == "assume" and n in self.locs:
                self.loop.vals[n] = Dead(n)

    def fresh(self, name, lo=None, hi=None):
        """the variable is an integer about which only `require` facts are known"""
        self.fits(name)
        if self.mode == "assume":
            v = SymInt(z3.Int(self.run.fresh(self.key.split(".")[-1] + "." + name)))
            self.loop.vals[name] = v
        else:
            v = self.locs[name]
            if not isnum(v):
                raise Unsupported("loop contract of %s: %s is not an integer" % (self.key, name))
        if lo is not None:
            self.require(name + " >= lower bound", v >= lo)
        if hi is not None:
            self.require(name + " <= upper bound", v <= hi)
        return v

    # -- heap
    def attr(self, obj, name, value):
        if self.mode == "check":
            self.run.ensure(self.name("attribute %s is as stated" % name), getattr(obj, name) == value)
        else:
            obj.__dict__[name] = value
        self.loop.frame.add(("attr", id(obj), name))

    def attr_fresh(self, obj, name, lo=None, hi=None):
        if self.mode == "assume":
            v = SymInt(z3.Int(self.run.fresh("%s.%s" % (self.key, name))))
            obj.__dict__[name] = v
        else:
            v = getattr(obj, name)
        if lo is not None:
            self.require(name + " >= lower bound", v >= lo)
        if hi is not None:
            self.require(name + " <= upper bound", v <= hi)
        self.loop.frame.add(("attr", id(obj), name))
        return v

    def array(self, arr, fn, n=None):
        """element i of the array's buffer region equals fn(i)"""
        buf = arr.buf
        if self.mode == "check":
            i = SymInt(z3.Int(self.run.fresh("loop_i")))
            rng = And(i >= 0, i < arr._n)
            self.run.ensure(self.name("array contents"), Implies(rng, arr.get(i) == fn(i)))
        else:
            from .npstub import Base, RangeC
            et = buf.et
            prev = buf.snap()
            off = arr.off
            buf.note()
            buf.c = RangeC(prev, off, off + arr._n, lambda p: retag(fn(p - off), et))
        self.loop.frame.add(("buf", id(buf)))

    def list(self, lst, n, fn):
        """the list has n integer elements fn(0..n-1)"""
        if self.mode == "check":
            self.run.ensure(self.name("list length"), lst.slen() == n)
            i = SymInt(z3.Int(self.run.fresh("loop_i")))
            self.run.assume_scoped(And(i >= 0, i < n), lambda: self.run.ensure(self.name("list elements"), lst.get(i) == fn(i)))
        else:
            builtins.list.clear(lst)
            lst.sym = (fn, n)
        self.loop.frame.add(("list", id(lst)))

    def objects(self, lst, n, cls, fields, first=None):
        """the list has n objects of the class; object j has exactly the attributes fields(j); the first is the given object"""
        from .containers import Objects, Arr, build
        if self.mode == "assume":
            builtins.list.clear(lst)
            lst.sym = (Objects(lambda j: build(cls, fields(j))), n)
            if first is not None:
                lst.sym[0].made.append((0, first))
        else:
            self.run.ensure(self.name("list length"), lst.slen() == n)
            j = SymInt(z3.Int(self.run.fresh("loop_j")))

            def go():
                if not self.run.feasible():
                    return
                o = lst.get(j)
                if first is not None and j == 0:
                    self.run.ensure(self.name("first element of the list"), o is first)
                    return
                self.same(o, cls, fields(j))
            self.run.assume_scoped(And(j >= 0, j < n), go)
        self.loop.frame.add(("list", id(lst)))

    def tuples(self, lst, n, make):
        """the list has n tuples; tuple j equals make(j): numbers, arrays, and maps given as (has, val) of which keys(k) matter"""
        from .containers import Objects
        if self.mode == "assume":
            def build(j):
                out = []
                for x in make(j):
                    if isinstance(x, Map):
                        d = SDict()
                        d.base = (x.has, x.val)
                        x = d
                    elif hasattr(x, "make"):
                        x = x.make()
                    out.append(x)
                return tuple(out)
            builtins.list.clear(lst)
            lst.sym = (Objects(build), n)
        else:
            self.run.ensure(self.name("list length"), lst.slen() == n)
            j = SymInt(z3.Int(self.run.fresh("loop_j")))

            def go():
                if not self.run.feasible():
                    return
                o, w = lst.get(j), make(j)
                if not isinstance(o, tuple) or len(o) != len(w):
                    raise Unsupported("loop contract of %s: other elements in the list" % self.key)
                for t, (x, y) in enumerate(zip(o, w)):
                    if isinstance(y, Map):
                        if not isinstance(x, SDict):
                            raise Unsupported("loop contract of %s: other elements in the list" % self.key)
                        self.samemap(x, y.has, y.val, y.has)
                    elif hasattr(y, "make"):
                        if not isinstance(x, ndarray):
                            raise Unsupported("loop contract of %s: other elements in the list" % self.key)
                        self.run.ensure(self.name("length of item %d" % t), x._n == y.n)
                        i = SymInt(z3.Int(self.run.fresh("loop_i")))
                        self.run.assume_scoped(And(i >= 0, i < y.n), lambda: self.run.ensure(self.name("contents of item %d" % t), x.get(i) == y.fn(i)))
                    else:
                        self.run.ensure(self.name("item %d" % t), x == y)
            self.run.assume_scoped(And(j >= 0, j < n), go)
        self.loop.frame.add(("list", id(lst)))

    def same(self, o, cls, want):
        """the object has the class and the stated attributes"""
        from .containers import Arr
        if type(o) is not cls:
            raise Unsupported("loop contract of %s: object of class %s" % (self.key, type(o).__name__))
        extra = [k for k in o.__dict__ if k not in want and k != "_pv_epoch"]
        if extra:
            raise Unsupported("loop contract of %s: attributes %s" % (self.key, extra))
        for k, w in want.items():
            if k not in o.__dict__:
                raise Unsupported("loop contract of %s: no attribute %s" % (self.key, k))
            x = o.__dict__[k]
            if isinstance(w, ndarray):
                w = Arr(w._n, w.get)
            if isinstance(w, Arr):
                self.run.ensure(self.name("length of %s" % k), x._n == w.n)
                i = SymInt(z3.Int(self.run.fresh("loop_i")))
                self.run.assume_scoped(And(i >= 0, i < w.n), lambda: self.run.ensure(self.name("contents of %s" % k), x.get(i) == w.fn(i)))
            elif isinstance(w, (bool, SymBool)) and isinstance(x, (bool, SymBool)):
                self.run.ensure(self.name("attribute %s" % k), Or(And(w, x), And(Not(w), Not(x))))
            elif isnum(w) and isnum(x) or isinstance(w, SymSeq) and isinstance(x, (SymSeq, bytes, str)):
                self.run.ensure(self.name("attribute %s" % k), w == x)
            elif isinstance(w, (bytes, str)) and isinstance(x, (bytes, str, SymSeq)):
                self.run.ensure(self.name("attribute %s" % k), x == w)
            elif x is not w:
                self.run.ensure(self.name("attribute %s" % k), False)

    def set(self, s, member, count=None):
        """exactly the integers with member(x) are in the set (count of them)"""
        if self.mode == "check":
            if count is not None:
                self.run.ensure(self.name("size of the set"), s.slen() == count)
            x = SymInt(z3.Int(self.run.fresh("loop_x")))
            self.run.ensure(self.name("members of the set"), s.member(x) == member(x))
        else:
            s.vals, s.base, s.count = [], member, count
        self.loop.frame.add(("set", id(s)))

    def dict(self, d, has, val, keys=None):
        """the dict maps k to val(k) exactly where has(k)"""
        if self.mode == "check":
            self.samemap(d, has, val, keys)
        else:
            d.log, d.base = [], (has, val)
        self.loop.frame.add(("dict", id(d)))

    def samemap(self, d, has, val, keys=None):
        k = SymInt(z3.Int(self.run.fresh("loop_key")))

        def go():
            self.run.ensure(self.name("keys of the map"), d.has_expr(k) == has(k))
            ok, v = d.find(k)
            if ok:
                w = val(k)
                v = v if isinstance(v, tuple) else (v,)
                w = w if isinstance(w, tuple) else (w,)
                for a, b in zip(v, w):
                    self.run.ensure(self.name("values of the map"), (a is None and b is None) if (a is None or b is None) else a == b)
        self.run.assume_scoped(keys(k) if keys else True, go)

    def numbered(self, d, n):
        from .containers import Gap
        if d.base is None and not d.log:
            self.run.ensure(self.name("number of entries"), n == 0)
        else:
            try:
                c = d.count() if d.contig is not None else len(d.entries())
            except Gap:
                self.run.ensure(self.name("entries are numbered without gaps"), False)
                raise PathEnd()
            self.run.ensure(self.name("number of entries"), c == n)

    def entries(self, d, n, cls, fields):
        """the dict has exactly the keys 0..n-1, put in in that order; the value at j is an object of class cls(j) with exactly the attributes fields(j)"""
        from .containers import Objects, build
        if self.mode == "assume":
            obs = Objects(lambda j: build(cls(j), fields(j)))
            d.log, d.base, d.contig = [], (lambda k: And(k >= 0, k < n) if isnum(k) else False, obs), n
        else:
            self.numbered(d, n)
            j = SymInt(z3.Int(self.run.fresh("loop_j")))

            def go():
                if not self.run.feasible():
                    return
                ok, o = d.find(j)
                self.run.ensure(self.name("every number has an entry"), ok)
                if ok:
                    self.same(o, cls(j), fields(j))
            self.run.assume_scoped(And(j >= 0, j < n), go)
        self.loop.frame.add(("dict", id(d)))

    def parsed(self, d, n, make):
        """the dict has exactly the keys 0..n-1, put in in that order; the value at j is an object that equals make(j) in every attribute"""
        from .containers import Objects
        if self.mode == "assume":
            d.log, d.base, d.contig = [], (lambda k: And(k >= 0, k < n) if isnum(k) else False, Objects(make)), n
        else:
            self.numbered(d, n)
            j = SymInt(z3.Int(self.run.fresh("loop_j")))

            def go():
                if not self.run.feasible():
                    return
                ok, o = d.find(j)
                self.run.ensure(self.name("every number has an entry"), ok)
                if ok:
                    w = make(j)
                    self.same(o, type(w), {k: x for k, x in w.__dict__.items() if k != "_pv_epoch"})
            self.run.assume_scoped(And(j >= 0, j < n), go)
        self.loop.frame.add(("dict", id(d)))

    def attr_obj(self, holder, name, cls, fields):
        """the attribute is an object of the class with exactly these attributes"""
        from .containers import build
        if self.mode == "assume":
            holder.__dict__[name] = build(cls, fields)
        else:
            self.same(getattr(holder, name), cls, fields)
        self.loop.frame.add(("attr", id(holder), name))

    def last(self, name, value):
        """the loop variable after at least one iteration"""
        if self.mode == "check":
            if self.phase == "preserved":
                self.run.ensure(self.name(name + " is the last one"), self.locs[name] == value)
        elif self.k > 0:
            self.loop.vals[name] = value

    def prev(self, name):
        """value of a variable of the invariant when the iteration started"""
        return self.loop.vals[name]

    def havoc(self, arr):
        """nothing is known about the contents"""
        buf = arr.buf
        if self.mode == "assume":
            from .npstub import RangeC
            f = z3.Function(self.run.fresh("havoc"), z3.IntSort(), z3.IntSort())
            prev, off, et = buf.snap(), arr.off, buf.et
            hi = 1 if et == "bool" else 2 ** {"uint8": 8, "uint16": 16, "uint32": 32}[et] - 1
            r = self.run

            def get(p):
                t = f(toint(p))
                r.fact(z3.And(t >= 0, t <= hi))
                return SymInt(t, et)
            buf.note()
            buf.c = RangeC(prev, off, off + arr._n, get)
        self.loop.frame.add(("buf", id(buf)))

    def opaque(self, lst, n=None, numbers=False):
        """a list of objects (or numbers): only its length (n, or arbitrary) is known; returns what the iteration has appended"""
        if self.mode == "assume":
            if n is None:
                n = SymInt(z3.Int(self.run.fresh("opaque")))
                self.run.add(n.e >= 0)
            builtins.list.clear(lst)
            lst.tail = []
            lst.tail_at = n

            def get(j):
                if numbers:
                    return SymInt(z3.Int(self.run.fresh("open")))
                raise Unsupported("element of a list that the loop contract leaves open")
            lst.sym = (get, n)
        elif n is not None:
            self.run.ensure(self.name("list length"), lst.slen() == n)
        self.loop.frame.add(("list", id(lst)))
        return builtins.list(lst.tail) if lst.tail is not None else []

    def has(self, name):
        return name in self.locs

    def frame(self, kind, obj, name=None):
        self.loop.frame.add((kind, id(obj)) if name is None else (kind, id(obj), name))

    def require(self, what, c):
        if self.mode == "check":
            self.run.ensure(self.name(what), c)
        else:
            self.run.assume(c)

    def forall(self, what, lo, hi, fn, pattern=None):
        """for all i in [lo, hi): fn(i)"""
        i = z3.Int(self.run.fresh("loop_q"))
        if self.mode == "check":
            si = SymInt(i)
            self.run.assume_scoped(And(si >= lo, si < hi), lambda: self.run.ensure(self.name(what), fn(si)))
        else:
            body = z3.Implies(z3.And(i >= toint(lo), i < toint(hi)), tobool(fn(SymInt(i))))
            self.run.add(z3.ForAll([i], body, patterns=[pattern(SymInt(i))]) if pattern is not None else z3.ForAll([i], body))

    def decreases(self, v):
        """natural number that every iteration decreases"""
        if self.phase == "preserved":
            self.run.ensure(self.name("variant decreases"), And(v < self.loop.variant, self.loop.variant >= 0))
        elif self.mode == "assume":
            self.loop.variant = v


class Loop:
    cut = False

    def __init__(self, key, names=None):
        self.key = key
        self.names = names
        r = core.CUR
        self.spec = r.loop_specs.get(key) if r is not None and hasattr(r, "loop_specs") else None
        self.first = True
        self.count = 0
        self.vals = {}
        self.frame = set()
        self.variant = None

    def has(self, name):
        return name in self.vals

    def val(self, name):
        return self.vals[name]

    def state(self, mode, k, locs, phase):
        st = LoopState(self, mode, k, locs, phase)
        try:
            self.spec(st)
        except Exception as e:
            from .symapi import check_engine_error
            check_engine_error(e)
            if mode == "assume":
                raise PathEnd()      # the invariant excludes this state
            core.CUR.ensure(st.name("the invariant is defined (%s)" % type(e).__name__), False)

    def establish(self, locs):
        r = core.CUR
        r.loops[self.key] = "invariant"
        r.cuts = getattr(r, "cuts", 0) + 1
        self.state("check", 0, locs, "established")
        r.epoch += 1
        self.epoch = r.epoch
        self.k = SymInt(z3.Int(r.fresh("k_" + self.key.split(".")[-1])))
        r.add(self.k.e >= 0)
        outer = r.mutlog
        r.mutlog = None
        self.state("assume", self.k, locs, "assumed")
        r.mutlog = self.log = Log(outer)
        self.before = dict(locs)
        self.before.update(self.vals)
        r.approx = True
        self.cut = True
        r.cover("loop %s has an iteration" % self.key)

    def preserve(self, locs):
        r = core.CUR
        # frame: everything older than the loop that the iteration changed must be part of the invariant
        for ev in r.mutlog.events:
            kind, obj = ev[0], ev[1]
            ep = obj.__dict__.get("_pv_epoch", 0) if kind == "attr" else obj.epoch
            if ep >= self.epoch:
                continue
            k = ("attr", id(obj), ev[2]) if kind == "attr" else (kind, id(obj))
            if k not in self.frame:
                raise Unsupported("loop contract of %s does not cover a change of %s" % (self.key, (ev[2] if kind == "attr" else kind)))
        for n, old in self.before.items():
            if n.startswith("pv_") or n in self.vals:
                continue
            new = locs.get(n)
            if new is not old and not (isinstance(old, (int, str, bytes, float)) and type(old) is type(new) and old == new):
                if n in self.bound_before:
                    raise Unsupported("loop contract of %s does not cover variable %s" % (self.key, n))
        self.state("check", self.k + 1, locs, "preserved")
        raise PathEnd()


class Log(list):
    """mutation log that forwards to the log of an enclosing cut loop"""
    def __init__(self, outer):
        self.events = []
        self.outer = outer

    def append(self, ev):
        self.events.append(ev)
        if self.outer is not None:
            self.outer.append(ev)


class WhileLoop(Loop):
    def head(self, locs):
        if self.spec is None:
            self.count += 1
            r = core.CUR
            lim = getattr(r, "unroll", None) if r else None
            if lim is not None and self.count > lim + 1:
                r.loops[self.key] = "unrolled %d times" % lim
                r.bounded = True
                raise PathEnd()
            if self.count > MAX_CONCRETE:
                raise Unsupported("loop %s runs too long" % self.key)
            return True
        if self.first:
            self.first = False
            self.bound_before = set(locs)
            self.establish(locs)
            return True
        self.preserve(locs)


def written_out(it, n, most, what):
    """the elements of a sequence of at most so many, for every number of them"""
    for c in range(most + 1):
        if n == c:
            return [it.get(i) for i in range(c)]
    core.CUR.ensure(what, False)
    raise PathEnd()


class Indexed:
    """sequence of the code under contract that iterates by __len__ and __getitem__"""
    def __init__(self, seq):
        self.seq = seq
        from .loader import b_len
        self.n = b_len(seq)

    def slen(self):
        return self.n

    def get(self, i):
        return self.seq[i]

    def __iter__(self):
        return iter([self.seq[i] for i in range(concrete(self.n))])


class ForLoop(Loop):
    def __init__(self, it, key, names=None):
        Loop.__init__(self, key, names)
        if not hasattr(it, "slen") and type(it).__module__.startswith("atrcopy") and hasattr(it, "__getitem__") and not hasattr(it, "__iter__"):
            it = Indexed(it)
        self.it = it
        self.seen = 0
        symbolic = (hasattr(it, "slen") and not isinstance(it, (ndarray, SDict, SSet)) and concrete(it.slen()) is None) or (isinstance(it, ndarray) and concrete(it._n) is None)
        self.symbolic = symbolic
        if self.spec is not None and not symbolic:
            self.spec = None        # finite at this call: run it
        most, self.spec = (self.spec, None) if isinstance(self.spec, AtMost) else (None, self.spec)
        if most and symbolic:
            self.native = iter(written_out(it, it.slen(), most.n, "%s: at most %d iterations" % (key, most.n)))
            core.CUR.loops[key] = "run for every number of iterations"
            return
        if symbolic and self.spec is None:
            lim = getattr(core.CUR, "unroll", None)
            if lim is None:
                raise Unsupported("loop %s over a symbolic sequence has no contract" % key)
            n = it.slen()
            core.CUR.loops[key] = "unrolled %d times" % lim
            core.CUR.bounded = True
            for c in range(lim + 1):
                if n == c:
                    get = it.get
                    self.native = iter([get(i) for i in range(c)])
                    break
            else:
                raise PathEnd()
        elif not symbolic:
            self.native = iter(it)

    def head(self, locs):
        if self.spec is None:
            cuts = getattr(core.CUR, "cuts", 0)
            if self.seen == 0:
                self.locs0 = dict(locs)
            elif self.cut_below:
                # a loop inside the generator is cut: nothing else may be carried from one iteration to the next
                for n, old in self.locs0.items():
                    new = locs.get(n)
                    if not n.startswith("pv_") and new is not old and not (isinstance(old, (int, str, bytes, float)) and type(old) is type(new) and old == new):
                        raise Unsupported("loop %s carries the variable %s over a cut generator" % (self.key, n))
            try:
                self.cur = next(self.native)
                return True
            except StopIteration:
                return False
            finally:
                self.seen += 1
                self.cut_below = getattr(core.CUR, "cuts", 0) > cuts
        if self.first:
            self.first = False
            self.bound_before = set(locs)
            self.n = self.it.slen()
            self.establish(locs)
            core.CUR.add(toint(self.k) <= toint(self.n))
            return True
        self.preserve(locs)

    def done(self):
        return bool(self.k >= self.n)

    def item(self):
        if self.spec is None:
            return self.cur
        return self.it.get(self.k)
