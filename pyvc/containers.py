"""Lists, dicts and sets that tolerate symbolic lengths, elements and keys."""
import builtins
import z3
from .core import *
from . import core
from .npstub import norm_index, norm_slice, pick, tri, fresh_array, concrete_getter, ndarray, untag, SymSeq, wrap


def log(kind, obj):
    r = core.CUR
    if r is not None and r.mutlog is not None:
        r.mutlog.append((kind, obj))


def epoch():
    return core.CUR.epoch if core.CUR else 0


class SymRange:
    """range with symbolic bounds, step 1"""
    def __init__(self, a, b, step=1):
        self.a, self.b, self.st = a, b, step
        if step != 1 and concrete(step) is None:
            raise Unsupported("symbolic range step")
        if step < 1:
            raise Unsupported("negative symbolic range step")
        self.n = smax(b - a if step == 1 else (b - a + step - 1) // step, 0)

    def slen(self):
        return self.n

    def get(self, i):
        return self.a + i * self.st

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, st = norm_slice(i, self.n)
            if self.st != 1 or st != 1:
                raise Unsupported("slice of a stepped range")
            return SymRange(self.a + lo, self.a + hi)
        return self.get(norm_index(i, self.n))

    def __iter__(self):
        c = concrete(self.n)
        if c is None:
            raise Unsupported("iteration over a symbolic range without a loop contract")
        return iter([self.get(i) for i in range(c)])

    def as_array(self, t="int64"):
        return fresh_array(self.n, t, lambda i: wrap(self.get(i), t))


class SList(list):
    """python list; `sym` holds (get, n) once its length is symbolic"""
    tail = None
    pred = None

    def __init__(self, it=()):
        self.sym = None
        self.epoch = epoch()
        self.aux = None
        if isinstance(it, SList) and it.sym:
            list.__init__(self)
            self.sym = it.sym
            self.ascending = it.ascending
        elif isinstance(it, SymRange):
            c = concrete(it.n)
            if c is not None and (c <= 16 or concrete(it.a) is not None):
                list.__init__(self, it)
            else:
                list.__init__(self)
                self.sym = (it.get, it.n)
        else:
            list.__init__(self, it)

    __hash__ = object.__hash__

    def slen(self):
        return self.sym[1] if self.sym else list.__len__(self)

    def __len__(self):
        if self.sym:
            c = concrete(self.sym[1])
            if c is None:
                raise Unsupported("native len of a symbolic list")
            return c
        return list.__len__(self)

    def __bool__(self):
        if self.sym:
            return bool(self.sym[1] > 0)
        return list.__len__(self) > 0

    def get(self, i):
        if self.sym:
            return self.sym[0](i)
        c = concrete(i)
        if c is None:
            vals = list(self)
            if builtins.all(isnum(v) for v in vals):
                return concrete_getter(vals)(i)
            for k in range(list.__len__(self)):
                if i == k:
                    return list.__getitem__(self, k)
            raise Unsupported("symbolic index into a concrete list")
        return list.__getitem__(self, c)

    def to_sym(self):
        if not self.sym:
            vals = list(self)
            self.sym = (self._frozen(vals), list.__len__(self))
            list.clear(self)

    @staticmethod
    def _frozen(vals):
        if builtins.all(isnum(v) for v in vals):
            return concrete_getter(vals)

        def get(i):
            c = concrete(i)
            if c is not None:
                return vals[c]
            for k in range(len(vals)):
                if i == k:
                    return vals[k]
            raise PathEnd()
        return get

    def __getitem__(self, i):
        if isinstance(i, slice):
            if not self.sym and builtins.all(x is None or concrete(x) is not None for x in (i.start, i.stop, i.step)):
                return SList(list.__getitem__(self, slice(*[None if x is None else concrete(x) for x in (i.start, i.stop, i.step)])))
            lo, hi, st = norm_slice(i, self.slen())
            if st != 1:
                raise Unsupported("list slice step")
            src = SList(self) if not self.sym else None
            g = self.sym[0] if self.sym else self._frozen(list(self))
            out = SList()
            out.sym = (lambda k: g(k + lo), hi - lo)
            c = concrete(out.sym[1])
            if c is not None and c <= 64:
                vals = [out.sym[0](k) for k in range(c)]
                out = SList(vals)
            return out
        k = norm_index(i, self.slen())
        return self.get(k)

    def __setitem__(self, i, v):
        log("list", self)
        if isinstance(i, slice):
            if self.sym or isinstance(v, SList) and v.sym:
                lo, hi, st = norm_slice(i, self.slen())
                if st != 1 or isinstance(v, SList) and v.sym:
                    raise Unsupported("slice store into a symbolic list")
                vals = list(v)
                m = len(vals)
                g, n = self.sym
                new, d = self._frozen(vals), m - (hi - lo)

                def get(j):
                    if j < lo:
                        return g(j)
                    return new(j - lo) if j < lo + m else g(j - d)
                self.sym = (get, n + d)
                return
            return list.__setitem__(self, i, v)
        k = norm_index(i, self.slen())
        c = concrete(k)
        if not self.sym and c is not None:
            return list.__setitem__(self, c, v)
        self.to_sym()
        g, n = self.sym
        if not isnum(v):
            raise Unsupported("store of an object into a symbolic list")
        self.sym = (lambda j: pick(j == k, lambda: v, lambda: g(j)), n)

    def __delitem__(self, i):
        log("list", self)
        self.native()
        if self.sym:
            raise Unsupported("del in a symbolic list")
        list.__delitem__(self, i if isinstance(i, slice) else concrete(i))

    def append(self, v):
        log("list", self)
        if not self.sym:
            return list.append(self, v)
        g, n = self.sym
        if self.tail is not None:
            self.tail.append(v)

        def get(j):
            t = tri(core.mkbool(toint(j) == toint(n)))
            if t is True:
                return v
            if t is False:
                return g(j)
            if isnum(v):
                return Ite(core.mkbool(toint(j) == toint(n)), v, g(j))
            return v if (j == n) else g(j)
        self.sym = (get, n + 1)

    def extend(self, it):
        log("list", self)
        if not hasattr(it, "slen") and type(it).__module__.startswith("atrcopy") and hasattr(it, "__getitem__") and not hasattr(it, "__iter__"):
            from .loops import Indexed
            it = Indexed(it)
        if isinstance(it, SymRange) and concrete(it.n) is None and getattr(core.CUR, "unroll", None) is not None:
            for c in range(core.CUR.unroll + 1):
                if it.n == c:
                    it = [it.get(i) for i in range(c)]
                    break
        if isinstance(it, SymRange) and concrete(it.n) is None and not (it.n > 4):
            for c in range(5):
                if it.n == c:
                    it = [it.get(i) for i in range(c)]
                    break
        if isinstance(it, (SymRange, ndarray)) or isinstance(it, SList) and it.sym or type(it).__name__ == "Indexed":
            c = concrete(it.slen() if not isinstance(it, ndarray) else it._n)
            closed = c is None or self.sym is not None and c > 4
        else:
            closed = False
        if closed:
            if self.tail is not None:
                if not (isinstance(it, SList) and it.tail == []):
                    raise Unsupported("extension of a list that the loop contract leaves open")
                self.tail.append(it.sym)      # elements that another loop contract describes
            if isinstance(it, ndarray):
                g2, m = it.getter(), it._n
            elif isinstance(it, SList):
                g2, m = it.sym
            else:
                g2, m = it.get, it.n
            objects = not builtins.all(isnum(v) for v in list.__iter__(self)) if not self.sym else isinstance(self.sym[0], Objects) or getattr(self.sym[0], "objects", False)
            self.to_sym()
            g, n = self.sym
            if objects:
                def get(j):
                    return g(j) if j < n else g2(j - n)
                get.objects = True
                self.sym = (get, n + m)
            else:
                self.sym = (lambda j: pick(j < n, lambda: g(j), lambda: g2(j - n)), n + m)
            return
        vals = list(iter(it))
        if self.sym:
            for v in vals:
                self.append(v)
        else:
            list.extend(self, vals)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        r = SList(self)
        r.extend(o)
        return r

    def __mul__(self, k):
        if self.sym or concrete(k) is None:
            if list.__len__(self) == 1:
                v = list.__getitem__(self, 0)
                r = SList()
                r.sym = (lambda i: v, smax(k, 0))
                return r
            raise Unsupported("symbolic list repetition")
        return SList(list.__mul__(self, concrete(k)))
    __rmul__ = __mul__

    def native(self):
        """a list of known length whose elements are in closed form: write the elements out"""
        if self.sym and concrete(self.sym[1]) is not None and self.tail is None:
            vals = list(iter(self))
            self.sym = None
            list.extend(self, vals)

    def pop(self, i=-1):
        log("list", self)
        self.native()
        if self.sym:
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, i)

    def insert(self, i, v):
        log("list", self)
        self.native()
        if self.sym:
            raise Unsupported("insert into a symbolic list")
        return list.insert(self, i, v)

    def remove(self, v):
        log("list", self)
        self.native()
        if self.sym:
            raise Unsupported("remove from a symbolic list")
        return list.remove(self, v)

    def reverse(self):
        log("list", self)
        self.native()
        if self.sym:
            raise Unsupported("reverse of a symbolic list")
        return list.reverse(self)

    where = key = None       # listed entries of a map: place of a key, key at a place
    ascending = False        # the elements come in the order of their (different) keys

    def sort(self, key=None, reverse=False):
        log("list", self)
        if self.sym and self.ascending and key is None and not reverse:
            return
        self.native()
        if self.sym:
            raise Unsupported("sort of a symbolic list")
        list.sort(self, key=key, reverse=reverse)

    def clear(self):
        log("list", self)
        self.sym = None
        list.clear(self)

    def copy(self):
        return SList(self)

    def __iter__(self):
        if self.sym:
            c = concrete(self.sym[1])
            if c is None:
                raise Unsupported("iteration over a symbolic list without a loop contract")
            return iter([self.sym[0](i) for i in range(c)])
        return list.__iter__(self)

    def __eq__(self, o):
        if isinstance(o, SList) and o.sym or self.sym:
            if not isinstance(o, list):
                return False
            n = self.slen()
            m = o.slen() if isinstance(o, SList) else len(o)
            if not (n == m):
                return False
            c = concrete(n)
            if c is None:
                raise Unsupported("comparison of symbolic lists")
            og = o.get if isinstance(o, SList) else o.__getitem__
            return And(*[self.get(i) == og(i) for i in range(c)])
        return list.__eq__(self, o)

    def __contains__(self, v):
        if self.sym:
            c = concrete(self.sym[1])
            if c is None:
                raise Unsupported("membership in a symbolic list")
            return bool(Or(*[self.get(i) == v for i in range(c)]))
        return list.__contains__(self, v)

    def as_array(self, t="int64"):
        if self.sym:
            g, n = self.sym
            return fresh_array(n, t, lambda i: wrap(g(i), t))
        vals = [wrap(v, t) for v in self]
        return fresh_array(len(vals), t, concrete_getter(vals))

    def __reduce__(self):
        return (list, (list(self),))


class Objects:
    """elements of a symbolic list of objects, made when first used; equal indices give the same object (forks)"""
    def __init__(self, make):
        self.make, self.made = make, []

    def __call__(self, j):
        j = untag(j)
        for i, o in self.made:
            if core.mkbool(toint(i) == toint(j)):
                return o
        o = self.make(j)
        self.made.append((j, o))
        return o


class Arr:
    """array valued attribute of an object in a list: n elements fn(i)"""
    def __init__(self, n, fn, et="uint8"):
        self.n, self.fn, self.et = n, fn, et

    def make(self):
        et, fn = self.et, self.fn
        return fresh_array(self.n, et, lambda i: fn(i))


def build(cls, fields):
    """object of the class with the given attributes"""
    o = cls.__new__(cls)
    for k, v in fields.items():
        o.__dict__[k] = v.make() if isinstance(v, Arr) else v
    o.__dict__["_pv_epoch"] = epoch()
    return o


def ObjList(n, make):
    r = SList()
    c = concrete(n)
    if c is not None and c <= 64:
        list.extend(r, [make(i) for i in range(c)])
    else:
        r.sym = (Objects(make), n)
    return r


def SymList(get, n):
    r = SList()
    c = concrete(n)
    if c is not None and c <= 64:
        r.extend([get(i) for i in range(c)])
    else:
        r.sym = (get, n)
    return r


class Gap(Unsupported):
    pass


class SDict:
    """dict with possibly symbolic integer keys: a log of updates over a base.
    base: None or (has(k), val(k)) functions"""
    def __init__(self, *a, **kw):
        self.log = []        # (key, value) in order, value DEL for deletion
        self.base = None
        self.contig = None   # the base has exactly the keys 0..contig-1, inserted in that order
        self.epoch = epoch()
        if a:
            src = a[0]
            if isinstance(src, SDict):
                self.log = list(src.log)
                self.base = src.base
                self.contig = src.contig
            elif hasattr(src, "keys"):
                for k in src.keys():
                    self.log.append((k, src[k]))
            else:
                for k, v in src:
                    self._put(k, v)
        for k, v in kw.items():
            self._put(k, v)

    DEL = object()
    __hash__ = object.__hash__

    def _same(self, a, b):
        if isnum(a) and isnum(b):
            if not isinstance(a, (SymInt, SymBool)) and not isinstance(b, (SymInt, SymBool)):
                return a == b
            return core.mkbool(toint(a) == toint(b))
        if isnum(a) or isnum(b):
            return False
        return a == b

    def _put(self, k, v):
        log("dict", self)
        for i, (a, _) in enumerate(self.log):
            if self._same(a, k) is True:
                # keep the position of an existing key
                if v is not self.DEL and self.log[i][1] is not self.DEL and not any_sym(self.log):
                    self.log[i] = (a, v)
                    return
        self.log.append((k, v))

    def __setitem__(self, k, v):
        self._put(k, v)

    def find(self, k):
        """(present, value) of key k; forks"""
        for a, v in reversed(self.log):
            if self._same(a, k):
                return (v is not self.DEL), v
        if self.base is not None:
            if self.base[0](k):
                return True, self.base[1](k)
        return False, None

    def has_expr(self, k):
        """is the key present (no fork)"""
        r = self.base[0](k) if self.base is not None else False
        for a, v in self.log:
            same = self._same(a, k)
            r = Ite(same, v is not self.DEL, r) if not isinstance(same, bool) else (v is not self.DEL) if same else r
        return r

    def __getitem__(self, k):
        ok, v = self.find(k)
        if not ok:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        ok, v = self.find(k)
        return v if ok else d

    def __contains__(self, k):
        return self.find(k)[0]

    def __delitem__(self, k):
        ok, v = self.find(k)
        if not ok:
            raise KeyError(k)
        if not any_sym(self.log) and self.base is None:
            log("dict", self)
            self.log = [(a, v) for a, v in self.log if self._same(a, k) is not True]
            return
        self._put(k, self.DEL)

    def pop(self, k, *d):
        ok, v = self.find(k)
        if not ok:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return v

    def setdefault(self, k, d=None):
        ok, v = self.find(k)
        if not ok:
            self[k] = d
            return d
        return v

    def entries(self):
        """current entries; forks on key equality"""
        if self.base is not None:
            raise Unsupported("iteration over a symbolic dict")
        out = []
        for a, v in self.log:
            hit = None
            for i, (b, _) in enumerate(out):
                if self._same(a, b):
                    hit = i
                    break
            if v is self.DEL:
                if hit is not None:
                    del out[hit]
            elif hit is not None:
                out[hit] = (out[hit][0], v)
            else:
                out.append((a, v))
        return out

    def count(self):
        """number of entries of a map with keys 0..n-1; forks on whether an update is one of an existing key or adds the next one"""
        n = self.contig
        for a, v in self.log:
            if v is self.DEL or not isnum(a):
                raise Unsupported("iteration over a symbolic dict")
            if And(a >= 0, a < n):
                continue
            if not (a == n):
                raise Gap("iteration over a symbolic dict with gaps")
            n = n + 1
        return n

    def ordered(self, fn):
        n = self.count()
        snap = SDict(self)
        r = SList()

        def get(j):
            ok, v = snap.find(j)
            if not ok:
                raise PathEnd()
            return fn(j, v)
        get.objects = True
        r.sym = (get, n)
        r.ascending = True
        return r

    def listed(self, fn):
        """the entries of a map with a symbolic base in some order: key(j), and idx(k) the place of key k"""
        r = core.CUR
        snap = SDict(self)
        nm = r.fresh("entry")
        cnt, key, idx = SymInt(z3.Int(nm + ".n")), z3.Function(nm + ".key", z3.IntSort(), z3.IntSort()), z3.Function(nm + ".idx", z3.IntSort(), z3.IntSort())
        r.add(cnt.e >= 0)
        out = SList()

        def at(j):
            k = key(toint(j))
            r.fact(z3.Implies(z3.And(toint(j) >= 0, toint(j) < cnt.e), z3.And(idx(k) == toint(j), tobool(snap.has_expr(SymInt(k))))))
            return SymInt(k)

        def get(j):
            k = at(j)
            ok, v = snap.find(k)
            if not ok:
                raise PathEnd()
            return fn(k, v)

        def where(k):
            i = idx(toint(k))
            r.fact(z3.Implies(tobool(snap.has_expr(k)), z3.And(i >= 0, i < cnt.e, key(i) == toint(k))))
            return SymInt(i)
        get.objects = True
        out.sym = (get, cnt)
        out.where, out.key = where, at
        return out

    where = None

    def items(self):
        if self.contig is not None:
            return self.ordered(lambda k, v: (k, v))
        if self.base is not None:
            return self.listed(lambda k, v: (k, v))
        return SList([(k, v) for k, v in self.entries()])

    def keys(self):
        if self.contig is not None:
            return self.ordered(lambda k, v: k)
        return SList([k for k, v in self.entries()])

    def values(self):
        if self.contig is not None:
            return self.ordered(lambda k, v: v)
        return SList([v for k, v in self.entries()])

    def __iter__(self):
        return iter(self.keys())

    def slen(self):
        return len(self.entries()) if self.contig is None else self.count()

    def __len__(self):
        return len(self.entries())

    def __bool__(self):
        return bool(self.slen() > 0)

    def update(self, o=(), **kw):
        for k in (o.keys() if hasattr(o, "keys") else [x[0] for x in o]):
            self[k] = o[k]
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return SDict(self)

    def clear(self):
        log("dict", self)
        self.log, self.base, self.contig = [], None, None


def any_sym(lg):
    return builtins.any(isinstance(k, SymInt) for k, _ in lg)


class SSet:
    """set of possibly symbolic integers over an optional symbolic base (member(k))"""
    def __init__(self, it=()):
        self.vals = []
        self.base = None
        self.epoch = epoch()
        for v in it:
            self.add(v)

    __hash__ = object.__hash__

    def add(self, v):
        log("set", self)
        for a in self.vals:
            if SDict._same(None, a, v) is True:
                return
        self.vals.append(v)

    def member(self, v):
        return Or(*([SDict._same(None, a, v) for a in self.vals] + ([self.base(v)] if self.base else [])))

    def __contains__(self, v):
        return bool(self.member(v))

    def discard(self, v):
        log("set", self)
        if self.base:
            raise Unsupported("removal from a symbolic set")
        self.vals = [a for a in self.vals if not SDict._same(None, a, v)]

    def remove(self, v):
        if v not in self:
            raise KeyError(v)
        self.discard(v)

    def update(self, it):
        for v in it:
            self.add(v)

    def dedup(self):
        if self.base:
            raise Unsupported("iteration over a symbolic set")
        out = []
        for a in self.vals:
            if not builtins.any(SDict._same(None, a, b) for b in out):
                out.append(a)
        return out

    def __iter__(self):
        return iter(self.dedup())

    count = None             # number of elements of the base

    def slen(self):
        if self.base is None:
            return len(self.dedup())
        if self.count is None:
            raise Unsupported("size of a symbolic set")
        n = self.count
        for i, a in enumerate(self.vals):
            n = n + Ite(Or(self.base(a), *[SDict._same(None, a, b) for b in self.vals[:i]]), 0, 1)
        return n

    def __len__(self):
        return len(self.dedup())

    def __bool__(self):
        return builtins.bool(self.vals) or self.base is not None and len(self) > 0

    def __or__(self, o):
        return SSet(list(self) + list(o))

    def __sub__(self, o):
        return SSet([v for v in self if v not in o])

    def __and__(self, o):
        return SSet([v for v in self if v in o])

    def __eq__(self, o):
        a, b = list(self), list(o)
        return builtins.all(v in o for v in a) and builtins.all(v in self for v in b)
