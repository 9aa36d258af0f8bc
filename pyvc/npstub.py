"""Model of the part of numpy 1.22 the code under contract uses: one
dimensional arrays as views of byte or element buffers whose contents are
functions of the index."""
import builtins
import z3
from .core import *
from . import core

_addr = [0]


def tri(c):
    """decide a condition if the path condition already does"""
    if c is True or c is False:
        return c
    c = z3.simplify(tobool(c))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    r = core.CUR
    key = ("tri", c.get_id(), len(r.pc))
    if key in r.cache:
        return r.cache[key][0]
    v = None
    if r.probe(z3.Not(c), ms=400) == z3.unsat:
        v = True
    elif r.probe(c, ms=400) == z3.unsat:
        v = False
    r.cache[key] = (v, c)
    return v


def pick(c, a, b):
    """a() if c else b(), deciding c by the path condition when possible"""
    t = tri(c)
    if t is True:
        return a()
    if t is False:
        return b()
    return Ite(c, a(), b())


# ------------------------------------------------------------------ contents

class Base:
    prev = None

    def __init__(self, fn):
        self.fn = fn

    def get(self, p):
        return self.fn(p)


class Over:
    """concrete points over a previous content"""
    def __init__(self, prev):
        self.prev = prev
        self.d = {}
        self.frozen = False

    def get(self, p):
        c = concrete(p)
        if c is not None:
            if c in self.d:
                return self.d[c]
            return self.prev.get(c)
        if len(self.d) > 600:
            raise Unsupported("symbolic read of a long concrete array")
        out = self.prev.get(p)
        for k, v in self.d.items():
            t = tri(core.mkbool(toint(p) == k))
            if t is True:
                return v
            if t is False:
                continue
            out = Ite(core.mkbool(toint(p) == k), v, out)
        return out


class RangeC:
    def __init__(self, prev, lo, hi, fn, step=1):
        self.prev, self.lo, self.hi, self.fn, self.step = prev, lo, hi, fn, step

    def get(self, p):
        cond = And(self.lo <= p, p < self.hi)
        if self.step != 1:
            cond = And(cond, (p - self.lo) % self.step == 0)
        return pick(cond, lambda: self.fn(p), lambda: self.prev.get(p))


class Scatter:
    """content after a[idx[i]] = val[i] for all i < n; the last write wins"""
    def __init__(self, prev, n, idxget, fn):
        self.prev, self.n, self.idxget, self.fn = prev, n, idxget, fn
        r = core.CUR
        self.w = z3.Function(r.fresh("scatter"), z3.IntSort(), z3.IntSort())
        r.scatters = getattr(r, "scatters", [])
        i = z3.Int(r.fresh("si"))
        e = idxget(SymInt(i))
        # every written position knows its last writer
        r.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < toint(n)), i <= self.w(toint(e)))))
        self.seen = set()

    def inst(self, i):
        """instantiate at index term i"""
        ii = toint(i)
        e = toint(self.idxget(i))
        core.CUR.fact(z3.Implies(z3.And(ii >= 0, ii < toint(self.n)), ii <= self.w(e)))

    def get(self, p):
        e = z3.simplify(toint(p))
        w = self.w(e)
        r = core.CUR
        iw = SymInt(w)
        k = e.get_id()
        if k not in self.seen:
            self.seen.add(k)
            r.cache.setdefault("keep", []).append(e)
            r.fact(z3.Or(w == -1, z3.And(w >= 0, w < toint(self.n))))
            r.fact(z3.Implies(w >= 0, toint(self.idxget(iw)) == e))
        return pick(core.mkbool(w >= 0), lambda: self.fn(iw), lambda: self.prev.get(p))


class Buf:
    def __init__(self, n, et, content):
        self.n, self.et = n, et
        self.c = content
        _addr[0] += 1
        self.addr = _addr[0] << 40
        self.versions = 0
        self.epoch = core.CUR.epoch if core.CUR else 0
        self.name = None

    def get(self, i):
        return self.c.get(i)

    def snap(self):
        if isinstance(self.c, Over):
            self.c.frozen = True
        return self.c

    def note(self):
        self.versions += 1
        r = core.CUR
        if r is not None and r.mutlog is not None:
            r.mutlog.append(("buf", self))

    def put(self, i, v):
        self.note()
        c = concrete(i)
        if c is not None:
            if not isinstance(self.c, Over) or self.c.frozen:
                o = Over(self.c)
                if isinstance(self.c, Over) and len(self.c.d) < 300:
                    o.prev = self.c.prev
                    o.d = dict(self.c.d)
                self.c = o
            self.c.d[c] = v
            return
        self.c = RangeC(self.snap(), i, i + 1, lambda p: v)

    def put_range(self, lo, hi, fn, step=1):
        """fn takes the absolute position"""
        cl, ch = concrete(lo), concrete(hi)
        if cl is not None and ch is not None and 0 <= ch - cl <= 64:
            vals = [(p, fn(p)) for p in range(cl, ch, step)]
            for p, v in vals:
                self.put(p, v)
            if ch - cl <= 0:
                return
            return
        self.note()
        self.c = RangeC(self.snap(), lo, hi, fn, step)


# --------------------------------------------------------------------- dtypes

class Dtype:
    def __init__(self, name, itemsize, fields=None, codec=None):
        self.name, self.itemsize, self.fields, self.codec = name, itemsize, fields, codec
        self.names = [f[0] for f in fields] if fields else None

    def __call__(self, v=0):
        if isinstance(v, ndarray):
            raise Unsupported("scalar type of an array")
        return retag(wrap(v, self.name), self.name)

    def __eq__(self, o):
        try:
            o = dtype(o)
        except Exception:
            return False
        return (self.name, self.codec, self.itemsize) == (o.name, o.codec, o.itemsize)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = object.__hash__


uint8 = Dtype("uint8", 1)
uint16 = Dtype("uint16", 2)
uint32 = Dtype("uint32", 4)
int32 = Dtype("int32", 4)
int64 = Dtype("int64", 8)
int_ = int64
intp = int64
bool_ = Dtype("bool", 1)
int8 = Dtype("int8", 1)
uint64 = Dtype("uint64", 8)
int16 = Dtype("int16", 2)
_by = {"uint8": uint8, "uint16": uint16, "uint32": uint32, "int32": int32, "int64": int64, "bool": bool_, "int8": int8, "uint64": uint64, "int16": int16}


def dtype(spec):
    if isinstance(spec, Dtype):
        return spec
    if spec is builtins.bool:
        return bool_
    if spec is builtins.int:
        return int64
    if spec is None:
        return uint8
    if isinstance(spec, str):
        s = spec
        order = "<"
        if s[0] in "<>|=":
            order = s[0] if s[0] in "<>" else "<"
            s = s[1:]
        if s in ("u1", "B"):
            return uint8
        if s == "i1":
            return int8
        if s in ("u2", "u4", "i2", "i4"):
            w = int(s[1])
            nm = ("uint%d" if s[0] == "u" else "int%d") % (8 * w)
            return Dtype(nm, w, codec=(order, w))
        if s[0] == "S":
            return Dtype("S", int(s[1:]), codec=("S", int(s[1:])))
        if s in _by:
            return _by[s]
        raise Unsupported("dtype %r" % spec)
    if isinstance(spec, list):
        fields, off = [], 0
        for name, t in spec:
            t = dtype(t)
            fields.append((name, t, off))
            off += t.itemsize
        return Dtype("record", off, fields=fields)
    raise Unsupported("dtype %r" % (spec,))


# ---------------------------------------------------------------- byte strings

WS = (32, 9, 10, 13, 11, 12)


def is_ws(b):
    return Or(*[b == c for c in WS])


class SymSeq:
    """symbolic bytes or str (latin-1 characters); length n <= maxlen"""
    def __init__(self, get, n, maxlen=None):
        self.get, self.n = get, n
        c = concrete(n)
        if c is not None:
            self.n = c
            maxlen = c
        self.maxlen = maxlen

    def _mk(self, get, n, maxlen=None):
        return type(self)(get, n, maxlen)

    def slen(self):
        return self.n

    def __len__(self):
        c = concrete(self.n)
        if c is None:
            raise Unsupported("native len of a symbolic string")
        return c

    def __bool__(self):
        return bool(self.n > 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def _lift(self, o):
        if isinstance(o, type(self)):
            return o
        if isinstance(o, (bytes, bytearray)) and isinstance(self, SymBytes):
            o = bytes(o)
            return SymBytes(concrete_getter(list(o)), len(o))
        if isinstance(o, str) and isinstance(self, SymStr):
            return SymStr(concrete_getter([ord(c) for c in o]), len(o))
        return None

    def __eq__(self, o):
        o = self._lift(o)
        if o is None:
            return False
        if self is o:
            return True
        if tri(core.mkbool(toint(self.n) == toint(o.n))) is False:
            return False
        m = self.maxlen if o.maxlen is None else o.maxlen if self.maxlen is None else min(self.maxlen, o.maxlen)
        if m is None:
            raise Unsupported("comparison of unbounded strings")
        if m > 300:
            raise Unsupported("comparison of long strings")
        return And(core.mkbool(toint(self.n) == toint(o.n)), *[Implies(self.n > i, self.get(i) == o.get(i)) for i in range(m)])

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __add__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        a, na = self.get, self.n
        mx = None if self.maxlen is None or o.maxlen is None else self.maxlen + o.maxlen
        return self._mk(lambda i: pick(i < na, lambda: a(i), lambda: o.get(i - na)), na + o.n, mx)

    def __radd__(self, o):
        return self._lift(o) + self

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, st = norm_slice(i, self.n)
            if st != 1:
                raise Unsupported("string slice step")
            g = self.get
            mx = self.maxlen
            if i.stop is not None and concrete(i.stop) is not None and concrete(i.stop) >= 0:
                mx = concrete(i.stop) if mx is None else min(mx, concrete(i.stop))
            return self._mk(lambda k: g(k + lo), hi - lo, mx)
        i = norm_index(i, self.n)
        v = self.get(i)
        if isinstance(self, SymBytes):
            return untag(v)
        return SymStr(lambda k: v, 1)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _stripped(self, chars):
        if chars is None:
            return is_ws
        cs = [ord(c) if isinstance(c, str) else c for c in chars]
        return lambda b: Or(*[b == c for c in cs])

    def _edge(self):
        e = z3.Int(core.CUR.fresh("strip"))
        core.CUR.add(e >= 0)
        return SymInt(e)

    def _all(self, bad, lo, hi):
        i = z3.Int(core.CUR.fresh("strip_i"))
        core.CUR.add(z3.ForAll([i], tobool(Implies(And(SymInt(i) >= lo, SymInt(i) < hi), bad(self.get(SymInt(i)))))))

    def rstrip(self, chars=None):
        bad = self._stripped(chars)
        if self.maxlen is None:
            n = self._edge()
            core.CUR.add(tobool(And(n <= self.n, Implies(n > 0, Not(bad(self.get(n - 1)))))))
            self._all(bad, n, self.n)
            return self._mk(self.get, n)
        n = 0
        for i in range(self.maxlen):
            keep = And(self.n > i, Not(bad(self.get(i))))
            n = Ite(keep, i + 1, n)
        return self._mk(self.get, n, self.maxlen)

    def lstrip(self, chars=None):
        bad = self._stripped(chars)
        if self.maxlen is None:
            k, g = self._edge(), self.get
            core.CUR.add(tobool(And(k <= self.n, Implies(k < self.n, Not(bad(self.get(k)))))))
            self._all(bad, 0, k)
            return self._mk(lambda i: g(i + k), self.n - k)
        k = self.n
        for i in reversed(range(self.maxlen)):
            k = Ite(And(self.n > i, Not(bad(self.get(i)))), i, k)
        g = self.get
        return self._mk(lambda i: g(i + k), self.n - k, self.maxlen)

    def strip(self, chars=None):
        return self.rstrip(chars).lstrip(chars)

    def ljust(self, w, fill=None):
        f = 32 if fill is None else ord(fill)
        n, g = self.n, self.get
        return self._mk(lambda i: pick(i < n, lambda: g(i), lambda: f), smax(n, w), None if self.maxlen is None else max(self.maxlen, w))

    def replace(self, a, b):
        a, b = self._lift(a), self._lift(b)
        if a is None or b is None or concrete(a.n) != 1 or concrete(b.n) != 1:
            raise Unsupported("replacement of text")
        x, y, g = a.get(0), b.get(0), self.get

        def get(i):
            c = g(i)
            return Ite(c == x, y, c)
        return self._mk(get, self.n, self.maxlen)

    def find1(self, ch):
        """index of the first occurrence (forks)"""
        if self.maxlen is None:
            raise Unsupported("search in an unbounded string")
        for i in range(self.maxlen):
            if not (self.n > i):
                return -1
            if self.get(i) == ch:
                return i
        return -1

    def __contains__(self, sub):
        s = self._lift(sub)
        if s is None or concrete(s.n) != 1:
            raise Unsupported("substring search")
        if self.maxlen is None:
            raise Unsupported("search in an unbounded string")
        return bool(Or(*[And(self.n > i, self.get(i) == s.get(0)) for i in range(self.maxlen)]))

    def split(self, sep=None, maxsplit=-1):
        s = self._lift(sep)
        if maxsplit != 1 or concrete(s.n) != 1:
            raise Unsupported("split")
        k = self.find1(s.get(0))
        if k < 0:
            return [self]
        return [self[0:k], self[k + 1:]]

    def upper(self):
        g = self.get
        return self._mk(lambda i: _upper(g(i)), self.n, self.maxlen)

    def lower(self):
        g = self.get
        return self._mk(lambda i: _lower(g(i)), self.n, self.maxlen)

    def startswith(self, s):
        s = self._lift(s)
        k = len(s)
        return And(self.n >= k, *[self.get(i) == s.get(i) for i in range(k)])

    def endswith(self, s):
        s = self._lift(s)
        k = len(s)
        if not (self.n >= k):
            return False
        return And(*[self.get(self.n - k + i) == s.get(i) for i in range(k)])


def _upper(c):
    return Ite(And(c >= 97, c <= 122), c - 32, c)


def _lower(c):
    return Ite(And(c >= 65, c <= 90), c + 32, c)


def untag(v):
    if isinstance(v, SymInt):
        return SymInt(v.e)
    if isinstance(v, SymBool):
        return v
    return int(v)


def concrete_getter(vals):
    def get(i):
        c = concrete(i)
        if c is not None:
            return vals[c] if 0 <= c < len(vals) else 0
        out = 0
        for k in range(len(vals) - 1, -1, -1):
            out = Ite(core.mkbool(toint(i) == k), vals[k], out)
        return out
    return get


class SymBytes(SymSeq):
    def decode(self, enc="utf-8", errors="strict"):
        enc = enc.lower().replace("-", "")
        if enc in ("latin1", "iso88591"):
            return SymStr(self.get, self.n, self.maxlen)
        if enc == "ascii":
            if self.maxlen is None:
                raise Unsupported("decode of an unbounded string")
            ok = And(*[Implies(self.n > i, self.get(i) < 128) for i in range(self.maxlen)])
            if ok:
                return SymStr(self.get, self.n, self.maxlen)
            if errors == "ignore":
                # which characters remain is left open
                r = core.CUR
                f = z3.Function(r.fresh("decoded"), z3.IntSort(), z3.IntSort())
                n = SymInt(z3.Int(r.fresh("decodedlen")))
                r.add(z3.And(n.e >= 0, n.e < toint(self.n)))

                def get(i):
                    t = f(toint(i))
                    r.fact(z3.And(t >= 0, t < 128))
                    return SymInt(t)
                return SymStr(get, n, self.maxlen)
            raise Unsupported("decode of non-ASCII characters")
        raise Unsupported("decode " + enc)

    def tobytes(self):
        return self

    def hex(self):
        return "<sym>"


class SymStr(SymSeq):
    def encode(self, enc="utf-8", errors="strict"):
        enc = enc.lower().replace("-", "")
        if enc in ("latin1", "iso88591"):
            return SymBytes(self.get, self.n, self.maxlen)
        if enc == "ascii":
            ok = And(*[Implies(self.n > i, self.get(i) < 128) for i in range(self.maxlen)])
            if not ok:
                raise UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range")
            return SymBytes(self.get, self.n, self.maxlen)
        raise Unsupported("encode " + enc)


# --------------------------------------------------------------------- slices

def norm_index(i, n):
    """python index -> position, IndexError if out of range (forks)"""
    if not isnum(i):
        raise TypeError("list indices must be integers")
    ok = And(i >= -n, i < n) if isinstance(n, SymInt) or isinstance(i, SymInt) else (-n <= int(i) < n)
    if not ok:
        raise IndexError("index out of range")
    neg = i < 0
    if isinstance(neg, SymBool):
        t = tri(neg)
        if t is None:
            return Ite(neg, i + n, i)
        neg = t
    return i + n if neg else untag(i)


def clamp(v, n, default):
    if v is None:
        return default
    v = untag(v)
    if not isinstance(v, SymInt) and not isinstance(n, SymInt):
        if v < 0:
            v = max(0, v + n)
        return min(v, n)
    if tri(And(v >= 0, v <= n)) is True:
        return v
    v = pick(v < 0, lambda: pick(v + n < 0, lambda: 0, lambda: v + n), lambda: v)
    return pick(v > n, lambda: n, lambda: v)


def norm_slice(s, n):
    st = 1 if s.step is None else s.step
    cs = concrete(st)
    if cs is None:
        if not tri(st > 0):
            raise Unsupported("symbolic slice step")
        lo = clamp(s.start, n, 0)
        hi = clamp(s.stop, n, n)
        return lo, pick(hi < lo, lambda: lo, lambda: hi), st
    if cs < 0:
        if s.start is None and s.stop is None:
            return n - 1, -1, cs
        raise Unsupported("negative slice step")
    lo = clamp(s.start, n, 0)
    hi = clamp(s.stop, n, n)
    return lo, pick(hi < lo, lambda: lo, lambda: hi), cs


# ---------------------------------------------------------------------- arrays

class Record:
    """one element of a structured view"""
    def __init__(self, arr, pos, dt):
        self.arr, self.pos, self.dt = arr, pos, dt

    def _f(self, k):
        if isinstance(k, str):
            for f in self.dt.fields:
                if f[0] == k:
                    return f
            raise ValueError("no field of name " + k)
        return self.dt.fields[int(k)]

    def __getitem__(self, k):
        name, t, off = self._f(k)
        return decode_at(self.arr.buf, self.pos + off, t)

    def __setitem__(self, k, v):
        name, t, off = self._f(k)
        encode_at(self.arr.buf, self.pos + off, t, v)

    def __len__(self):
        return len(self.dt.fields)

    def __iter__(self):
        for i in range(len(self.dt.fields)):
            yield self[i]


def decode_at(buf, pos, t, get=None):
    get = get or buf.get
    if t.codec is None:
        v = get(pos)
        if t.name == "int8":
            v = untag(v)
            return retag(Ite(v >= 128, v - 256, v), "int8") if isinstance(v, SymInt) else CInt(wrapc(v, "int8"), "int8")
        return v
    order, w = t.codec
    if order == "S":
        g = lambda i, b=(get if get != buf.get else buf.snap().get): b(pos + i)
        n = 0
        for i in range(w):
            n = Ite(g(i) != 0, i + 1, n)
        return SymBytes(g, n, w)
    if t.name.startswith("int"):
        raise Unsupported("signed multi-byte field")
    v = 0
    for k in range(w):
        b = untag(get(pos + k))
        v = v + b * (256 ** (k if order == "<" else w - 1 - k))
    return retag(v, t.name)


def encode_at(buf, pos, t, v):
    if t.codec is None:
        buf.put(pos, retag(wrap(v, "uint8"), buf.et))
        return
    order, w = t.codec
    if order == "S":
        if isinstance(v, bytes):
            v = SymBytes(concrete_getter(list(v)), len(v))
        if isinstance(v, str):
            v = SymBytes(concrete_getter(list(v.encode("ascii"))), len(v))
        if not isinstance(v, SymBytes):
            raise Unsupported("string field assigned %r" % type(v))
        vals = [pick(v.n > i, lambda i=i: v.get(i), lambda: CInt(0, "uint8")) for i in range(w)]
        for i, x in enumerate(vals):
            buf.put(pos + i, retag(wrap(x, "uint8"), "uint8"))
        return
    v = untag(wrap(v, t.name))
    for k in range(w):
        sh = 256 ** (k if order == "<" else w - 1 - k)
        b = (v // sh) % 256
        buf.put(pos + k, retag(b, "uint8") if isinstance(b, SymInt) else CInt(b, "uint8"))


NUMPY_ATTRS = set("""T argmax argmin argpartition argsort byteswap choose clip compress conj conjugate ctypes cumprod cumsum data
diagonal dot dump dumps fill flat getfield imag item itemset itemsize max mean min newbyteorder nonzero partition prod ptp put ravel real
repeat resize round searchsorted setfield setflags sort squeeze std strides swapaxes take trace transpose var""".split())


class Flags:
    writeable = True


def known_index(g, c):
    """are the c elements all known numbers"""
    if c is None or c > 4096:
        return False
    return all(concrete(g(i)) is not None for i in range(c))


class ndarray:
    """one dimensional view: element i is at position off + step*i of buf"""
    __array_priority__ = 100

    def __init__(self, buf, off, n, step=1, dt=None, base=None, shape2=None):
        self.buf, self.off, self._n, self.step = buf, off, n, step
        self.dtype = dt or _by[buf.et]
        self.base = base
        self.shape2 = shape2        # (rows, cols, rowstride) of a 2-D view
        self.flags = Flags()

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<array n=%s %s>" % (self._n, self.dtype.name)

    def __format__(self, s):
        return "<array>"

    # -- elements
    @property
    def esize(self):
        return self.dtype.itemsize if (self.dtype.codec or self.dtype.fields) else 1

    def pos(self, i):
        return self.off + self.step * i

    def get(self, i):
        if self.dtype.fields:
            return Record(self, self.pos(i), self.dtype)
        if self.dtype.codec or self.dtype.name == "int8" and self.buf.et == "uint8":
            return decode_at(self.buf, self.pos(i), self.dtype)
        return self.buf.get(self.pos(i))

    def getter(self):
        """element function on the present contents"""
        c = self.buf.snap()
        if self.dtype.fields:
            raise Unsupported("copy of a structured array")
        if self.dtype.codec:
            return lambda i: decode_at(self.buf, self.pos(i), self.dtype, c.get)
        off, st = self.off, self.step
        return lambda i: c.get(off + st * i)

    def set(self, i, v):
        if self.dtype.codec:
            encode_at(self.buf, self.pos(i), self.dtype, v)
        else:
            v = wrap(v, self.buf.et)
            self.buf.put(self.pos(i), v)

    # -- basics
    def slen(self):
        return self.shape2[0] if self.shape2 else self._n

    def __len__(self):
        c = concrete(self.slen())
        if c is None:
            raise Unsupported("native len of a symbolic array")
        return c

    @property
    def size(self):
        return self._n

    @property
    def shape(self):
        return (self._n,) if not self.shape2 else (self.shape2[0], self.shape2[1])

    @property
    def ndim(self):
        return 2 if self.shape2 else 1

    @property
    def nbytes(self):
        return self._n * self.dtype.itemsize

    def __iter__(self):
        for i in range(len(self)):
            yield self.get(i)

    def _owner(self):
        return self.base if self.base is not None else self

    def view(self, dtype=None):
        dt = globals()["dtype"](dtype)
        if dt.codec is None and dt.fields is None and dt.name == self.dtype.name and self.dtype.codec is None:
            return ndarray(self.buf, self.off, self._n, self.step, self.dtype, self._owner())
        if self.buf.et != "uint8":
            raise Unsupported("view of non-byte data")
        total = self._n * self.esize
        if self.step != self.esize:
            raise ValueError("To change to a dtype of a different size, the array must be C-contiguous")
        w = dt.itemsize
        q = total // w
        if not (q * w == total):
            raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
        return ndarray(self.buf, self.off, q, w, dt, self._owner())

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == 1:
            return self
        r, c = shape
        if self.shape2 or self.step != 1:
            raise Unsupported("reshape")
        if r == -1:
            r = self._n // c
        if not (r * c == self._n):
            raise ValueError("cannot reshape array")
        return ndarray(self.buf, self.off, self._n, 1, self.dtype, self._owner(), shape2=(r, c, c))

    def flatten(self):
        if self.shape2:
            rows, cols, rs = self.shape2
            cc = concrete(cols)
            src = self.buf.snap()
            off = self.off
            return fresh_array(rows * cols, self.buf.et, lambda i: src.get(off + (i // cc) * rs + i % cc))
        return self.copy()

    def copy(self):
        g = self.getter()
        if self.dtype.codec:
            out = empty([self._n], self.dtype)
            out[:] = self
            return out
        return fresh_array(self._n, self.buf.et, g)

    def astype(self, t):
        t = dtype(t)
        g = self.getter()
        return fresh_array(self._n, t.name, lambda i: wrap(g(i), t.name))

    def tobytes(self):
        if self.shape2:
            return self.flatten().tobytes()
        if self.dtype.codec:
            u = ndarray(self.buf, self.off, self._n * self.esize, 1, uint8, self._owner())
            return u.tobytes()
        if self.buf.et not in ("uint8",):
            raise Unsupported("tobytes of %s" % self.buf.et)
        g = self.getter()
        return SymBytes(lambda i: untag(g(i)), self._n)

    tostring = tobytes

    def tofile(self, fh):
        fh.write(self.tobytes())

    def tolist(self):
        c = concrete(self._n)
        if c is not None and c <= 64:
            return [untag(self.get(i)) for i in range(c)]
        from .containers import SymList
        g = self.getter()
        return SymList(lambda i: untag(g(i)), self._n)

    def sum(self):
        return sum([untag(self.get(i)) for i in range(len(self))])

    def all(self):
        c = concrete(self._n)
        if c is None or c > 64:
            raise Unsupported("all of a long array")
        return And(*[core.mkbool(tobool(self.get(i))) for i in range(c)])

    def any(self):
        c = concrete(self._n)
        if c is None or c > 64:
            raise Unsupported("any of a long array")
        return Or(*[core.mkbool(tobool(self.get(i))) for i in range(c)])

    # -- indexing
    def _fancy(self, idx):
        """element positions for an index array; raises IndexError (forks)"""
        n = self._n
        if isinstance(idx, list):
            idx = asarray(idx, dtype=int64)
        if idx.buf.et == "bool":
            raise Unsupported("boolean index")
        g = idx.getter()
        m = idx._n
        r = core.CUR
        c = concrete(m)
        unsigned = not WIDTH[idx.buf.et][1]
        if c is not None and c <= 40:
            ok = And(*[And(g(i) >= -n, g(i) < n) for i in range(c)])
            if not ok:
                raise IndexError("index out of bounds")
        elif known_index(g, c) and concrete(n) is not None:
            for i in range(c):
                if not -concrete(n) <= concrete(g(i)) < concrete(n):
                    raise IndexError("index out of bounds")
            unsigned = unsigned or all(concrete(g(i)) >= 0 for i in range(c))
        else:
            i = SymInt(z3.Int(r.fresh("fi")))
            inr = And(g(i) >= -n, g(i) < n)
            rng = And(i >= 0, i < m)
            if r.check(rng_e(rng), z3.Not(tobool(inr))) != z3.unsat:
                k = r.choose(2)
                if k == 0:
                    r.add(z3.ForAll([i.e], z3.Implies(tobool(rng), tobool(inr))))
                    r.approx_quant = True
                else:
                    r.add(tobool(rng))
                    r.add(z3.Not(tobool(inr)))
                    if not r.feasible():
                        raise PathEnd()
                    raise IndexError("index out of bounds")

        def posn(i):
            v = untag(g(i))
            if unsigned:
                return v
            return pick(v < 0, lambda: v + n, lambda: v)
        return posn, m

    def __getitem__(self, k):
        if self.shape2:
            return self._get2(k)
        if isinstance(k, slice):
            lo, hi, st = norm_slice(k, self._n)
            if concrete(st) is not None and concrete(st) < 0:
                return ndarray(self.buf, self.pos(lo), self._n, -self.step, self.dtype, self._owner())
            n = (hi - lo) if st == 1 else (hi - lo + st - 1) // st
            return ndarray(self.buf, self.pos(lo), n, self.step * st, self.dtype, self._owner())
        if isinstance(k, (ndarray, list)):
            posn, m = self._fancy(k)
            g = self.getter()
            return fresh_array(m, self.buf.et if not self.dtype.codec else self.dtype.name, lambda i: g(posn(i)))
        if isinstance(k, tuple):
            raise Unsupported("tuple index")
        if not isnum(k):
            if hasattr(k, "slen"):
                return self[to_index_array(k)]
            raise IndexError("only integers, slices (`:`), ... are valid indices")
        i = norm_index(k, self._n)
        return self.get(i)

    def _get2(self, k):
        rows, cols, rs = self.shape2
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], slice):
            lo, hi, st = norm_slice(k[1], cols)
            if st != 1:
                raise Unsupported("2-D step")
            return ndarray(self.buf, self.off + lo, rows * (hi - lo), 1, self.dtype, self._owner(), shape2=(rows, hi - lo, rs))
        if isnum(k):
            i = norm_index(k, rows)
            return ndarray(self.buf, self.off + i * rs, cols, 1, self.dtype, self._owner())
        raise Unsupported("2-D index")

    def __setitem__(self, k, v):
        if self.shape2:
            return self._set2(k, v)
        if isinstance(k, slice):
            lo, hi, st = norm_slice(k, self._n)
            if concrete(st) is not None and concrete(st) < 0:
                raise Unsupported("store with negative step")
            n = (hi - lo) if st == 1 else (hi - lo + st - 1) // st
            fn = bvalue(v, n)
            if self.dtype.codec:
                for i in range(concrete_or(n)):
                    self.set(lo + i, fn(i))
                return
            step = self.step * st
            et = self.buf.et
            if concrete(step) is None:
                first = self.pos(lo)
                self.buf.put_range(first, first + (n - 1) * step + 1, lambda p: wrap(fn((p - first) // step), et), step)
                return
            if step < 0:
                raise Unsupported("store through a reversed view")
            first = self.pos(lo)
            if step == 1:
                self.buf.put_range(first, first + n, lambda p: wrap(fn(p - first), et))
            else:
                self.buf.put_range(first, first + n * step, lambda p: wrap(fn((p - first) // step), et), step)
            return
        if isinstance(k, (ndarray, list)) or (hasattr(k, "slen") and not isnum(k)):
            if isinstance(k, ndarray) and k.buf.et == "bool":
                raise Unsupported("boolean store")
            if not isinstance(k, (ndarray, list)):
                k = to_index_array(k)
            posn, m = self._fancy(k)
            fn = bvalue(v, m)
            c = concrete(m)
            et = self.buf.et
            if c is not None and c <= 40:
                vals = [(self.pos(posn(i)), wrap(fn(i), et)) for i in range(c)]
                for p, x in vals:
                    self.buf.put(p, x)
                return
            off, st = self.off, self.step
            if st != 1:
                raise Unsupported("fancy store through a stepped view")
            self.buf.note()
            self.buf.c = Scatter(self.buf.snap(), m, lambda i: off + posn(i), lambda i: wrap(fn(i), et))
            return
        i = norm_index(k, self._n)
        self.set(i, v)

    def _set2(self, k, v):
        rows, cols, rs = self.shape2
        sub = self._get2(k)
        rows, cols, rs = sub.shape2
        if not isinstance(v, ndarray) or not v.shape2 or not (v.shape2[0] == rows) or not (v.shape2[1] == cols):
            raise Unsupported("2-D store")
        src = v.buf.snap()
        vo, vrs = v.off, v.shape2[2]
        cr, cc = concrete_or(rows), concrete_or(cols)
        et = self.buf.et
        for c in range(cc if cr else 0):
            lo = sub.off + c
            self.buf.put_range(lo, lo + (cr - 1) * rs + 1, lambda p, lo=lo, c=c: wrap(src.get(vo + ((p - lo) // rs) * vrs + c), et), rs)

    # -- arithmetic
    def _bin(self, o, f, cmp=False):
        if self.shape2:
            raise Unsupported("2-D arithmetic")
        g = self.getter()
        et = self.buf.et if not self.dtype.codec else self.dtype.name
        if isinstance(o, (list, tuple)):
            o = asarray(o, dtype=int64)
        if isinstance(o, SymBytes):
            raise Unsupported("array op bytes")
        if isinstance(o, ndarray):
            t1 = tri(core.mkbool(toint(self._n) == toint(o._n)))
            same = t1 if t1 is not None else bool(core.mkbool(toint(self._n) == toint(o._n)))
            if not same:
                if concrete(o._n) == 1:
                    h0 = o.get(0)
                    h = lambda i: h0
                elif cmp:
                    return False
                else:
                    raise ValueError("operands could not be broadcast together")
            else:
                h = o.getter()
            ot = o.buf.et if not o.dtype.codec else o.dtype.name
            rt = promote(et, ot) if et != ot else et
        elif isnum(o):
            h = lambda i: o
            ot = tag(o)
            if isinstance(o, (bool, SymBool)):
                rt = et
            elif et == "bool":
                rt = "bool" if isinstance(o, (bool, SymBool)) else (ot or "int64")
            else:
                rt = et      # value based casting: a scalar of the same kind does not widen
                if not isinstance(o, SymInt):
                    w, s = WIDTH[et]
                    if not (-(1 << (w - 1)) <= int(o) < (1 << w)):
                        rt = "int64" if int(o) < (1 << 63) else "uint64"
                        if et in ("uint8", "int8") and -32768 <= int(o) < 65536:
                            rt = "uint16" if int(o) >= 0 else "int16"
                    elif not s and int(o) < 0:
                        rt = {"uint8": "int16", "uint16": "int32", "uint32": "int64"}.get(et, "int64")
        else:
            return NotImplemented
        n = self._n
        if cmp:
            return fresh_array(n, "bool", lambda i: core.mkbool(tobool(f(untag(g(i)), untag(h(i))))))
        return fresh_array(n, rt, lambda i: wrap(f(untag(g(i)), untag(h(i))), rt))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, True)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, True)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, True)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, True)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, True)

    def __invert__(self):
        if self.buf.et != "bool":
            raise Unsupported("~")
        g = self.getter()
        return fresh_array(self._n, "bool", lambda i: Not(g(i)))

    def _ibin(self, o, f):
        r = self._bin(o, f)
        et = self.buf.et
        if r.buf.et != et and not fits(r.buf.et, et):
            if isinstance(o, ndarray):
                raise TypeError("Cannot cast ufunc output")
        self[:] = r
        return self

    def __iadd__(self, o): return self._ibin(o, lambda a, b: a + b)
    def __isub__(self, o): return self._ibin(o, lambda a, b: a - b)
    def __iand__(self, o): return self._ibin(o, lambda a, b: a & b)
    def __ior__(self, o): return self._ibin(o, lambda a, b: a | b)
    def __ixor__(self, o): return self._ibin(o, lambda a, b: a ^ b)

    def __getattr__(self, k):
        if k in NUMPY_ATTRS:
            raise Unsupported("ndarray." + k)
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % k)

    def __bool__(self):
        c = concrete(self._n)
        if c == 1:
            return bool(self.get(0))
        if c == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")


def rng_e(c):
    return tobool(c)


def concrete_or(n, limit=2000):
    c = concrete(n)
    if c is None:
        raise Unsupported("symbolic count in a small array operation")
    if c > limit:
        raise Unsupported("array operation too long")
    return c


def bvalue(v, n):
    """value broadcast to n elements, as a function of the index"""
    if getattr(v, "sym", None) and concrete(v.slen()) is None:
        if core.mkbool(toint(v.slen()) == toint(n)):
            return v.sym[0]
        if v.slen() == 1:
            x = v.get(0)
            return lambda i: x
        raise ValueError("could not broadcast input array")
    if isinstance(v, (list, tuple)):
        vals = list(v)
        v = None
        if len(vals) == 1:
            return lambda i: vals[0]
        if not (n == len(vals)):
            raise ValueError("could not broadcast input array")
        return concrete_getter(vals)
    if isinstance(v, ndarray):
        if v.shape2:
            raise Unsupported("2-D value")
        c = tri(core.mkbool(toint(v._n) == toint(n)))
        if c is None:
            c = bool(core.mkbool(toint(v._n) == toint(n)))
        if c:
            return v.getter()
        if v._n == 1:
            x = v.get(0)
            return lambda i: x
        raise ValueError("could not broadcast input array from shape into shape")
    if isinstance(v, (bytes, SymBytes)):
        raise ValueError("invalid literal for int() with base 10")
    if isnum(v):
        return lambda i: v
    if hasattr(v, "as_array"):
        return bvalue(v.as_array(), n)
    if v is None:
        raise TypeError("int() argument must be a string, a bytes-like object or a number, not 'NoneType'")
    raise Unsupported("value of type %r" % type(v))


def fresh_array(n, et, fn):
    c = concrete(n)
    if c is not None:
        n = c
    if et == "bool":
        f2 = fn
    else:
        f2 = lambda i: retag(fn(i), et) if not isinstance(fn(i), (bool, SymBool)) else wrap(fn(i), et)
        def f2(i):
            v = fn(i)
            if isinstance(v, (bool, SymBool)):
                return wrap(v, et)
            return retag(v, et)
    return ndarray(Buf(n, et, Base(f2)), 0, n, 1, _by[et], None)


def to_index_array(k):
    if hasattr(k, "as_array"):
        return k.as_array()
    raise Unsupported("index of type %r" % type(k))


# ------------------------------------------------------------------- functions

def _n(shape):
    if isinstance(shape, (list, tuple)):
        if len(shape) != 1:
            raise Unsupported("2-D shape")
        shape = shape[0]
    if shape < 0:
        raise ValueError("negative dimensions are not allowed")
    return untag(shape)


def _alloc(shape, dt, fill):
    n = _n(shape)
    dt = dtype(dt)
    if dt.codec:
        b = Buf(n * dt.itemsize, "uint8", Base(lambda i: fill))
        return ndarray(b, 0, n, dt.itemsize, dt, None)
    f = CInt(0, dt.name) if dt.name != "bool" else False
    fv = fill if fill is not None else f
    if dt.name == "bool" and isinstance(fv, int):
        fv = bool(fv)
    elif not isinstance(fv, (SymInt, SymBool, bool)):
        fv = CInt(int(fv), dt.name)
    b = Buf(n, dt.name, Base(lambda i: fv))
    return ndarray(b, 0, n, 1, dt, None)


def zeros(shape, dtype=int64):
    return _alloc(shape, dtype, CInt(0, "uint8"))


def ones(shape, dtype=int64):
    return full(shape, 1, dtype)


def full(shape, value, dtype=int64):
    d = globals()["dtype"](dtype)
    v = wrap(value, d.name)
    n = _n(shape)
    return fresh_array(n, d.name, lambda i: v)


def empty(shape, dtype=int64):
    """contents unknown: an arbitrary function"""
    d = globals()["dtype"](dtype)
    n = _n(shape)
    r = core.CUR
    u = z3.Function(r.fresh("empty"), z3.IntSort(), z3.IntSort())
    et = "uint8" if d.codec else d.name
    w, s = WIDTH[et]

    def get(i):
        e = u(toint(i))
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        r.fact(z3.And(e >= lo, e <= hi))
        return SymInt(e, et)
    b = Buf(n * (d.itemsize if d.codec else 1), et, Base(get))
    return ndarray(b, 0, n, d.itemsize if d.codec else 1, d, None)


def zeros_like(a, dtype=None):
    return zeros([a._n], dtype or a.dtype)


def arange(a, b=None, step=1, dtype=int64):
    if b is None:
        a, b = 0, a
    t = globals()["dtype"](dtype).name
    st = concrete(step)
    if st is None:
        raise Unsupported("symbolic arange step")
    if st > 0:
        n = b - a if st == 1 else (b - a + st - 1) // st
    else:
        n = (a - b + (-st) - 1) // (-st)
    n = smax(n, 0)
    a = untag(a)
    return fresh_array(n, t, lambda i: wrap(a + st * i, t))


def _as_dt(d):
    return dtype(d)


def asarray(v, dtype=None):
    if isinstance(v, ndarray):
        if dtype is None or _as_dt(dtype) == v.dtype:
            return v
        return v.astype(dtype)
    t = _as_dt(dtype).name if dtype is not None else "int64"
    if getattr(v, "sym", None):
        return v.as_array(t)
    if isinstance(v, (list, tuple)):
        vals = [wrap(x, t) for x in v]
        a = fresh_array(len(vals), t, concrete_getter(vals))
        return a
    if isinstance(v, (bytes, SymBytes)):
        raise Unsupported("asarray of bytes")
    if hasattr(v, "as_array"):
        return v.as_array(t)
    if isinstance(v, range):
        return asarray(list(v), dtype)
    if isnum(v):
        raise Unsupported("0-d array")
    if hasattr(v, "np_data"):
        raise Unsupported("asarray of a wrapper")
    raise Unsupported("asarray of %r" % type(v))


def array(v, dtype=None, copy=True):
    r = asarray(v, dtype)
    return r.copy() if isinstance(v, ndarray) else r


def copy(a):
    if isinstance(a, ndarray):
        return a.copy()
    if hasattr(a, "np_data"):
        return a[:]  if isinstance(a[:], ndarray) else a
    return asarray(a).copy()


def frombuffer(b, dtype=uint8):
    d = _as_dt(dtype)
    if isinstance(b, bytes):
        b = SymBytes(concrete_getter([CInt(x, "uint8") for x in b]), len(b))
    elif isinstance(b, ndarray):
        b = b.tobytes()
    if not isinstance(b, SymBytes):
        raise TypeError("a bytes-like object is required")
    g = b.get
    a = fresh_array(b.n, "uint8", lambda i: retag(wrap(g(i), "uint8"), "uint8"))
    a.base = "buffer"
    if d.name != "uint8":
        return a.view(d)
    return a


fromstring = frombuffer


def alen(a):
    if hasattr(a, "slen"):
        return a.slen()
    return len(a)


def append(a, b):
    a, b = asarray(a), asarray(b)
    ga, gb = a.getter(), b.getter()
    na = a._n
    et = a.buf.et if a.buf.et == b.buf.et else promote(a.buf.et, b.buf.et)
    return fresh_array(na + b._n, et, lambda i: pick(i < na, lambda: ga(i), lambda: gb(i - na)))


def concatenate(parts):
    parts = list(parts)
    out = parts[0]
    for p in parts[1:]:
        out = append(out, p)
    return out if len(parts) > 1 else out.copy()


hstack = concatenate


def resize(a, shape):
    n = _n(shape)
    g = a.getter()
    m = a._n
    if n <= m:
        return fresh_array(n, a.buf.et, g)
    if m == 0:
        return zeros([n], a.dtype)
    return fresh_array(n, a.buf.et, lambda i: g(i % m))


def byte_bounds(a):
    if not isinstance(a, ndarray):
        raise AttributeError("__array_interface__")
    lo = a.buf.addr + a.off
    if a.step == 1:
        return lo, lo + a._n
    return lo, lo + (a._n - 1) * a.step + 1


def tile(a, n):
    g = a.getter()
    m = a._n
    return fresh_array(m * n, a.buf.et, lambda i: g(i % m))


def repeat(a, n):
    g = a.getter()
    return fresh_array(a._n * n, a.buf.et, lambda i: g(i // n))


def unpackbits(a):
    g = a.getter()

    def get(i):
        c = concrete(i)
        if c is not None:
            return retag(wrap((untag(g(c // 8)) // (1 << (7 - c % 8))) % 2, "uint8"), "uint8")
        byte = untag(g(i // 8))
        k = i % 8
        out = 0
        for j in range(8):
            out = Ite(k == j, (byte // (1 << (7 - j))) % 2, out)
        return retag(out, "uint8")
    return fresh_array(a._n * 8, "uint8", get)


def packbits(a):
    g = a.getter()
    n = a._n

    f = []

    def get(i):
        out = 0
        bits = []
        for j in range(8):
            p = i * 8 + j
            bit = pick(p < n, lambda: Ite(g(p) != 0, 1, 0), lambda: 0)
            bits.append(bit)
            out = out + bit * (1 << (7 - j))
        if not isinstance(out, SymInt):
            return CInt(out, "uint8")
        # name the byte, with the digits of its binary representation as facts
        r = core.CUR
        if not f:
            f.append(z3.Function(r.fresh("packed"), z3.IntSort(), z3.IntSort()))
        t = f[0](toint(i))
        r.fact(z3.And(t >= 0, t < 256, t == toint(out)))
        for j in range(8):
            r.fact((t / (1 << (7 - j))) % 2 == toint(bits[j]))
        return SymInt(t, "uint8")
    return fresh_array((n + 7) // 8, "uint8", get)


def nonzero(a):
    return (_positions(a, lambda v: core.mkbool(tobool(v))),)


def where(c):
    return nonzero(c)


def _apps(t, q):
    """applications of uninterpreted functions to q itself in t (at most one, as a pattern)"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).eq(q):
            return [x]
        todo.extend(x.children())
    return []


def _positions(a, pred):
    """ascending positions whose element satisfies pred"""
    if not isinstance(a, ndarray):
        a = asarray(a)
    n = concrete(a._n)
    g = a.getter()
    if n is not None and n <= 10:
        pos = [i for i in range(n) if pred(g(i))]
        return asarray(pos, dtype=int64)
    r = core.CUR
    size = a._n
    cnt = z3.Int(r.fresh("nzcount"))
    e = z3.Function(r.fresh("nz"), z3.IntSort(), z3.IntSort())
    rank = z3.Function(r.fresh("nzrank"), z3.IntSort(), z3.IntSort())
    r.add(z3.And(cnt >= 0, cnt <= toint(size)))
    q = z3.Int(r.fresh("nzq"))
    gq = tobool(pred(g(SymInt(q))))
    # every qualifying position is listed, and the list ascends
    r.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < toint(size), gq), z3.And(rank(q) >= 0, rank(q) < cnt, e(rank(q)) == q)), patterns=[rank(q)]))
    pat = _apps(gq, q)
    r.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < toint(size), gq), z3.And(cnt > 0, e(0) <= q)), patterns=pat))
    i, j = z3.Int(r.fresh("nzi")), z3.Int(r.fresh("nzj"))
    r.add(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < cnt), e(i) < e(j)), patterns=[z3.MultiPattern(e(i), e(j))]))
    seen = set()

    def get(k):
        t = e(toint(k))
        r.fact(z3.Implies(z3.And(toint(k) >= 0, toint(k) < cnt), z3.And(t >= 0, t < toint(size), tobool(pred(g(SymInt(t)))))))
        return SymInt(t, "int64")
    out = fresh_array(SymInt(cnt), "int64", get)
    out.nz = (g, size, pred, cnt)
    loc = z3.Function(r.fresh("nzloc"), z3.IntSort(), z3.IntSort())

    def last(t):
        """the last k with e(k) <= t (lemma locate: an ascending list that starts at or below t has one)"""
        t = toint(t)
        k = loc(t)
        for x in (k, k + 1):
            get(SymInt(x))
        get(0)
        r.fact(z3.Implies(z3.And(cnt > 0, e(0) <= t), z3.And(k >= 0, k < cnt, e(k) <= t, z3.Or(k == cnt - 1, t < e(k + 1)))))
        return SymInt(k)

    def index(t):
        """the place of position t in the list"""
        t = toint(t)
        k = rank(t)
        r.fact(z3.Implies(z3.And(t >= 0, t < toint(size), tobool(pred(g(SymInt(t))))), z3.And(k >= 0, k < cnt, e(k) == t, e(0) <= t)))
        return SymInt(k)
    r.cache.setdefault("positions", []).append((SymInt(cnt), lambda k: untag(get(k)), index, last))
    return out


def count_nonzero(a):
    n = concrete(a._n)
    g = a.getter()
    if n is not None and n <= 10:
        return sum([toint_b(g(i)) for i in range(n)])
    r = core.CUR
    c = z3.Int(r.fresh("popcount"))
    r.add(z3.And(c >= 0, c <= toint(a._n)))
    # equal arrays have equal counts (extensionality, one witness of difference per pair)
    known = r.cache.setdefault("counts", [])
    for c2, g2, n2 in known:
        i = SymInt(z3.Int(r.fresh("countdiff")))
        differ = And(i >= 0, i < a._n, core.mkbool(tobool(g(i)) != tobool(g2(i))))
        r.add(z3.Or(toint(n2) != toint(a._n), c == c2, tobool(differ)))
    known.append((c, g, a._n))
    return SymInt(c, "int64")


def toint_b(v):
    return Ite(core.mkbool(tobool(v)), 1, 0)


def diff(a):
    g = a.getter()
    n = smax(a._n - 1, 0)
    return fresh_array(n, a.buf.et, lambda i: wrap(g(i + 1) - g(i), a.buf.et))


def split(a, idx):
    if concrete(a._n) is None and isinstance(idx, ndarray):
        from .containers import SList
        m, cut = idx._n, idx.getter()
        out = SList()

        def get(j):
            lo = 0 if j == 0 else untag(cut(j - 1))
            hi = a._n if j == m else untag(cut(j))
            return a[lo:hi]
        get.objects = True
        out.sym = (get, m + 1)
        return out
    n = concrete_or(a._n)
    cuts = [concrete_or(x) for x in idx]
    out, last = [], 0
    for c in cuts + [n]:
        out.append(a[last:c])
        last = c
    return out


def less(a, b):
    return a < b


def all(a):
    return a.all() if hasattr(a, "all") else builtins.all(a)


def any(a):
    return a.any() if hasattr(a, "any") else builtins.any(a)


def array_equal(a, b):
    if not (a._n == b._n):
        return False
    return (a == b).all()


def intersect1d(a, b):
    r = core.CUR
    raise Unsupported("intersect1d")


def copyto(dst, src):
    dst[:] = src


def in1d(a, b):
    raise Unsupported("in1d")
