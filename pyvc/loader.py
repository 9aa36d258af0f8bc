"""Loads the real source files of the package, transformed mechanically:

 * list, dict and set displays and comprehensions build the containers of
   containers.py, which behave alike on concrete values;
 * `a % b` goes through a helper, so that text formatting accepts symbolic
   numbers (the text itself is then not modelled);
 * attribute stores go through a helper that records them (frame conditions);
 * every loop announces its head, so that a loop contract can cut it there;
 * the names of some builtins (len, int, range, min, max, type, ...) denote
   versions that accept symbolic values; numpy is npstub.

Nothing is dropped: every statement of the source is executed.
"""
import ast, copy, json, builtins, os, sys, types, hashlib
from . import core, npstub, containers
from .core import *
from .containers import SList, SDict, SSet, SymRange, SymList
from .npstub import SymBytes, SymStr, SymSeq, ndarray

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "atrcopy"


# ------------------------------------------------------------------ builtins

def b_len(x):
    f = getattr(x, "slen", None)
    if f is not None:
        return f()
    t = builtins.type(x)
    m = getattr(t, "__len__", None)
    if m is not None and t.__module__.startswith(PKG):
        return m(x)          # may return a symbolic integer
    return builtins.len(x)


def b_int(*a):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SymInt):
        return SymInt(x.e)
    if isinstance(x, SymBool):
        return x.toint()
    if isinstance(x, CInt):
        return builtins.int(x)
    if isinstance(x, ndarray):
        if x._n == 1:
            return b_int(x.get(0))
        raise TypeError("only size-1 arrays can be converted to Python scalars")
    if isinstance(x, SymStr):
        raise Unsupported("int of a symbolic string")
    return builtins.int(*a)


def b_bool(x=False):
    if isinstance(x, SymInt):
        return core.mkbool(x.e != 0)
    if isinstance(x, SymBool):
        return x
    return builtins.bool(x)


def b_range(*a):
    a = [b_int(x) for x in a]
    if builtins.any(isinstance(x, SymInt) for x in a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else tuple(a)
        if concrete(lo) is not None and concrete(hi) is not None and concrete(st) is not None:
            return builtins.range(concrete(lo), concrete(hi), concrete(st))
        return SymRange(lo, hi, st)
    return builtins.range(*a)


def b_min(*a, **kw):
    if len(a) == 1:
        a = builtins.list(a[0])
    if not kw and builtins.any(isinstance(x, SymInt) for x in a):
        r = a[0]
        for x in a[1:]:
            r = smin(r, x)
        return r
    return builtins.min(*a, **kw) if len(a) > 1 else builtins.min(a, **kw)


def b_max(*a, **kw):
    if len(a) == 1:
        a = builtins.list(a[0])
    if not kw and builtins.any(isinstance(x, SymInt) for x in a):
        r = a[0]
        for x in a[1:]:
            r = smax(r, x)
        return r
    return builtins.max(*a, **kw) if len(a) > 1 else builtins.max(a, **kw)


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def b_abs(x):
    return abs(x)


class TypeProxy(builtins.type):
    def __call__(cls, *a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymBytes):
                return bytes_proxy
            if isinstance(x, SymStr):
                return str_proxy
            if isinstance(x, SymInt):
                return b_int_type(x)
            if isinstance(x, SymBool):
                return builtins.bool
            t = builtins.type(x)
            if t is SList:
                return list_proxy
            if t is SDict:
                return dict_proxy
            if t is SSet:
                return set_proxy
            return {builtins.bytes: bytes_proxy, builtins.str: str_proxy, builtins.list: list_proxy, builtins.dict: dict_proxy, builtins.set: set_proxy, builtins.int: int_proxy, CInt: CInt}.get(t, t)
        return builtins.type(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)


class type_proxy(metaclass=TypeProxy):
    pass


def b_int_type(x):
    return int_proxy if x.t is None else npstub._by[x.t]


def mkproxy(name, real, conv, sym):
    class M(builtins.type):
        def __call__(cls, *a, **kw):
            return conv(*a, **kw)

        def __instancecheck__(cls, x):
            return isinstance(x, real) or isinstance(x, sym)

        def __eq__(cls, o):
            return o is cls or o is real

        def __ne__(cls, o):
            return not (o is cls or o is real)

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, k):
            return getattr(real, k)
    return M(name, (), {})


def conv_bytes(*a):
    if a and isinstance(a[0], (SymBytes,)):
        return a[0]
    if a and isinstance(a[0], ndarray):
        return a[0].tobytes()
    if a and isinstance(a[0], SList):
        v = a[0]
        if v.sym or builtins.any(isinstance(x, SymInt) for x in v):
            g = v.sym[0] if v.sym else npstub.concrete_getter(builtins.list(v))
            return SymBytes(g, v.slen())
    if a and isinstance(a[0], SymInt):
        return SymBytes(lambda i: 0, a[0])
    return builtins.bytes(*a)


def conv_str(*a):
    if a and isinstance(a[0], (SymStr,)):
        return a[0]
    if a and isinstance(a[0], SymInt):
        return "<sym>"
    return builtins.str(*a)


def conv_list(*a):
    if not a:
        return SList()
    if isinstance(a[0], (SymRange, SList)):
        return SList(a[0])
    if isinstance(a[0], ndarray):
        return a[0].tolist()
    return SList(a[0])


int_proxy = mkproxy("int", builtins.int, b_int, SymInt)
bytes_proxy = mkproxy("bytes", builtins.bytes, conv_bytes, SymBytes)
str_proxy = mkproxy("str", builtins.str, conv_str, SymStr)
list_proxy = mkproxy("list", builtins.list, conv_list, SList)
dict_proxy = mkproxy("dict", builtins.dict, SDict, SDict)
set_proxy = mkproxy("set", builtins.set, SSet, SSet)


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return builtins.any(b_isinstance(x, u) for u in t)
    return isinstance(x, t)


def b_sorted(it, **kw):
    if isinstance(it, SList) and it.sym and concrete(it.slen()) is None and it.where is not None and not kw:
        # a permutation of the entries; what is proved may not depend on which
        r = core.CUR
        nm = r.fresh("sorted")
        P, R = [z3.Function(nm + x, z3.IntSort(), z3.IntSort()) for x in (".at", ".of")]
        g, n = it.sym
        where, key = it.where, it.key

        def at(j):
            j = toint(j)
            r.fact(z3.Implies(z3.And(j >= 0, j < toint(n)), z3.And(P(j) >= 0, P(j) < toint(n), R(P(j)) == j)))
            return SymInt(P(j))

        def of(k):
            i = toint(where(k))
            r.fact(z3.Implies(z3.And(i >= 0, i < toint(n)), z3.And(R(i) >= 0, R(i) < toint(n), P(R(i)) == i)))
            return SymInt(R(i))
        out = containers.SymList(lambda j: g(at(j)), n)
        out.where, out.key = of, lambda j: key(at(j))
        return out
    return SList(sorted(builtins.list(iter(it)), **kw))


def b_zip(*its):
    if builtins.any(getattr(i, "sym", None) is not None and concrete(i.slen()) is None or isinstance(i, SymRange) for i in its):
        return ZipSeq(its)
    return builtins.zip(*its)


class ZipSeq:
    def __init__(self, its):
        self.its = its
        n = b_len(its[0])
        for i in its[1:]:
            n = smin(n, b_len(i))
        self.n = n

    def slen(self):
        return self.n

    def get(self, i):
        return tuple(s.get(i) if hasattr(s, "get") else s[i] for s in self.its)

    def __iter__(self):
        c = concrete(self.n)
        if c is None:
            raise Unsupported("iteration over a symbolic zip without a loop contract")
        return iter([self.get(i) for i in range(c)])


def b_enumerate(it, start=0):
    if getattr(it, "sym", None) is not None and concrete(it.slen()) is None or isinstance(it, SymRange):
        return ZipSeq([SymRange(start, start + b_len(it)), it])
    return builtins.enumerate(it, start)


def b_ord(x):
    if isinstance(x, SymSeq):
        return x.get(0)
    return builtins.ord(x)


def b_hex(x):
    if isinstance(x, SymInt):
        return "<sym>"
    return builtins.hex(x)


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    for x in it:
        if not x:
            return False
    return True


def b_print(*a, **kw):
    r = core.CUR
    if r is not None and getattr(r, "printed", None) is not None:
        r.printed.append(a)


def b_open(*a, **kw):
    r = core.CUR
    f = getattr(r, "open_hook", None)
    if f is None:
        raise Unsupported("open()")
    return f(*a, **kw)


INJECT = dict(len=b_len, int=int_proxy, bool=b_bool, range=b_range, min=b_min, max=b_max, sum=b_sum, type=type_proxy, isinstance=b_isinstance,
              bytes=bytes_proxy, str=str_proxy, list=list_proxy, dict=dict_proxy, set=set_proxy, sorted=b_sorted, zip=b_zip,
              enumerate=b_enumerate, ord=b_ord, hex=b_hex, any=b_any, all=b_all, print=b_print, open=b_open)


# ------------------------------------------------------------------- helpers

def has_sym(x):
    if isinstance(x, (SymInt, SymBool, SymSeq)):
        return True
    if isinstance(x, tuple):
        return builtins.any(has_sym(y) for y in x)
    return False


def desym(x):
    if isinstance(x, tuple):
        return tuple(desym(y) for y in x)
    if isinstance(x, (SymInt, SymBool)):
        return 0
    if isinstance(x, SymStr):
        return "<sym>"
    if isinstance(x, SymBytes):
        return b"<sym>"
    return x


def mod(a, b):
    if isinstance(a, str):
        if "%" not in a and isinstance(b, (SymInt, CInt)) and tag(b):
            return a
        if a.startswith("%-") and a.endswith("s") and isinstance(b, SymStr) and a[2:-1].isdigit():
            return b.ljust(int(a[2:-1]))
        if has_sym(b):
            a % desym(b)
            return a % desym(b) if False else "<%s>" % a
        return a % b
    if isinstance(a, bytes):
        if isinstance(b, SymBytes):
            if a.startswith(b"%-") and a.endswith(b"s") and a[2:-1].isdigit():
                return b.ljust(int(a[2:-1]))
            raise Unsupported("bytes formatting")
        return a % b
    return a % b


def setattr_(obj, name, value):
    r = core.CUR
    if r is not None and not isinstance(obj, (builtins.type, types.ModuleType)):
        try:
            d = obj.__dict__
            if "_pv_epoch" not in d:
                d["_pv_epoch"] = r.epoch
            if r.mutlog is not None:
                r.mutlog.append(("attr", obj, name))
        except AttributeError:
            pass
    setattr(obj, name, value)


# ------------------------------------------------------------------- transform

class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.counter = []
        self.numbers = []
        self.uid = 0

    def qual(self):
        return self.modname + "." + ".".join(self.stack)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.counter.append([0])
        self.generic_visit(node)
        self.stack.pop()
        self.counter.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.counter.append([0])
        self.numbers.append(loop_numbers(self.qual(), node))
        self.generic_visit(node)
        self.numbers.pop()
        call = ast.Expr(ast.Call(ast.Attribute(ast.Name("pv_", ast.Load()), "enter", ast.Load()), [ast.Constant(self.qual())], []))
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(getattr(node.body[0], "value", None), ast.Constant) else 0
        node.body.insert(i, call)
        self.stack.pop()
        self.counter.pop()
        return node

    def _call(self, fn, *args):
        return ast.Call(ast.Attribute(ast.Name("pv_", ast.Load()), fn, ast.Load()), list(args), [])

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call("L", ast.List(node.elts, ast.Load()))
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) == 1 and not g[0].ifs and not g[0].is_async and self.stack:
            # pv_.comp(iterable, native comprehension, element as a function)
            self.uid += 1
            x, it = "pv__c%d" % self.uid, "pv__i%d" % self.uid
            inner = ast.ListComp(node.elt, [ast.comprehension(g[0].target, ast.List([ast.Name(x, ast.Load())], ast.Load()), [], 0)])
            fn = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), ast.Subscript(inner, ast.Constant(0), ast.Load()))
            native = ast.Lambda(ast.arguments([], [ast.arg(it)], None, [], [], None, []),
                                ast.ListComp(node.elt, [ast.comprehension(g[0].target, ast.Name(it, ast.Load()), [], 0)]))
            return self._call("comp", g[0].iter, native, fn)
        return self._call("L", node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.stack and isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and len(node.args) == 1 and not node.keywords:
            return self._call("join", f.value, node.args[0])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.stack or builtins.any(k is None for k in node.keys):
            return node
        return self._call("D", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("S", ast.List(node.elts, ast.Load()))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("mod", node.left, node.right)
        return node

    def _store(self, target, value):
        """statement storing `value` (an expression) into an attribute target"""
        return ast.Expr(self._call("setattr", target.value, ast.Constant(target.attr), value))

    def visit_Assign(self, node):
        self.generic_visit(node)
        if not builtins.any(isinstance(t, ast.Attribute) or (isinstance(t, (ast.Tuple, ast.List)) and builtins.any(isinstance(e, ast.Attribute) for e in t.elts)) for t in node.targets):
            return node
        self.uid += 1
        out = []
        tmp = "pv__t%d" % self.uid
        out.append(ast.Assign([ast.Name(tmp, ast.Store())], node.value))
        for t in node.targets:
            if isinstance(t, ast.Attribute):
                out.append(self._store(t, ast.Name(tmp, ast.Load())))
            elif isinstance(t, (ast.Tuple, ast.List)):
                names, post = [], []
                for j, e in enumerate(t.elts):
                    if isinstance(e, ast.Attribute):
                        nm = "%s_%d" % (tmp, j)
                        names.append(ast.Name(nm, ast.Store()))
                        post.append(self._store(e, ast.Name(nm, ast.Load())))
                    else:
                        names.append(e)
                out.append(ast.Assign([ast.Tuple(names, ast.Store())], ast.Name(tmp, ast.Load())))
                out.extend(post)
            else:
                out.append(ast.Assign([t], ast.Name(tmp, ast.Load())))
        return out

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.Assign([t], self._call("mod", ast.Name(t.id, ast.Load()), node.value))
        if isinstance(t, ast.Attribute):
            self.uid += 1
            o, v = "pv__o%d" % self.uid, "pv__v%d" % self.uid
            return [ast.Assign([ast.Name(o, ast.Store())], t.value),
                    ast.Assign([ast.Name(v, ast.Store())], ast.Attribute(ast.Name(o, ast.Load()), t.attr, ast.Load())),
                    ast.Assign([ast.Name(v, ast.Store())], self._call("mod", ast.Name(v, ast.Load()), node.value)) if isinstance(node.op, ast.Mod) else
                    ast.AugAssign(ast.Name(v, ast.Store()), node.op, node.value),
                    ast.Expr(self._call("setattr", ast.Name(o, ast.Load()), ast.Constant(t.attr), ast.Name(v, ast.Load())))]
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            # the engine's own control flow must not be caught by the code
            node.type = ast.Name("Exception", ast.Load())
        return node

    # -- loops
    def assigned(self, nodes):
        names = set()
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and not x.id.startswith("pv_"):
                    names.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
        return sorted(names)

    def cut_block(self, lv, names):
        body = []
        for n in names:
            body.append(ast.If(self._m(lv, "has", ast.Constant(n)), [ast.Assign([ast.Name(n, ast.Store())], self._m(lv, "val", ast.Constant(n)))], []))
        return body

    def _m(self, lv, m, *args):
        return ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), m, ast.Load()), list(args), [])

    def loopkey(self):
        c = self.counter[-1]
        t = self.numbers[-1] if self.numbers else []
        k = "%s#%s" % (self.qual(), t[c[0]] if c[0] < len(t) else c[0])
        c[0] += 1
        return k

    def _names(self, names):
        return ast.Tuple([ast.Constant(n) for n in sorted(names)], ast.Load())

    def visit_For(self, node):
        if not self.stack:
            self.generic_visit(node)
            return node
        key = self.loopkey()
        names = self.assigned([node.target] + node.body)
        self.generic_visit(node)
        self.uid += 1
        lv = "pv__l%d" % self.uid
        begin = ast.Assign([ast.Name(lv, ast.Store())], self._call("for_begin", node.iter, ast.Constant(key), self._names(names)))
        loc = ast.Call(ast.Name("locals", ast.Load()), [], [])
        cut = self.cut_block(lv, names)
        cut.append(ast.If(self._m(lv, "done"), copy.deepcopy(node.orelse) + [ast.Break()], []))
        w = ast.While(self._m(lv, "head", loc), [ast.If(ast.Attribute(ast.Name(lv, ast.Load()), "cut", ast.Load()), cut, []),
                                                ast.Assign([node.target], self._m(lv, "item"))] + node.body, node.orelse)
        return [begin, w]

    def visit_While(self, node):
        if not self.stack:
            self.generic_visit(node)
            return node
        key = self.loopkey()
        names = self.assigned(node.body)
        self.generic_visit(node)
        self.uid += 1
        lv = "pv__l%d" % self.uid
        begin = ast.Assign([ast.Name(lv, ast.Store())], self._call("while_begin", ast.Constant(key), self._names(names)))
        loc = ast.Call(ast.Name("locals", ast.Load()), [], [])
        test = ast.If(ast.UnaryOp(ast.Not(), node.test), list(node.orelse) + [ast.Break()], [])
        w = ast.While(self._m(lv, "head", loc), [ast.If(ast.Attribute(ast.Name(lv, ast.Load()), "cut", ast.Load()), self.cut_block(lv, names) or [ast.Pass()], []), test] + node.body, [])
        return [begin, w]


def loops_of(fn):
    """the loops of a function in the order of their numbers (those of nested functions left out)"""
    out = []

    def walk(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.For, ast.While)):
                out.append(x)
            walk(x)
    walk(fn)
    return out


def signature(loop):
    """identifiers used in the loop"""
    return sorted({x.id for x in ast.walk(loop) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(loop) if isinstance(x, ast.Attribute)})


_SIGS = None


def loop_numbers(qual, fn):
    """numbers of the loops of a function, as the loop contracts use them: if the function has as many loops as when the contracts were written
    (pyvc/loopsigs.json), their order; otherwise loops are matched in order by the identifiers they use, and loops without a match get new names"""
    global _SIGS
    if _SIGS is None:
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "loopsigs.json")
        _SIGS = json.load(open(f)) if os.path.exists(f) else {}
    cur = [set(signature(x)) for x in loops_of(fn)]
    old = [set(x) for x in _SIGS.get(qual, [])]
    n, m = len(cur), len(old)
    if n == m or qual not in _SIGS:
        return list(range(n))

    def sim(a, b):
        x = len(a & b) / max(1, len(a | b))
        return x if x >= 0.4 else -1
    best = [[0.0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            x = sim(cur[i], old[j])
            best[i][j] = builtins.max(best[i + 1][j], best[i][j + 1], best[i + 1][j + 1] + x if x > 0 else 0)
    out, i, j = [], 0, 0
    while i < n:
        if j < m and sim(cur[i], old[j]) > 0 and best[i][j] == best[i + 1][j + 1] + sim(cur[i], old[j]):
            out.append(j)
            i, j = i + 1, j + 1
        elif j < m and best[i][j] == best[i][j + 1]:
            j += 1
        else:
            out.append("new%d" % i)
            i += 1
    return out


class PV:
    """runtime support visible to the transformed modules as pv_"""
    L = staticmethod(SList)
    D = staticmethod(SDict)
    S = staticmethod(SSet)
    mod = staticmethod(mod)
    setattr = staticmethod(setattr_)

    @staticmethod
    def enter(q):
        if core.CUR is not None:
            core.CUR.functions.add(q)
            ov = getattr(core.CUR, "on_enter", None)

    @staticmethod
    def comp(it, native, fn):
        if hasattr(it, "slen") and not isinstance(it, (SDict, SSet)) and concrete(it.slen()) is None:
            r = containers.SymList(lambda i: fn(it.get(i)), it.slen())
            r.where, r.key = getattr(it, "where", None), getattr(it, "key", None)
            return r
        return SList(native(it))

    @staticmethod
    def join(sep, it):
        if isinstance(it, SList) and it.sym and concrete(it.slen()) is None:
            return "<joined>"       # text made of a list of unknown length: not modelled
        return sep.join(it)

    @staticmethod
    def for_begin(it, key, names=None):
        from .loops import ForLoop
        return ForLoop(it, key, names)

    @staticmethod
    def while_begin(key, names=None):
        from .loops import WhileLoop
        return WhileLoop(key, names)


_cache = {}


def compile_module(path, name):
    src = open(path, encoding="utf-8").read()
    k = (path, hashlib.sha1(src.encode()).hexdigest())
    if k not in _cache:
        tree = ast.parse(src, path)
        short = name.split(".", 1)[1] if "." in name else "init"
        tree = T(short).visit(tree)
        ast.fix_missing_locations(tree)
        _cache[k] = compile(tree, path, "exec")
    return _cache[k]


class FakeLogger:
    def isEnabledFor(self, *a):
        return False

    def __getattr__(self, k):
        return lambda *a, **kw: None


class FakeLogging:
    DEBUG = 10
    WARNING = 30
    INFO = 20

    def getLogger(self, *a):
        return FakeLogger()

    def __getattr__(self, k):
        return lambda *a, **kw: None


class FakeZ:
    """stand-in for modules whose behaviour is assumed by contract"""


def load_package(overrides=None):
    """fresh copy of the package's modules, as {short name: module}"""
    mods = {}
    root = os.path.join(REPO, PKG)
    saved = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".") or k in ("numpy", "logging") or k in (overrides or {})}
    for k in saved:
        del sys.modules[k]
    npmod = types.ModuleType("numpy")
    for k in dir(npstub):
        if not k.startswith("__"):
            setattr(npmod, k, getattr(npstub, k))

    def missing(k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("numpy.%s" % k)
    npmod.__getattr__ = missing
    sys.modules["numpy"] = npmod
    fl = types.ModuleType("logging")
    f = FakeLogging()
    for k in ("DEBUG", "WARNING", "INFO", "getLogger"):
        setattr(fl, k, getattr(f, k))
    fl.basicConfig = lambda *a, **k: None
    fl.disable = lambda *a, **k: None
    fl.StreamHandler = lambda *a, **k: FakeLogger()
    sys.modules["logging"] = fl
    for k, v in (overrides or {}).items():
        sys.modules[k] = v
    finder = Finder(root)
    sys.meta_path.insert(0, finder)
    try:
        import importlib
        importlib.invalidate_caches()
        importlib.import_module(PKG)
        for k, v in list(sys.modules.items()):
            if k == PKG:
                mods["init"] = v
            elif k.startswith(PKG + "."):
                mods[k[len(PKG) + 1:]] = v
        for extra in ("spartados", "kboot", "standard_delivery", "cartridge", "container", "dcm", "parsers"):
            if extra not in mods and os.path.exists(os.path.join(root, extra + ".py")):
                mods[extra] = importlib.import_module(PKG + "." + extra)
    finally:
        sys.meta_path.remove(finder)
        for k in list(sys.modules):
            if k == PKG or k.startswith(PKG + ".") or k in ("numpy", "logging") or k in (overrides or {}):
                del sys.modules[k]
        sys.modules.update(saved)
    return mods


class Finder:
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        from importlib.machinery import ModuleSpec
        if name == PKG:
            p = os.path.join(self.root, "__init__.py")
            sp = ModuleSpec(name, Loader(p), origin=p, is_package=True)
            sp.submodule_search_locations = [self.root]
            return sp
        if name.startswith(PKG + "."):
            p = os.path.join(self.root, *name.split(".")[1:]) + ".py"
            if os.path.exists(p):
                return ModuleSpec(name, Loader(p), origin=p)
        return None


class Loader:
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = compile_module(self.path, module.__name__)
        module.__file__ = self.path
        d = module.__dict__
        d.update(INJECT)
        d["pv_"] = PV
        exec(code, d)
        if module.__name__ == PKG + ".utils":
            d["uuid"] = lambda: "uuid"
