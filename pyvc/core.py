"""Symbolic execution core: path explorer, symbolic integers and booleans,
proof obligations.

The code under contract is the real source of /repo (transformed mechanically
by loader.py, executed by CPython) applied to the symbolic values defined here.
Every branch on a symbolic condition forks the path; every obligation is the
validity of `path condition => obligation`, decided by z3 (cvc5 second).
"""
import subprocess, tempfile, os, time
import z3


class Unsupported(BaseException):
    """the code needs something the engine does not model: undecided"""


class PathEnd(BaseException):
    """this path is finished (infeasible, or cut at a loop head)"""


class Refuted(BaseException):
    def __init__(self, name, model):
        self.name, self.model = name, model


class OutOfTime(BaseException):
    pass


CUR = None      # the current Run
SLOW = float(os.environ.get("PYVC_SLOW") or 0)
PROF = {} if os.environ.get("PYVC_PROF") else None
SITES = {} if os.environ.get("PYVC_SITES") else None


def cur():
    return CUR


# ----------------------------------------------------------------- explorer

class Run:
    """all paths of one harness"""

    def __init__(self, name, deadline=None, timeout_ms=8000):
        self.name = name
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.obligations = {}          # obligation name -> [count, discharged]
        self.refuted = []
        self.unknown = []
        self.paths = 0
        self.solver_s = 0.0
        self.backends = {"z3": 0, "cvc5": 0, "constant": 0}
        self.covers = {}
        self.functions = set()
        self.loops = {}
        self.assumptions = set()
        self.approx = False            # an abstraction was used on this path
        self.undo = []
        self.stubs = set()
        self.loop_specs = {}
        self.unroll = None
        self.bounded = False
        self.nonlinear = False

    def explore(self, fn, max_paths=20000):
        global CUR
        work = [[]]
        old = CUR
        CUR = self
        try:
            while work:
                if self.deadline and time.time() > self.deadline:
                    raise OutOfTime()
                prefix = work.pop()
                self.start_path(prefix)
                try:
                    fn()
                except PathEnd:
                    pass
                finally:
                    for cls, name, had, old in reversed(self.undo):
                        if had:
                            setattr(cls, name, old)
                        else:
                            delattr(cls, name)
                    self.undo = []
                self.paths += 1
                work.extend(self.alternatives)
                if self.paths > max_paths:
                    raise Unsupported("more than %d paths" % max_paths)
        finally:
            CUR = old

    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.facts = set()
        self.counter = 0
        self.fresh_n = {}
        self.inputs = []
        self.approx = False
        self.mutlog = None
        self.epoch = 0
        self.cache = {}
        self.printed = []
        self.open_hook = None
        self.scatters = []
        self.sites = []
        self.cuts = 0
        self.products, self.product_terms = None, {}

    # -- facts
    def add(self, c):
        """assume a z3 boolean"""
        self.solver.add(c)
        self.pc.append(c)

    def fact(self, c):
        """a range fact about a term (idempotent)"""
        k = c.get_id()
        if k in self.facts:
            return
        self.facts.add(k)
        self.cache.setdefault("keep", []).append(c)
        self.add(c)

    probe_ms = 800

    def probe(self, *cs, ms=800):
        """feasibility check: no answer counts as feasible, so it need not take long"""
        self.solver.set("timeout", min(ms, self.probe_ms) if ms <= 800 else ms)
        try:
            return self.check(*cs)
        finally:
            self.solver.set("timeout", self.timeout_ms)

    def check(self, *cs):
        t = time.time()
        if self.deadline and self.deadline - t < 15:
            self.solver.set("timeout", max(500, min(self.timeout_ms, int((self.deadline - t) * 500))))
        r = self.solver.check(*cs)
        self.solver_s += time.time() - t
        if PROF is not None:
            import traceback
            k = " ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[-14:-1] if "/core.py" not in f.filename and "process" not in f.filename)
            n0, t0 = PROF.get(k, (0, 0))
            PROF[k] = n0 + 1, t0 + time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback
            print("slow %.1fs %s" % (time.time() - t, r), [str(c)[:150] for c in cs], [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in traceback.extract_stack()[-9:-1]], flush=True)
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime()
        return r

    def decide(self, c):
        """branch on z3 boolean c"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            forced = d[1]
            d = d[0]
            self.trace.append((d, forced))
            if not forced:
                self.add(c if d else z3.Not(c))
            return d
        st = self.probe(c)
        sf = self.probe(z3.Not(c)) if st != z3.unsat else z3.sat
        if st == z3.unsat:
            if sf == z3.unsat:
                raise PathEnd()
            self.trace.append((False, True))
            return False
        if sf == z3.unsat:
            self.trace.append((True, True))
            return True
        if SITES is not None:
            import traceback
            fr = [f for f in traceback.extract_stack()[:-1] if "core.py" not in f.filename][-4:]
            k = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(fr))
            SITES[k] = SITES.get(k, 0) + 1
        self.alternatives.append(self.trace + [(False, False)])
        self.trace.append((True, False))
        self.add(c)
        return True

    def choose(self, n, label=""):
        """nondeterministic choice 0..n-1 (all explored)"""
        for k in range(n - 1):
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i][0]
                self.trace.append((d, False))
            else:
                self.alternatives.append(self.trace + [(False, False)])
                self.trace.append((True, False))
                d = True
            if d:
                return k
        return n - 1

    def assume(self, c):
        c = tobool(c)
        if z3.is_true(c):
            return
        self.add(c)
        if z3.is_false(z3.simplify(c)):
            raise PathEnd()

    def feasible(self):
        return self.probe() != z3.unsat

    def valid(self, c):
        """is c entailed by the path condition (False if unknown)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def ensure(self, name, c):
        """proof obligation"""
        ob = self.obligations.setdefault(name, [0, 0])
        ob[0] += 1
        c = z3.simplify(tobool(c))
        if z3.is_true(c):
            self.backends["constant"] += 1
            ob[1] += 1
            return True
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            self.backends["z3"] += 1
            ob[1] += 1
            return True
        if r == z3.sat and self.products:
            r, m = self.refine(z3.Not(c))
            if r == z3.unsat:
                self.backends["z3"] += 1
                ob[1] += 1
                return True
        if r == z3.sat:
            self.hurry()
            m = m if self.products else self.solver.model()
            ent = dict(obligation=name, inputs=self.model_inputs(m), approx=self.approx)
            self.refuted.append(ent)
            ent["inputs"] = self.model_inputs(self.small_model(m, z3.Not(c)))
            # go on with the rest of the path under the assumption that it holds
            self.add(c)
            if self.check() == z3.unsat:
                raise PathEnd()
            return False
        r = self.cvc5(c)
        if r == "unsat":
            self.backends["cvc5"] += 1
            ob[1] += 1
            return True
        self.unknown.append(name)
        self.add(c)
        return None

    def cvc5(self, c):
        t = time.time()
        s = z3.Solver()
        for x in self.pc:
            s.add(x)
        s.add(z3.Not(c))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(txt)
        try:
            o = subprocess.run(["cvc5", "--tlimit=8000", fh.name], capture_output=True, text=True, timeout=20).stdout.strip().splitlines()
            return o[0] if o else "unknown"
        except Exception:
            return "unknown"
        finally:
            os.unlink(fh.name)
            self.solver_s += time.time() - t

    def refine(self, *cs):
        """the answer with the opaque products and quotients given their meaning"""
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(self.pc)
        s.add(list(self.product_terms.values()))
        s.add(*cs)
        r = s.check()
        self.solver_s += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def hurry(self):
        """an obligation has failed: do not spend the whole budget on the rest"""
        if not self.refuted:
            t = time.time() + 30
            self.deadline = min(self.deadline, t) if self.deadline else t

    def small_model(self, m, *cs):
        """a model with small inputs, if there is one (so that it can be replayed)"""
        if len(self.refuted) > 12 or self.products:
            return m
        ints = [t for kind, _, t, _ in self.inputs if kind == "int"]
        for bound in (12, 200, 5000):
            self.solver.push()
            self.solver.set("timeout", 3000)
            try:
                for t in ints:
                    self.solver.add(t <= bound, t >= -bound)
                if self.check(*cs) == z3.sat:
                    return self.solver.model()
            finally:
                self.solver.pop()
                self.solver.set("timeout", self.timeout_ms)
        return m

    def model_inputs(self, m):
        out = {}
        for kind, name, term, extra in self.inputs:
            try:
                if kind == "int":
                    out[name] = m.eval(term, model_completion=True).as_long()
                elif kind == "bool":
                    out[name] = z3.is_true(m.eval(term, model_completion=True))
                elif kind == "seq":
                    n = max(0, min(m.eval(extra, model_completion=True).as_long(), 3000))
                    out[name] = dict(n=n, default=0, entries=[(j, m.eval(term(j), model_completion=True).as_long()) for j in range(n)])
                elif kind == "flat":
                    vals = {}
                    k = min(6, m.eval(extra[0], model_completion=True).as_long())
                    for j in range(k):
                        for t in range(min(200, m.eval(extra[1](j), model_completion=True).as_long())):
                            x = m.eval(term(j * 65536 + t), model_completion=True).as_long()
                            if x:
                                vals[j * 65536 + t] = x
                    out[name] = dict(n=k * 65536, default=0, entries=sorted(vals.items()))
                elif kind == "bytes":
                    n = extra if isinstance(extra, int) else m.eval(extra, model_completion=True).as_long()
                    n = max(0, min(n, 400000))
                    idx = z3.Int("!p")
                    try:
                        f = m[term]
                        if f is not None:
                            f.num_entries()
                    except z3.Z3Exception:
                        f = None
                    if f is None:
                        out[name] = dict(n=n, default=0, entries=[])
                    else:
                        try:
                            default = f.else_value()
                        except z3.Z3Exception:
                            default = z3.IntVal(0)
                        vals = {}
                        if default is not None and z3.is_int_value(default):
                            for e in range(f.num_entries()):
                                en = f.entry(e)
                                a0 = en.arg_value(0)
                                if z3.is_int_value(a0) and 0 <= a0.as_long() < n:
                                    vals[a0.as_long()] = en.value().as_long()
                            out[name] = dict(n=n, default=default.as_long(), entries=sorted(vals.items()))
                        else:
                            for p in range(min(n, 3000)):
                                vals[p] = m.eval(term(p), model_completion=True).as_long()
                            out[name] = dict(n=n, default=0, entries=sorted(vals.items()))
            except Exception as e:
                if os.environ.get('PYVC_TRACE'):
                    print('model', name, repr(e))
                out[name] = None
        return out

    def assume_scoped(self, cond, fn):
        """run fn under an extra assumption (no branching inside may escape)"""
        self.solver.push()
        n = len(self.pc)
        facts = set(self.facts)
        try:
            self.assume(cond)
            return fn()
        except PathEnd:
            return None
        finally:
            self.solver.pop()
            del self.pc[n:]
            self.facts = facts

    def cover(self, name):
        """the current point must be reachable on some path (vacuity guard)"""
        if self.covers.get(name):
            return
        r = self.probe(ms=3000)
        self.covers[name] = True if r == z3.sat else False if r == z3.unsat and self.covers.get(name, False) is False else None

    def fresh(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return "%s!%d" % (base, n) if n else base


# ------------------------------------------------------------------ booleans

def tobool(c):
    """python / symbolic truth value -> z3 BoolRef"""
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, SymInt):
        return c.e != 0
    return z3.BoolVal(bool(c))


class SymBool:
    __slots__ = ("e",)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, tobool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, tobool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == tobool(o))
        return self.toint() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(tobool(r)))

    def toint(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        raise Unsupported("int(SymBool)")

    def __mul__(self, o):
        return self.toint() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self.toint() + o
    __radd__ = __add__

    def all(self):
        return self

    any = all

    def tolist(self):
        return self


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def And(*a):
    return mkbool(z3.And(*[tobool(x) for x in a])) if a else True


def Or(*a):
    return mkbool(z3.Or(*[tobool(x) for x in a])) if a else False


def Not(a):
    return mkbool(z3.Not(tobool(a)))


def Implies(a, b):
    return mkbool(z3.Implies(tobool(a), tobool(b)))


def Ite(c, a, b):
    """value-level if-then-else on ints / bools"""
    c = z3.simplify(tobool(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c, tobool(a), tobool(b)))
    ea, eb = toint(a), toint(b)
    if z3.eq(ea, eb):
        return a
    ta, tb = tag(a), tag(b)
    return SymInt(z3.If(c, ea, eb), ta if ta == tb else None)


# ------------------------------------------------------------------- integers

WIDTH = {"uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "int8": (8, True), "int32": (32, True), "int64": (64, True), "uint64": (64, False), "bool": (1, False), "int16": (16, True)}


class CInt(int):
    """concrete numpy integer scalar (carries its dtype)"""
    def __new__(cls, v, t):
        o = int.__new__(cls, v)
        o.t = t
        return o

    def __reduce__(self):
        return (int, (int(self),))

    def tolist(self):
        return int(self)

    def item(self):
        return int(self)

    def _b(self, o, f):
        if isinstance(o, (SymInt, SymBool)):
            return NotImplemented
        if isinstance(o, CInt):
            t = promote(self.t, o.t)
            return CInt(wrapc(f(int(self), int(o)), t), t)
        if isinstance(o, bool):
            return CInt(wrapc(f(int(self), int(o)), self.t), self.t)
        if isinstance(o, int):
            return CInt(f(int(self), o), "int64")
        return NotImplemented

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    def __rand__(self, o): return self._b(o, lambda a, b: b & a)
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    def __ror__(self, o): return self._b(o, lambda a, b: b | a)
    def __xor__(self, o): return self._b(o, lambda a, b: a ^ b)
    def __lshift__(self, o): return self._b(o, lambda a, b: a << b)
    def __rshift__(self, o): return self._b(o, lambda a, b: a >> b)
    __hash__ = int.__hash__


def promote(a, b):
    if a == b:
        return a
    wa, sa = WIDTH[a]
    wb, sb = WIDTH[b]
    if sa == sb:
        return a if wa >= wb else b
    u, s = (a, b) if not sa else (b, a)
    if WIDTH[s][0] > WIDTH[u][0]:
        return s
    return "int%d" % min(64, 2 * WIDTH[u][0])


def wrapc(v, t):
    w, s = WIDTH[t]
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


def tag(a):
    if isinstance(a, CInt):
        return a.t
    if isinstance(a, SymInt):
        return a.t
    return None


def toint(a):
    """python / symbolic number -> z3 ArithRef"""
    if isinstance(a, SymInt):
        return a.e
    if isinstance(a, SymBool):
        return z3.If(a.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(a, z3.ArithRef):
        return a
    if isinstance(a, bool):
        return z3.IntVal(int(a))
    if isinstance(a, int):
        return z3.IntVal(int(a))
    raise Unsupported("not an integer: %r" % (type(a),))


def isnum(a):
    return isinstance(a, (int, SymInt, SymBool))


def mkint(e, t=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        v = e.as_long()
        return CInt(v, t) if t else v
    return SymInt(e, t)


def wrap(v, t):
    """store value v into an element of dtype t (C cast, modulo)"""
    w, s = WIDTH[t]
    if t == "bool":
        return mkbool(tobool(v)) if isinstance(v, (SymInt, SymBool)) else bool(v)
    if isinstance(v, SymBool):
        v = v.toint()
    if not isinstance(v, SymInt):
        return CInt(wrapc(int(v), t), t)
    if v.t and fits(v.t, t):
        return SymInt(v.e, t)
    if t == "int64":
        # assumption: 64 bit signed arithmetic does not overflow (positions and counts only)
        return SymInt(v.e, t)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    r = CUR
    key = ("fits", v.e.get_id(), t, len(r.pc))
    if r.valid(z3.And(v.e >= lo, v.e <= hi)):
        return SymInt(v.e, t)
    m = v.e % (1 << w)
    if s:
        m = z3.If(m >= (1 << (w - 1)), m - (1 << w), m)
    return mkint(m, t)


def fits(a, b):
    wa, sa = WIDTH[a]
    wb, sb = WIDTH[b]
    if sa == sb:
        return wa <= wb
    return (not sa) and wa < wb


def arith(op, a, b):
    """a op b with numpy 1.22 scalar semantics"""
    ta, tb = tag(a), tag(b)
    ea, eb = toint(a), toint(b)
    if op == "+":
        e = ea + eb
    elif op == "-":
        e = ea - eb
    elif op == "*":
        if not (z3.is_int_value(ea) or z3.is_int_value(eb)):
            ea, eb = z3.simplify(ea), z3.simplify(eb)
            if not (z3.is_int_value(ea) or z3.is_int_value(eb)):
                if CUR.products:
                    if ta or tb:
                        raise Unsupported("opaque product of machine integers")
                    return mkint(CUR.products[0](ea, eb), None)
                CUR.nonlinear = True
        e = ea * eb
    else:
        raise Unsupported(op)
    if ta and tb:
        t = promote(ta, tb)
        r = mkint(e, None)
        return retag(wrap(r, t), t)
    if ta or tb:
        ot = ta or tb
        if WIDTH[ot][0] == 64:
            return mkint(e, ot)
        return mkint(e, "int64")
    return mkint(e, None)


def retag(v, t):
    if isinstance(v, SymInt):
        return SymInt(v.e, t)
    return CInt(int(v), t) if t else int(v)


def divmod_const(ea, b):
    """ea / b and ea % b, with the addends that are multiples of b taken out"""
    s = z3.simplify(ea, som=True)
    if z3.is_int_value(s):
        return z3.IntVal(s.as_long() // b), z3.IntVal(s.as_long() % b)
    args = s.children() if z3.is_add(s) else [s]
    out, rest, const = [], [], 0
    for a in args:
        if z3.is_int_value(a):
            const += a.as_long()
            continue
        if z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % b == 0:
            c = a.arg(0).as_long() // b
            others = a.children()[1:]
            t = others[0] if len(others) == 1 else z3.Product(*others)
            out.append(t if c == 1 else c * t)
        else:
            rest.append(a)
    if not out:
        return ea / b, ea % b
    q = z3.Sum(*out) if len(out) > 1 else out[0]
    if not rest:
        return q + const // b, z3.IntVal(const % b)
    r = z3.Sum(*rest) if len(rest) > 1 else rest[0]
    r = r + const
    return q + r / b, r % b


def floordiv(a, b):
    if isinstance(b, (SymInt, SymBool)):
        eb = z3.simplify(toint(b))
        if not z3.is_int_value(eb):
            if CUR.decide(eb == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not CUR.valid(eb > 0):
                raise Unsupported("division by a possibly negative number")
        ea = toint(a)
        if CUR.products and not z3.is_int_value(eb):
            return CUR.products[1](ea, eb), CUR.products[2](ea, eb)
        return ea / eb, ea % eb
    if int(b) == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    ea = toint(a)
    b = int(b)
    if b > 1:
        return divmod_const(ea, b)
    if b > 0:
        return ea / b, ea % b
    # python floors towards minus infinity: a // -n == (-a) // n
    q = (-ea) / (-b)
    return q, ea - q * b


def runs_of(mask):
    """contiguous runs of ones: (shift, length)"""
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            n = 0
            while (mask >> (i + n)) & 1:
                n += 1
            yield i, n
            i += n
        else:
            i += 1


def bit_and_const(e, mask):
    """e & mask for mask >= 0, any integer e (two's complement)"""
    out = None
    for i, n in runs_of(mask):
        p = (e / (1 << i)) if i else e
        p = (p % (1 << n)) * (1 << i)
        out = p if out is None else out + p
    return out if out is not None else z3.IntVal(0)


def bitop(op, a, b):
    ta, tb = tag(a), tag(b)
    ea, eb = z3.simplify(toint(a)), z3.simplify(toint(b))
    if z3.is_int_value(ea):
        ea, eb = eb, ea
        a, b = b, a
    if ta and tb:
        t = promote(ta, tb)
    elif ta or tb:
        t = "int64"
    else:
        t = None
    if z3.is_int_value(eb):
        m = eb.as_long()
        if z3.is_int_value(ea):
            v = ea.as_long()
            r = v & m if op == "&" else v | m if op == "|" else v ^ m
            return mkint(z3.IntVal(r), t)
        if m < 0:
            # e & m = e - (e & ~m)
            an = ea - bit_and_const(ea, ~m)
        else:
            an = bit_and_const(ea, m)
        if op == "&":
            return mkint(an, t)
        if op == "|":
            return mkint(ea + m - an, t)
        return mkint(ea + m - 2 * an, t)
    # both symbolic
    r = CUR
    if op in ("|", "^"):
        for k in (1, 2, 3, 4, 5, 6, 7, 8):
            for x, y in ((ea, eb), (eb, ea)):
                if r.valid(z3.And(x >= 0, x < (1 << k), y % (1 << k) == 0)):
                    return mkint(x + y, t)
    W = 8
    if not r.valid(z3.And(ea >= 0, ea < 256, eb >= 0, eb < 256)):
        W = 16
        if not r.valid(z3.And(ea >= 0, ea < 65536, eb >= 0, eb < 65536)):
            raise Unsupported("bit operation on wide symbolic values")
    out = z3.IntVal(0)
    for i in range(W):
        x = (ea / (1 << i)) % 2
        y = (eb / (1 << i)) % 2
        if op == "&":
            z = z3.And(x == 1, y == 1)
        elif op == "|":
            z = z3.Or(x == 1, y == 1)
        else:
            z = x != y
        out = out + z3.If(z, z3.IntVal(1 << i), z3.IntVal(0))
    return mkint(out, t)


class SymInt:
    __slots__ = ("e", "t")

    def __init__(self, e, t=None):
        self.e = e
        self.t = t

    def __hash__(self):
        p = pinned(self.e)
        if p is None:
            raise Unsupported("hash of a symbolic integer")
        return hash(p)

    def __repr__(self):
        return "<sym %s>" % self.e

    def __format__(self, spec):
        return "<sym>"

    def __bool__(self):
        return CUR.decide(self.e != 0)

    def _c(self, o, f):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if not isnum(o):
            return NotImplemented
        return mkbool(f(self.e, toint(o)))

    def __eq__(self, o):
        if not isnum(o):
            return NotImplemented
        return mkbool(self.e == toint(o))

    def __ne__(self, o):
        if not isnum(o):
            return NotImplemented
        return mkbool(self.e != toint(o))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def _a(self, op, o, swap=False):
        if not isnum(o):
            return NotImplemented
        return arith(op, o, self) if swap else arith(op, self, o)

    def __add__(self, o): return self._a("+", o)
    def __radd__(self, o): return self._a("+", o, True)
    def __sub__(self, o): return self._a("-", o)
    def __rsub__(self, o): return self._a("-", o, True)
    def __mul__(self, o): return self._a("*", o)
    def __rmul__(self, o): return self._a("*", o, True)

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e), self.t)

    def __invert__(self):
        return arith("-", -1, self)

    def _dt(self, o):
        ta, tb = tag(self), tag(o)
        if ta and tb:
            return promote(ta, tb)
        return "int64" if (ta or tb) else None

    def __floordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        return mkint(floordiv(self, o)[0], self._dt(o))

    def __rfloordiv__(self, o):
        return mkint(floordiv(o, self)[0], self._dt(o))

    def __mod__(self, o):
        if not isnum(o):
            return NotImplemented
        return mkint(floordiv(self, o)[1], self._dt(o))

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return mkint(floordiv(o, self)[1], self._dt(o))

    def __divmod__(self, o):
        if not isnum(o):
            return NotImplemented
        q, r = floordiv(self, o)
        return mkint(q, self._dt(o)), mkint(r, self._dt(o))

    def __rdivmod__(self, o):
        q, r = floordiv(o, self)
        return mkint(q, self._dt(o)), mkint(r, self._dt(o))

    def __and__(self, o): return bitop("&", self, o) if isnum(o) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return bitop("|", self, o) if isnum(o) else NotImplemented
    __ror__ = __or__
    def __xor__(self, o): return bitop("^", self, o) if isnum(o) else NotImplemented
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            raise Unsupported("shift by a symbolic amount")
        return mkint(self.e * (1 << int(o)), self._dt(o) if tag(o) else ("int64" if self.t else None))

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            raise Unsupported("shift by a symbolic amount")
        return mkint(self.e / (1 << int(o)), "int64" if self.t else None)

    def __rlshift__(self, o):
        raise Unsupported("shift by a symbolic amount")
    __rrshift__ = __rlshift__

    def __pow__(self, o):
        raise Unsupported("power of a symbolic integer")
    __rpow__ = __pow__

    def __truediv__(self, o):
        raise Unsupported("true division of a symbolic integer")
    __rtruediv__ = __truediv__

    def __int__(self):
        raise Unsupported("int() of a symbolic integer in native code")

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        p = pinned(e)
        if p is None:
            raise Unsupported("symbolic integer used as a native index")
        return p

    def tolist(self):
        return SymInt(self.e)

    def item(self):
        return SymInt(self.e)


def pinned(e):
    """the value of e if the path condition leaves only one"""
    r = CUR
    if r.check() != z3.sat:
        return None
    v = r.solver.model().eval(e, model_completion=True)
    if not z3.is_int_value(v) or r.check(e != v) != z3.unsat:
        return None
    return v.as_long()


def smin(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return Ite(mkbool(toint(a) <= toint(b)), a, b)
    return min(a, b)


def smax(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return Ite(mkbool(toint(a) >= toint(b)), a, b)
    return max(a, b)


def concrete(a):
    """the concrete int if a is one (syntactically, after simplification)"""
    if isinstance(a, SymInt):
        e = z3.simplify(a.e)
        return e.as_long() if z3.is_int_value(e) else None
    if isinstance(a, SymBool):
        return None
    return int(a)
