"""Contracts: registry shared by the verifier (CPython) and the replay (PyPy)."""

REG = []


class AtMost:
    """loop contract: the loop has at most n iterations (an obligation), so it is run for every number of them"""
    def __init__(self, n):
        self.n = n


class Contract:
    def __init__(self, fn, prop, functions, bounded, loops, unroll, tier, replay):
        self.fn, self.prop, self.functions, self.bounded, self.loops, self.unroll, self.tier, self.replay = fn, prop, functions, bounded, loops, unroll, tier, replay
        self.name = fn.__name__
        self.statement = " ".join((fn.__doc__ or "").split())
        self.module = fn.__module__


def contract(prop, functions=(), bounded=None, loops=None, unroll=None, tier="quick", replay=True):
    """prop: property decided; functions: the functions the statement is about
    (documentation; those executed are recorded); bounded: None for a complete
    proof, else the bound in words; loops: loop contracts by loop key; unroll:
    bound for loops without contract over symbolic sequences (then bounded)"""
    def deco(fn):
        REG.append(Contract(fn, prop, functions, bounded, loops or {}, unroll, tier, replay))
        fn.loops = loops or {}
        return fn
    return deco


def load(prop):
    import importlib
    importlib.import_module("pyvc.contracts." + prop.lower())
    return [c for c in REG if c.prop == prop]


class Outcome:
    """result of a call: a value or an exception"""
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def raised(self, *names):
        """did the call raise an exception of one of these classes (by name, base classes included)"""
        if self.exc is None:
            return False
        mro = [c.__name__ for c in type(self.exc).__mro__]
        return any(n in mro for n in names)
