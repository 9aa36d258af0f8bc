"""C11: Apple binaries."""
from pyvc.api import contract
from pyvc.contracts.c10 import word


class Mem:
    """ghost: memory after the first j of n segments have been stored, M(j, a)"""
    def __init__(self, v):
        self.v = v
        n = self.n = v.int("count", 1)
        self.segs, self.O, self.N, self.D = v.seglist("seg", n, top=65536)
        self.raw = v.spec("M", self.concrete)
        self.asked = v.choice("asked", [False, True])
        self.a = v.int("run", 1, 65535) if self.asked else None
        if v.symbolic:
            v.run.cache["mem"] = self
        else:
            v.assume(all(self.O(j) >= 3 for j in range(n)))

    def at(self, j):
        """domain: segments start at 3 or above"""
        if self.v.symbolic:
            self.v.run.assume(self.v.Implies(self.v.And(j >= 0, j < self.n), self.O(j) >= 3))

    def M(self, j, a, depth=1):
        """unfolds the definition once (as often as there are segments when the loops are unrolled)"""
        v = self.v
        if not v.symbolic:
            return self.concrete(j, a)
        if isinstance(j, int):
            if j <= 0:
                return 0
            below = self.M(j - 1, a)
            return v.Ite(v.And(a >= self.O(j - 1), a < self.O(j - 1) + self.N(j - 1)), self.D(j - 1, a - self.O(j - 1)), below)
        t = self.raw(j, a)
        i = j - 1
        v.run.fact(v.And(v.Implies(j == 0, t == 0), v.Implies(j > 0, t == v.Ite(v.And(a >= self.O(i), a < self.O(i) + self.N(i)), self.D(i, a - self.O(i)), self.raw(i, a)))).e)
        return t

    def concrete(self, j, a):
        x = 0
        for i in range(j):
            if self.O(i) <= a < self.O(i) + self.N(i):
                x = self.D(i, a - self.O(i))
        return x

    def inside(self, a, j):
        return self.v.And(a >= self.O(j), a < self.O(j) + self.N(j))


def b_bounds(st):
    g = st.run.cache["mem"]
    k = st.k
    g.at(k)
    if st.mode == "assume":
        g.at(k - 1)
    o, l = st.fresh("origin", 0, 100000000), st.fresh("last", -1, 65536)
    st.dead("s")
    st.require("start values", st.Implies(k == 0, st.And(o == 100000000, l == -1)))
    st.forall("bounds of the earlier segments", 0, k, lambda j: st.And(o <= g.O(j), l >= g.O(j) + g.N(j), g.O(j) >= 3) if st.mode == "assume" else st.And(o <= g.O(j), l >= g.O(j) + g.N(j)), pattern=lambda j: g.O(j).e)
    if st.phase == "preserved":
        w, x = st.ghost_of("w"), st.ghost_of("x")
        st.require("attained", st.Or(o == g.O(k - 1), st.And(k > 1, w < k - 1, w >= 0, o == g.O(w))))
        st.require("attained above", st.Or(l == g.O(k - 1) + g.N(k - 1), st.And(k > 1, x < k - 1, x >= 0, l == g.O(x) + g.N(x))))
    elif st.mode == "assume":
        w, x = st.newint("w"), st.newint("x")
        st.require("attained", st.Implies(k > 0, st.And(w >= 0, w < k, o == g.O(w), x >= 0, x < k, l == g.O(x) + g.N(x))))
        g.N(w), g.N(x), g.at(w), g.at(x)
        st.run.cache["bounds"] = (o, l)
        st.run.assume(st.Implies(k == g.n, l - o + 3 <= 65535))     # domain: the image fits the length field


def b_found(st):
    g = st.run.cache["mem"]
    st.local("found", False)
    st.dead("s")
    st.forall("no earlier segment holds the address", 0, st.k, lambda j: st.Not(g.inside(g.a, j)), pattern=lambda j: g.O(j).e)


def expect(g, v, lo, last, jmp, k, p, n=None):
    """byte p of the file after k steps"""
    o = lo - 3 if jmp else lo
    size = last - o
    a = p - 4 + o
    head = v.Ite(p == 0, o % 256, v.Ite(p == 1, o // 256, v.Ite(p == 2, size % 256, size // 256)))
    if not jmp:
        return v.Ite(p < 4, head, g.M(k, a))
    j = v.Ite(p == 4, 0x4c, v.Ite(p == 5, g.a % 256, g.a // 256))
    return v.Ite(p < 4, head, v.Ite(k == 0, 0, v.Ite(p < 7, j, g.M(k - 1, a))))


def b_fill(st):
    g = st.run.cache["mem"]
    v, k = g.v, st.k
    lo, last = st.run.cache["bounds"]
    jmp = st.ghost("jmp", lambda: v.true(st["origin"] != lo))
    st.dead("s", "index")
    st.array(st["image"], lambda p: expect(g, v, lo, last, jmp, k, p))


@contract("C11", functions=["get_bsave"], loops={"executables.get_bsave#0": b_bounds, "executables.get_bsave#1": b_found, "executables.get_bsave#2": b_fill})
def c11_build(v):
    """The binary built from any number of segments is the header followed by the memory image: each segment at its address, later ones on top, zeros
    elsewhere, and the jump to a run address other than the lowest in front; a run address outside all segments is refused."""
    g = Mem(v)
    if not v.cut:
        n = g.n
        if v.symbolic:
            for c in range(1, 5):
                if v.true(n == c):
                    n = c
                    break
            else:
                return
        lo, last = g.O(0), g.O(0) + g.N(0)
        for j in range(n):
            g.at(j)
            lo = v.Ite(g.O(j) < lo, g.O(j), lo)
            last = v.Ite(g.O(j) + g.N(j) > last, g.O(j) + g.N(j), last)
        v.assume(last - lo + 3 <= 65535)
        nn = n
    else:
        nn = g.n
    o = v.call(v.mod("executables").get_bsave, g.segs, g.a)
    if v.cut:
        lo, last = v.run.cache["bounds"]
    if not o.ok:
        v.ensure("the library's error", o.raised("InvalidBinaryFile"))
        if not v.ensure("only a bad run address is refused", g.asked):
            return
        v.forall("the address is outside all segments", 0, g.n, lambda j: v.Not(g.inside(g.a, j)))
        return
    jmp = v.true(v.And(g.asked, (g.a if g.asked else 0) != lo))
    if jmp:
        v.exists("the address is in some segment", 0, g.n, lambda j: g.inside(g.a, j))
    img = o.value
    v.ensure("length of the file", v.len(img) == last - lo + 4 + (3 if jmp else 0))
    v.forall("contents of the file", 0, last - lo + 4 + (3 if jmp else 0), lambda p: v.get(img, p) == expect(g, v, lo, last, jmp, nn + 1 if jmp else nn, p))


@contract("C11", functions=["Dos33BinFile.parse_segments"])
def c11_parse(v):
    """A file is accepted exactly if its header states its size; it is then one segment at the stated address with the rest of the file."""
    n = v.int("n", 0)
    d = v.bytes("data", n)
    f = v.mod("dos33").Dos33BinFile(v.mod("segments").SegmentData(v.copy(d)))
    o = v.call(f.parse_segments)
    good = v.true(n >= 4)
    good = good and v.true(word(v, d, 2) == n - 4)
    if not good:
        v.ensure("refused", o.raised("InvalidBinaryFile"))
        return
    v.ensure("accepted", o.ok)
    v.ensure("one segment", v.len(f.segments) == 1)
    s = f.segments[0]
    v.ensure("address", s.origin == word(v, d, 0))
    v.ensure("length", v.len(s) == n - 4)
    v.forall("bytes", 0, n - 4, lambda i: v.get(s.data, i) == v.get(d, i + 4))


@contract("C11", functions=["BSAVESaver.encode_data", "DefaultSegment.tobytes"])
def c11_saver(v):
    """A segment saved as an Apple binary is its address, its length and its bytes."""
    from pyvc.contracts.c13 import anybase, anyview
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    a = v.int("origin", 0, 65535)
    v.assume(m <= 65535)
    s = v.mod("segments").DefaultSegment(r, a)
    out = v.mod("segments").BSAVESaver.encode_data(s, None)
    v.ensure("length of the file", v.len(out) == m + 4)
    v.ensure("address", word(v, out, 0) == a)
    v.ensure("length", word(v, out, 2) == m)
    v.forall("bytes", 0, m, lambda i: v.get(out, i + 4) == v.get(d, L(i)))
