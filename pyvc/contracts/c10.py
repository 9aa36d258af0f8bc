"""C10: Atari executables, building and parsing."""
from pyvc.api import contract


# ---------------------------------------------------------------- parsing any bytes

def word(v, d, p):
    return v.get(d, p) + 256 * v.get(d, p + 1)


def announced(v, d, seg, p, exact=True):
    """seg is the stretch of the file that the header at p announces"""
    start, end = word(v, d, p), word(v, d, p + 2)
    v.ensure("the segment has the origin of its header", seg.origin == start)
    v.ensure("the segment has the length of its header", v.len(seg) == end - start + 1)
    v.ensure("a complete segment has no error", v.And(not seg.error, not seg.name))
    v.ensure("the run address segment is the one at $2e0", (start == 0x2e0) == (type(seg).__name__ == "RunAddressSegment"))
    v.forall("the segment is the stretch behind its header", 0, v.len(seg), lambda t: v.get(seg.data, t) == v.get(d, p + 4 + t))


def incomplete(v, d, n, seg, p):
    """seg reports the tail of the file from p on"""
    v.ensure("an incomplete segment says so", bool(seg.name or seg.error))
    if v.true(p + 1 == n):
        at = p
    elif v.true(p + 4 > n):
        at = p
    else:
        v.ensure("only a segment that the file does not hold is incomplete", p + 4 + word(v, d, p + 2) - word(v, d, p) + 1 > n)
        v.ensure("the incomplete segment has the origin of its header", seg.origin == word(v, d, p))
        at = p + 4
    v.ensure("the incomplete segment reaches the end of the file", v.len(seg) == n - at)
    v.forall("the incomplete segment is the tail", 0, n - at, lambda t: v.get(seg.data, t) == v.get(d, at + t))


def x_parse(st):
    f = st["self"]
    v, d = st.run.cache["v"], st.run.cache["d"]
    old = st.prev("pos") if st.phase == "preserved" else None
    pos = st.fresh("pos", 0, f.size)
    st.fresh("style_pos", 0, f.size)
    st.local("first", pos == 0)
    tail = st.opaque(f.segments)
    st.havoc(st["s"])
    st.decreases(f.size - pos)
    if st.phase == "assumed":
        st.run.cache["pos"] = pos
    elif st.phase == "preserved":
        st.require("the header can be read", old + 1 < f.size)
        if not tail:
            st.require("only a marker announces nothing", word(v, d, old) == 0xffff)
            st.require("the next header follows the marker", pos == old + 2)
        else:
            st.require("a header announces one segment", len(tail) == 1)
            st.require("a file starts with the marker", old > 0)
            st.require("a segment has a header", st.And(word(v, d, old) != 0xffff, old + 4 <= f.size))
            announced(v, d, tail[0], old)
            st.require("the next header follows the segment", pos == old + 4 + v.len(tail[0]))
            st.require("a complete segment is in the file", pos <= f.size)


@contract("C10", functions=["AtariDosFile.parse_segments"], loops={"ataridos.AtariDosFile.parse_segments#0": x_parse})
def c10_parse(v):
    """Parsing any byte string ends; it yields exactly the stretches that the headers announce, in order, up to the end of the file or an incomplete
    tail that is reported as such; it fails, with the library's error, exactly for a missing marker at the start and for end addresses below the start."""
    n = v.int("n", 0)
    d = v.bytes("data", n)
    if v.symbolic:
        v.run.cache.update(v=v, d=v.copy(d), pos=0)
    r = v.mod("segments").SegmentData(v.copy(d))
    f = v.mod("ataridos").AtariDosFile(r)
    o = v.call(f.parse_segments)
    q = v.int("q", 0)
    v.assume(v.Or(q < n, n == 0))
    v.ensure("the data stays", v.Implies(n > 0, v.get(r.data, q) == v.get(d, q)) if v.symbolic else (n == 0 or r.data[q] == d[q]))
    if v.cut:
        p = v.run.cache["pos"]
        if not o.ok:
            v.ensure("the library's error", o.raised("InvalidBinaryFile"))
            v.ensure("only bad headers are refused", v.And(p + 1 < n, word(v, d, p) != 0xffff, v.Or(p == 0, word(v, d, p + 2) < word(v, d, p))))
            return
        tail = list(f.segments.tail)
        if not tail:
            v.ensure("the whole file is covered", p == n)
            return
        v.ensure("one incomplete segment", len(tail) == 1)
        v.ensure("a tail is left", p < n)
        v.ensure("a file without marker is refused", v.Implies(p == 0, n == 1))
        incomplete(v, d, n, tail[0], p)
        return
    p, k = 0, 0
    segs = f.segments
    while True:
        if not v.true(p < n):
            v.ensure("parsed", o.ok)
            v.ensure("the whole file is covered", v.len(segs) == k)
            return
        if v.true(p + 1 == n):
            break
        if v.true(word(v, d, p) == 0xffff):
            p += 2
            continue
        if v.true(p == 0):
            v.ensure("a file without marker is refused", o.raised("InvalidBinaryFile"))
            return
        if v.true(p + 4 > n):
            break
        if v.true(word(v, d, p + 2) < word(v, d, p)):
            v.ensure("bad addresses are refused", o.raised("InvalidBinaryFile"))
            return
        c = word(v, d, p + 2) - word(v, d, p) + 1
        if v.true(p + 4 + c > n):
            break
        if o.ok:
            # (if not: a later header is refused)
            v.ensure("every header's segment is there", v.len(segs) > k)
            announced(v, d, segs[k], p)
        k += 1
        p = p + 4 + c
    if not v.ensure("the tail is reported", v.And(o.ok, v.len(segs) == k + 1)):
        return
    incomplete(v, d, n, segs[k], p)


# ---------------------------------------------------------------- building from segments

class Xex:
    """ghost: the file that holds n segments (any number, any contents), with a run address segment in front if they have none"""
    def __init__(self, v, addr_choice=True):
        self.v = v
        n = self.n = v.int("count", 1)
        self.segs, self.O, self.N, self.D = v.seglist("seg", n, top=65536)
        self.own = v.choice("own", [False, True])       # one of them is at $2e0
        if self.own:
            self.j0 = v.int("j0", 0)
            v.assume(v.And(self.j0 < n, self.O(self.j0) == 0x2e0))
        elif not v.symbolic:
            v.assume(all(self.O(j) != 0x2e0 for j in range(n)))
        self.asked = v.choice("asked", [False, True])
        self.a = v.int("run", 1, 65535) if self.asked else None
        self.T, self.rec = v.psum("T", 2, lambda j: 4 + self.N(j))
        self.E = v.spec("E", self.concrete)
        if v.symbolic:
            v.run.cache["xex"] = self
            v.define(self.E, 0, 2, lambda p: 255)
            v.run.fact((self.T(n) >= 6).e)
            if not v.cut:
                for j in range(6):
                    self.know(j)

    def not2e0(self, j):
        """an instance of: no segment is at $2e0"""
        if not self.own and self.v.symbolic:
            self.v.run.assume(self.v.Implies(self.v.And(j >= 0, j < self.n), self.O(j) != 0x2e0))

    @property
    def m(self):
        return self.n if self.own else self.n + 1

    @property
    def addr(self):
        return self.a if self.asked else self.O(0)

    def S(self, j):
        if self.own:
            return self.T(j)
        return self.v.Ite(j == 0, 2, self.T(j - 1) + 6)

    def origin(self, j):
        return self.O(j) if self.own else self.v.Ite(j == 0, 0x2e0, self.O(j - 1))

    def length(self, j):
        return self.N(j) if self.own else self.v.Ite(j == 0, 2, self.N(j - 1))

    def byte(self, j, t):
        if self.own:
            return self.D(j, t)
        run = self.v.Ite(t == 0, self.addr % 256, self.addr // 256)
        return self.v.Ite(j == 0, run, self.D(j - 1, t))

    def enc(self, j, t):
        Ite = self.v.Ite
        o = self.origin(j)
        e = o + self.length(j) - 1
        return Ite(t == 0, o % 256, Ite(t == 1, o // 256, Ite(t == 2, e % 256, Ite(t == 3, e // 256, self.byte(j, t - 4)))))

    def know(self, j):
        """the definition of the file at segment j"""
        v = self.v
        if not v.symbolic:
            return
        self.rec(j, self.n)
        self.rec(j - 1, self.n)
        v.define(self.E, self.S(j), self.S(j) + 4 + self.length(j), lambda p: self.enc(j, p - self.S(j)))

    def concrete(self, p):
        if p < 2:
            return 255
        j = 0
        while p >= self.S(j + 1):
            j += 1
        return self.enc(j, p - self.S(j))


class XexC(Xex):
    """the same on concrete values"""
    def origin(self, j):
        return self.O(j) if self.own else 0x2e0 if j == 0 else self.O(j - 1)

    def length(self, j):
        return self.N(j) if self.own else 2 if j == 0 else self.N(j - 1)

    def S(self, j):
        return self.T(j) if self.own else 2 if j == 0 else self.T(j - 1) + 6

    def byte(self, j, t):
        if self.own:
            return self.D(j, t)
        return (self.addr % 256 if t == 0 else self.addr // 256) if j == 0 else self.D(j - 1, t)

    def enc(self, j, t):
        o = self.origin(j)
        e = o + self.length(j) - 1
        return (o % 256, o // 256, e % 256, e // 256)[t] if t < 4 else self.byte(j, t - 4)


def xex(v):
    return (Xex if v.symbolic else XexC)(v)


def x_total(st):
    g = st.run.cache["xex"]
    k = st.k
    st.local("total", g.T(k))
    st.dead("s")
    if g.own:
        r = st.ghost("runad", lambda: g.v.spec("runad"))
        if st.mode == "assume":
            st.loop.vals["runad"] = r(k) == 1
            st.run.assume(st.Implies(k > g.j0, r(k) == 1))
        else:
            st.require("a run address segment is seen", st.Implies(k > g.j0, st["runad"]))
    else:
        g.not2e0(k)
        st.local("runad", False)
    if st.mode == "assume":
        g.rec(k, g.n)


def inside(g, v, a, j):
    return v.And(a >= g.O(j), a < g.O(j) + g.N(j))


def x_found(st):
    g = st.run.cache["xex"]
    st.local("found", False)
    st.dead("s")
    st.forall("no earlier segment holds the address", 0, st.k, lambda j: st.Not(inside(g, g.v, g.a, j)), pattern=lambda i: g.O(i).e)


def x_fill(st):
    g = st.run.cache["xex"]
    k = st.k
    if st.mode == "assume":
        g.know(k)
    if st.phase == "established":
        g.know(0)
    st.local("i", g.S(k))
    st.dead("words", "s", "new_s")
    st.opaque(st["sub_segments"], k)
    E = g.E
    st.array(st["bytes"], lambda p: st.Ite(p < g.S(k), E(p), 0))
    st.havoc(st["rawdata"].style)


@contract("C10", functions=["get_xex"], loops={"executables.get_xex#0": x_total, "executables.get_xex#1": x_found, "executables.get_xex#2": x_fill})
def c10_build(v):
    """The executable built from any number of segments is the marker followed by header and bytes of each in order, with a run address segment in
    front unless there is one; a requested run address outside all segments is refused, and only that."""
    g = xex(v)
    o = v.call(v.mod("executables").get_xex, g.segs, g.a)
    if not o.ok:
        v.ensure("the library's error", o.raised("InvalidBinaryFile"))
        if not v.ensure("only a bad run address is refused", v.And(g.asked, not g.own)):
            return
        v.forall("the address is outside all segments", 0, g.n, lambda j: v.Not(inside(g, v, g.a, j)))
        return
    if g.asked and not g.own:
        v.exists("the address is in some segment", 0, g.n, lambda j: inside(g, v, g.a, j))
    main, subs = o.value
    size = g.S(g.m)
    v.ensure("length of the file", v.len(main) == size)
    v.forall("contents of the file", 0, size, lambda p: v.get(main.data, p) == g.E(p))


def x_back(st):
    g = st.run.cache["xex"]
    v, k, f = g.v, st.k, st["self"]
    j = k - 1
    if st.mode == "assume":
        g.know(j)
        g.not2e0(j)
    st.require("no more than the segments", j <= g.m)
    st.local("pos", st.Ite(k == 0, 0, g.S(j)))
    st.fresh("style_pos", 0, f.size)
    st.local("first", k == 0)
    st.havoc(st["s"])
    tail = st.opaque(f.segments, st.Ite(k == 0, 0, j))
    if st.phase == "preserved":
        i = j - 1
        if not tail:
            st.require("only the marker announces nothing", k == 1)
        else:
            back(v, g, tail[0], i)


def back(v, g, s, i):
    v.ensure("same origin", s.origin == g.origin(i))
    v.ensure("same length", v.len(s) == g.length(i))
    v.ensure("no error", not (s.error or s.name))
    v.ensure("type of the segment", (g.origin(i) == 0x2e0) == (type(s).__name__ == "RunAddressSegment"))
    v.forall("same bytes", 0, g.length(i), lambda t: v.get(s.data, t) == g.byte(i, t))
    if not g.own and v.true(i == 0):
        v.ensure("the run address is the requested one or the origin of the first segment", s.run_address() == g.addr)


@contract("C10", functions=["AtariDosFile.parse_segments", "RunAddressSegment.run_address"], loops={"ataridos.AtariDosFile.parse_segments#0": x_back})
def c10_inverse(v):
    """Parsing the file that c10_build describes yields the segments it was built from: number, order, origins and bytes, and the run address."""
    g = xex(v)
    size = g.S(g.m)
    if v.symbolic:
        d = v.np.zeros(size, dtype=v.np.uint8)
        v.fill(d, g.E)
    else:
        d = v.np.array([g.E(p) for p in range(size)], dtype=v.np.uint8)
    f = v.mod("ataridos").AtariDosFile(v.mod("segments").SegmentData(d))
    f.parse_segments()
    if v.cut:
        v.ensure("number of segments", v.len(f.segments) == g.m)
        v.ensure("nothing but complete segments", len(f.segments.tail) == 0)
        return
    v.ensure("number of segments", v.len(f.segments) == g.m)
    for i, s in enumerate(f.segments):
        back(v, g, s, i)


@contract("C10")
def c10_lemma(v):
    """Prefix sums of positive numbers increase (induction step, used by c10_build and c10_inverse)."""
    if not v.symbolic:
        return
    S, f = v.spec("S"), v.spec("f")
    j, m = v.int("j", 0), v.int("m", 0)
    b = v.int("base")
    v.assume(v.And(f(m) > 0, S(m + 1) == S(m) + f(m)))
    v.assume(v.Implies(j < m, v.And(S(j) >= b, S(j + 1) <= S(m))))
    v.assume(v.Implies(m == 0, S(0) == b))
    v.assume(v.Implies(m > 0, S(m) >= b))
    v.ensure("step", v.Implies(j < m + 1, v.And(S(j) >= b, S(j + 1) <= S(m + 1), S(m + 1) >= b)))
