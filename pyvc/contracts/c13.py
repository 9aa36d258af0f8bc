"""C13: segment views.

Every view that slicing and indexing can build has one of three forms: the base itself, a contiguous slice of it, or an index list over it.
`anyview` builds an arbitrary view of each form; c13_step shows that slicing or indexing any of them again gives one of these forms (representation
invariant) for the composed list of base positions, so by induction on the nesting the other contracts hold for every nesting."""
from pyvc.api import contract

FORMS = ["base", "slice", "indexed"]


def anybase(v):
    n = v.int("n", 1, 1 << 30)
    d = v.bytes("data", n)
    st = v.bytes("style", n)
    SD = v.mod("segments").SegmentData
    return SD(d, st), d, st, n


def anyview(v, b, n, tag="", forms=FORMS):
    """-> (raw data object, number of elements, L: position -> base position)"""
    form = v.choice("form" + tag, forms)
    if form == "base":
        return b, n, inverse(lambda i: i, lambda q: q)
    if form == "slice":
        a = v.int("a" + tag, 0)
        e = v.int("e" + tag, 0)
        v.assume(v.And(a <= e, e <= n))
        return b[a:e], e - a, inverse(lambda i: a + i, lambda q: q - a)
    m = v.int("m" + tag, 0, 1 << 30)
    o = v.uints("order" + tag, m, n)
    return b.get_indexed(o), m, lambda i: v.get(o, i)


def inverse(L, inv):
    L.inv = inv
    return L


def touched(v, name, q, L, m, ranges):
    """base position q belongs to one of the ranges of the view"""
    if hasattr(L, "inv"):
        i = L.inv(q)
        v.ensure(name, v.Or(*[v.And(i >= a, i < e) for a, e in ranges]))
    elif len(ranges) == 1:
        v.exists(name, ranges[0][0], ranges[0][1], lambda i: L(i) == q)
    else:
        v.exists(name, 0, m, lambda i: v.And(L(i) == q, v.Or(*[v.And(i >= a, i < e) for a, e in ranges])))


def repinv(v, r, d, st, n):
    """the view refers to the base arrays themselves"""
    if r.is_indexed:
        v.ensure("indexed view refers to the base data", r.data.np_data is d)
        v.ensure("indexed view refers to the base style", r.style.np_data is st)
        v.ensure("the order of data and style is the same", v.And(r.data.order is r.order, r.style.order is r.order))
    else:
        v.ensure("view refers to the base data", r.data is d or r.data.base is d)
        v.ensure("view refers to the base style", r.style is st or r.style.base is st)


def observers(v, r, m, L, d, st, n):
    """everything the view reports agrees with L"""
    s = v.mod("segments").DefaultSegment(r, 0x1234)
    v.ensure("length", v.And(v.len(r) == m, v.len(s) == m))
    v.ensure("data and style have that length", v.And(v.len(r.data) == m, v.len(r.style) == m))
    v.forall("reads the byte at its base position", 0, m, lambda i: v.get(s[i:i + 1], 0) == v.get(d, L(i)))
    v.forall("element access reads that byte", 0, m, lambda i: s[i] == v.get(d, L(i)))
    v.forall("reads the style at its base position", 0, m, lambda i: r.style[i] == v.get(st, L(i)))
    v.forall("reports its base position", 0, m, lambda i: v.And(r.get_raw_index(i) == L(i), s.get_raw_index(i) == L(i)))
    v.forall("reports the base position of an address", 0, m, lambda i: s.get_raw_index_from_address(0x1234 + i) == L(i))
    idx = r.get_indexes_from_base()
    v.ensure("as many base positions as elements", v.len(idx) == m)
    v.forall("the list of base positions", 0, m, lambda i: v.get(idx, i) == L(i))
    t = s.tobytes()
    v.ensure("as many bytes as elements", v.len(t) == m)
    v.forall("the byte string", 0, m, lambda i: v.get(t, i) == v.get(d, L(i)))


@contract("C13", functions=["SegmentData", "OrderWrapper", "DefaultSegment"])
def c13_read(v):
    """Every form of view has the right length, and element access, the byte string, the style, the reported base positions and the list of base
    positions all denote the bytes at L(i)."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    repinv(v, r, d, st, n)
    observers(v, r, m, L, d, st, n)


@contract("C13", functions=["SegmentData.__getitem__", "SegmentData.get_indexed"])
def c13_step(v):
    """Slicing or indexing a view of any form gives a view of one of the forms, for the composed list of base positions."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    how = v.choice("how", ["slice", "index"])
    if how == "slice":
        c = v.int("c", 0)
        f = v.int("f", 0)
        v.assume(v.And(c <= f, f <= m))
        r2, m2, L2 = r[c:f], f - c, lambda i: L(c + i)
    else:
        m2 = v.int("m2", 0, 1 << 30)
        o = v.uints("order2", m2, m)
        v.assume(m > 0)
        r2, L2 = r.get_indexed(o), lambda i: L(v.get(o, i))
    repinv(v, r2, d, st, n)
    observers(v, r2, m2, L2, d, st, n)


@contract("C13", functions=["DefaultSegment.__setitem__"])
def c13_write(v):
    """Writing one element through a view of any form changes exactly the byte at its base position."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    v.assume(m > 0)
    d0, s0 = v.copy(d), v.copy(st)
    s = v.mod("segments").DefaultSegment(r, 0)
    i = v.int("i", 0)
    v.assume(i < m)
    x = v.int("x", 0, 255)
    p = L(i)
    s[i] = x
    v.forall("exactly that byte changes", 0, n, lambda q: v.get(d, q) == v.Ite(q == p, x, v.get(d0, q)))
    v.forall("no style changes", 0, n, lambda q: v.get(st, q) == v.get(s0, q))
    v.ensure("the view sees the write", s[i] == x)


@contract("C13", functions=["DefaultSegment.__setitem__"])
def c13_write_range(v):
    """Writing a value to a range of a view of any form changes exactly the bytes at the base positions of that range."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    d0 = v.copy(d)
    s = v.mod("segments").DefaultSegment(r, 0)
    c = v.int("c", 0)
    f = v.int("f", 0)
    v.assume(v.And(c <= f, f <= m))
    x = v.int("x", 0, 255)
    s[c:f] = x
    v.forall("the bytes of the range are written", c, f, lambda i: v.get(d, L(i)) == x)
    q = v.int("q", 0)
    v.assume(q < n)
    if not v.true(v.get(d, q) == v.get(d0, q)):
        # some element of the range must be at q
        touched(v, "only bytes of the range change", q, L, m, [(c, f)])


@contract("C13", functions=["DefaultSegment.__setitem__", "DefaultSegment.__getitem__", "OrderWrapper.__setitem__", "OrderWrapper.__getitem__"])
def c13_step_write(v):
    """Reading or writing every second or third element of a range of a view of any form, or an element counted from its end, denotes exactly those elements."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    d0 = v.copy(d)
    s = v.mod("segments").DefaultSegment(r, 0)
    how = v.choice("how", [2, 3, "end"])
    x = v.int("x", 0, 255)
    q = v.int("q", 0)
    v.assume(q < n)
    if how == "end":
        i = v.int("i", 1)
        v.assume(i <= m)
        v.ensure("reads the element counted from the end", s[-i] == v.get(d, L(m - i)))
        s[-i] = x
        v.forall("exactly that byte changes", 0, n, lambda k: v.get(d, k) == v.Ite(k == L(m - i), x, v.get(d0, k)))
        return
    c = v.int("c", 0)
    f = v.int("f", 0)
    v.assume(v.And(c <= f, f <= m))
    k = (f - c + how - 1) // how
    got = s[c:f:how]
    v.ensure("as many elements", v.len(got) == k)
    v.forall("reads those elements", 0, k, lambda i: v.get(got, i) == v.get(d0, L(c + how * i)))
    s[c:f:how] = x
    v.forall("those elements are written", 0, k, lambda i: v.get(d, L(c + how * i)) == x)
    if not v.true(v.get(d, q) == v.get(d0, q)):
        if hasattr(L, "inv"):
            i = L.inv(q)
            v.ensure("only those elements change", v.And(i >= c, i < f, (i - c) % how == 0))
        else:
            v.exists("only those elements change", 0, k, lambda i: L(c + how * i) == q)


@contract("C13", functions=["SegmentData.get_reverse_index", "DefaultSegment.get_index_from_base_index"])
def c13_reverse(v):
    """The reverse lookup of a base position gives an element at that position, or says that there is none."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    s = v.mod("segments").DefaultSegment(r, 0)
    p = v.int("p", 0)
    v.assume(p < n)
    which = v.choice("which", [0, 1])
    o = v.call(r.get_reverse_index if which else s.get_index_from_base_index, p)
    if o.ok:
        v.cover("found")
        j = o.value
        v.ensure("an element of the view", v.And(j >= 0, j < m))
        v.ensure("at that base position", L(j) == p)
    else:
        v.cover("not found")
        v.ensure("reported as an index error", o.raised("IndexError"))
        v.forall("no element is at that position", 0, m, lambda i: L(i) != p)


@contract("C13", functions=["SegmentData.byte_bounds_offset"])
def c13_bounds(v):
    """A contiguous view reports the bounds of its bytes."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n, forms=["base", "slice"])
    v.assume(m > 0)
    lo, hi = r.byte_bounds_offset()
    v.ensure("first and last byte", v.And(lo == L(0), hi == L(m - 1) + 1))


@contract("C13", functions=["DefaultSegment.resize", "SegmentData.resize", "SegmentData.replace_arrays"])
def c13_resize(v):
    """Resizing a container keeps its bytes, fills the rest with zeros, and views moved to the resized container denote the same positions."""
    b, d, st, n = anybase(v)
    seg = v.mod("segments")
    c = seg.SegmentedFileSegment(b, 0, 0, 0)
    r, m, L = anyview(v, b, n, forms=["slice", "indexed"])
    view = seg.DefaultSegment(r, 0)
    d0, st0 = v.copy(d), v.copy(st)
    if v.choice("looked up before", [False, True]):
        r.reverse_index_mapping
        b.reverse_index_mapping
    n2 = v.int("n2", 1, 1 << 30)
    v.assume(n2 >= n)
    times = v.choice("times", [1, 2])
    if times == 2:
        mid = v.int("mid", 1)
        v.assume(v.And(mid >= n, mid <= n2))
        c.resize(mid)
    c.resize(n2)
    view.replace_data(c)
    v.ensure("new length", v.len(c) == n2)
    v.forall("old bytes kept, rest zero", 0, n2, lambda i: v.get(c.data, i) == (v.Ite(i < n, v.get(d0, v.Ite(i < n, i, 0)), 0)))
    v.ensure("the view keeps its length", v.len(view) == m)
    v.forall("the view denotes the same positions", 0, m, lambda i: v.And(view.get_raw_index(i) == L(i), view[i] == v.get(d0, L(i))))
    v.forall("the view has the same styles", 0, m, lambda i: view.style[i] == v.get(st0, L(i)))
    p = v.int("p", 0)
    v.assume(p < n2)
    v.ensure("the container finds every position", c.get_index_from_base_index(p) == p)
    o = v.call(view.get_index_from_base_index, p)
    if o.ok:
        v.ensure("the reverse lookup gives an element at that position", v.And(o.value >= 0, o.value < m, L(o.value) == p))
    else:
        v.ensure("reported as an index error", o.raised("IndexError"))
        v.forall("no element is at that position", 0, m, lambda i: L(i) != p)
    v.assume(m > 0)
    i = v.int("i", 0)
    v.assume(i < m)
    x = v.int("x", 0, 255)
    view[i] = x
    v.ensure("writing through the view reaches the container", v.get(c.data, L(i)) == x)
    view.style[i] = x
    v.ensure("marking through the view reaches the container", v.get(c.style, L(i)) == x)


@contract("C13", functions=["SegmentData.copy"])
def c13_copy(v):
    """A copy of a view of any form has the same bytes, styles and base positions, and shares no storage with it."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    d0, s0 = v.copy(d), v.copy(st)
    c = r.copy()
    v.ensure("length", v.len(c) == m)
    v.forall("the same bytes", 0, m, lambda i: v.get(c.data[i:i + 1], 0) == v.get(d0, L(i)))
    v.forall("the same styles", 0, m, lambda i: c.style[i] == v.get(s0, L(i)))
    v.forall("the same base positions", 0, m, lambda i: c.get_raw_index(i) == L(i))
    i = v.int("i", 0)
    v.assume(i < m)
    x = v.int("x", 0, 255)
    c.data[i] = x
    c.style[i] = x
    v.ensure("the copy is written", v.And(c.data[i] == x, c.style[i] == x))
    v.forall("writing to the copy leaves the original", 0, n, lambda q: v.And(v.get(d, q) == v.get(d0, q), v.get(st, q) == v.get(s0, q)))


@contract("C13", functions=["DefaultSegment.create_subset", "DefaultSegment.get_parallel_raw_data", "SegmentData.unindexed_data", "SegmentData.unindexed_style", "DefaultSegment.set_raw"])
def c13_derived(v):
    """A subset is the view of the composed positions; the data parallel to another segment are those at the same base positions; the plain data
    of a view are its bytes in order."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    seg = v.mod("segments")
    s = seg.DefaultSegment(r, 0)
    what = v.choice("what", ["subset", "parallel", "plain", "array"])
    if what == "subset":
        v.assume(m > 0)
        m2 = v.int("m2", 0, 1 << 30)
        o = v.uints("order2", m2, m)
        t = s.create_subset(o, "part")
        repinv(v, t.rawdata, d, st, n)
        v.ensure("length", v.len(t) == m2)
        v.forall("reads the byte at the composed position", 0, m2, lambda i: t[i] == v.get(d, L(v.get(o, i))))
        v.forall("reports the composed position", 0, m2, lambda i: t.get_raw_index(i) == L(v.get(o, i)))
    elif what == "parallel":
        d2, st2 = v.bytes("data2", n), v.bytes("style2", n)
        c = seg.DefaultSegment(seg.SegmentData(d2, st2), 0)
        p = c.get_parallel_raw_data(s)
        repinv(v, p, d2, st2, n)
        v.ensure("length", v.len(p) == m)
        v.forall("the bytes at the same base positions", 0, m, lambda i: v.get(p.data[i:i + 1], 0) == v.get(d2, L(i)))
        v.forall("the styles at the same base positions", 0, m, lambda i: p.style[i] == v.get(st2, L(i)))
    elif what == "plain":
        x, y = r.unindexed_data, r.unindexed_style
        v.ensure("length", v.And(v.len(x) == m, v.len(y) == m))
        v.forall("the bytes in order", 0, m, lambda i: v.get(x, i) == v.get(d, L(i)))
        v.forall("the styles in order", 0, m, lambda i: v.get(y, i) == v.get(st, L(i)))
    else:
        t = seg.DefaultSegment(d, 0)
        v.ensure("length", v.len(t) == n)
        v.forall("the bytes of the array", 0, n, lambda i: t[i] == v.get(d, i))
        v.forall("the positions of the array", 0, n, lambda i: t.get_raw_index(i) == i)


@contract("C13", functions=["DefaultSegment.search_copy", "DefaultSegment.__setitem__", "DefaultSegment.set_raw"])
def c13_search_copy(v):
    """The bytes that are searched are the current bytes of the segment, also after writing through it."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    v.assume(m > 0)
    s = v.mod("segments").DefaultSegment(r, 0)
    t = s.search_copy
    v.ensure("length", v.len(t) == m)
    v.forall("the bytes of the view", 0, m, lambda i: v.get(t, i) == v.get(d, L(i)))
    i = v.int("i", 0)
    v.assume(i < m)
    x = v.int("x", 0, 255)
    if v.choice("range", [False, True]):
        s[i:i + 1] = x
    else:
        s[i] = x
    t = s.search_copy
    v.forall("the bytes after the write", 0, m, lambda i: v.get(t, i) == v.get(d, L(i)))


def interleave(v, forms_k, nb):
    b, d, st, n = anybase(v)
    seg = v.mod("segments")
    views = [anyview(v, b, n, str(k), forms=[f]) for k, f in enumerate(forms_k)]
    k = len(views)
    segs = [seg.DefaultSegment(x[0], 0) for x in views]
    d0 = v.copy(d)
    size = views[0][1]
    for x in views[1:]:
        size = v.Ite(x[1] < size, x[1], size)
    size = size - size % nb
    s = seg.interleave_segments(segs, nb)
    v.ensure("length", v.len(s) == size * k)
    order = s.rawdata.get_indexes_from_base()

    rows = size // nb
    for j in range(k):
        for col in range(nb):
            L = views[j][2]
            v.forall("the bytes of the views in turn, n at a time", 0, rows, lambda row: v.get(order, (row * k + j) * nb + col) == L(row * nb + col))
            v.forall("reads those bytes", 0, rows, lambda row: s[(row * k + j) * nb + col] == v.get(d, L(row * nb + col)))
    v.forall("no data changes", 0, n, lambda q: v.get(d, q) == v.get(d0, q))
    v.ensure("the result is a view of the same base", s.rawdata.data.np_data is d)


def _mk(nb, combos, name):
    def f(v):
        forms = v.choice("combo", combos)
        interleave(v, forms, nb)
    f.__name__ = name
    f.__doc__ = "Interleaving views of the base (forms %s) by %d bytes yields their bytes in turn, %d at a time, for views of any length." % (combos, nb, nb)
    contract("C13", functions=["interleave_segments", "interleave_indexes"], bounded="interleaves of 1 to 3 views by %d bytes" % nb)(f)


COMBOS = [("slice",), ("slice", "slice"), ("indexed", "slice"), ("base", "indexed"), ("slice", "indexed", "base")]
for _nb in (1, 2, 3):
    _mk(_nb, COMBOS, "c13_interleave_%d" % _nb)


class Weave:
    """ghost of interleave_segments: ns views, N(j) elements of view j, L(j, t) base position of its element t; products and quotients of unknowns are
    uninterpreted, their laws (c13_arith) are used as instances"""
    def __init__(self, v, n, base):
        self.v = v
        self.ns, self.nb = v.int("views", 1), v.int("nb", 1)
        v.opaque_products()
        self.Nf, self.Lf, self.mf, self.R, self.C = (v.spec(x) for x in ("vlen", "vat", "least", "row", "cell"))
        self.n = n
        ghost = self

        class Raw:
            extra = base.extra

            def __init__(self, j):
                self.j = j

            def get_indexes_from_base(self):
                return v.array(ghost.N(self.j), lambda t: ghost.L(self.j, t), "uint32")

            def get_bases(self):
                return base.data, base.style

            def __getattr__(self, k):
                v.inapplicable("uses %s of a view" % k)

        class View:
            def __init__(self, j):
                self.j, self.rawdata = j, Raw(j)

            def slen(self):
                return ghost.N(self.j)

            def __getattr__(self, k):
                v.inapplicable("uses %s of a segment" % k)
        self.segs = v.objlist(self.ns, View)

    def fact(self, c):
        if not isinstance(c, bool):
            self.v.run.fact(c.e)

    def N(self, j):
        t = self.Nf(j)
        self.fact(self.v.And(t >= 0, t <= 1 << 30))
        return t

    def L(self, j, t):
        x = self.Lf(j, t)
        self.fact(self.v.And(x >= 0, x < self.n))
        return x

    def least(self, k):
        """length of the shortest of the first k + 1 views"""
        v, t, i = self.v, self.mf(k), k - 1
        self.fact(v.And(t >= 0, v.Implies(k == 0, t == self.N(0)), v.Implies(k > 0, t == v.Ite(self.N(k) < self.mf(i), self.N(k), self.mf(i)))))
        return t

    def law(self, c):
        """an instance of a law that c13_arith proves"""
        self.fact(c)

    def shortest(self):
        return self.least(self.ns - 1)

    def setup(self):
        """rows, size = rows * nb, F = nb * ns, the length size * ns = rows * F"""
        v, nb, ns = self.v, self.nb, self.ns
        s0 = self.shortest()
        rows, rem = s0 // nb, s0 % nb
        self.law(v.And(s0 == nb * rows + rem, rem >= 0, rem < nb, rows >= 0))          # division
        size, F = s0 - rem, nb * ns
        self.law(v.And(F >= 1, v.Implies(F == 1, v.And(nb == 1, ns == 1)), size * ns == rows * F, v.Implies(rows == 0, nb * rows == 0), v.Implies(rows > 0, v.And(rows * F >= F, nb * rows >= nb)),
                        v.Implies(rows == 0, rows * F == 0)))
        self.rows, self.size, self.F = rows, size, F
        return rows, size, F

    def cell(self, p):
        """p = row * F + cell, cell = j * nb + col"""
        v = self.v
        R, C = self.R(p), self.C(p)
        self.law(v.Implies(v.And(p >= 0, p < self.rows * self.F), v.And(p == R * self.F + C, C >= 0, C < self.F, R >= 0, R < self.rows)))
        J, c = C // self.nb, C % self.nb
        self.law(v.Implies(v.And(C >= 0, C < self.F), v.And(C == J * self.nb + c, c >= 0, c < self.nb, J >= 0, J < self.ns)))
        return R, C, J, c

    def value(self, p):
        R, C, J, c = self.cell(p)
        return self.L(J, R * self.nb + c)

    def at(self, j, i):
        """the cell of column i of view j"""
        v = self.v
        x = j * self.nb
        self.law(v.Implies(v.And(j >= 0, j < self.ns), v.And(x >= 0, x + self.nb <= self.F, (j + 1) * self.nb == x + self.nb)))
        self.law(v.Implies(j == 0, x == 0))
        self.law(v.Implies(j == self.ns, x == self.F))
        return x + i

    def stored(self, p, j, i):
        """what the store to every F-th element from the cell of (j, i) on does at p"""
        v, s, F = self.v, self.at(j, i), self.F
        R, C, J, c = self.cell(p)
        ok = v.And(p >= 0, p < self.rows * F, j >= 0, j < self.ns, i >= 0, i < self.nb)
        self.law(v.Implies(v.And(ok, p >= s), ((p - s) % F == 0) == (C == s)))
        self.law(v.Implies(v.And(ok, C == s), v.And(p >= s, (p - s) // F == R, R * F <= (self.rows - 1) * F)))
        self.law(v.Implies(ok, v.And((C == s) == v.And(J == j, c == i))))

    def unique(self, p, row, j, col):
        """p is row * F + j * nb + col in one way only"""
        v, s = self.v, self.at(j, col)
        R, C, J, c = self.cell(p)
        ok = v.And(row >= 0, row < self.rows, j >= 0, j < self.ns, col >= 0, col < self.nb, p == row * self.F + s)
        self.law(v.Implies(ok, v.And(p >= 0, p < self.rows * self.F, R == row, C == s, J == j, c == col)))

    def lengths(self, j, i):
        """lengths of the two slices"""
        v, s = self.v, self.at(j, i)
        ok = v.And(j >= 0, j < self.ns, i >= 0, i < self.nb, self.rows > 0)
        self.law(v.Implies(ok, v.And((self.size * self.ns - s + self.F - 1) // self.F == self.rows, (self.size - i + self.nb - 1) // self.nb == self.rows)))
        self.law(v.And((self.F - 1) // self.F == 0, (self.nb - 1) // self.nb == 0))


def w_least(st):
    g = st.run.cache["weave"]
    st.dead("s")
    st.local("size", g.least(st.k))
    st.forall("no longer than any of the views so far", 0, st.k + 1, lambda q: g.least(st.k) <= g.N(q), pattern=lambda q: g.N(q).e)


def w_views(st):
    g = st.run.cache["weave"]
    g.j = st.k
    if st.phase == "established":
        g.empty = st["interleave"].getter()
    st.dead("s", "order", "i")
    st.local("start", g.at(st.k, 0))
    lim = g.at(st.k, 0)
    old = g.empty
    st.array(st["interleave"], lambda p: g.v.Ite(g.cell(p)[1] < lim, g.value(p), old(p)))


def w_cols(st):
    g = st.run.cache["weave"]
    j, i = g.j, st.k
    st.dead("i")
    lim = g.at(j, i)
    st.local("start", lim)
    g.lengths(j, i)
    old = g.empty

    def elem(p):
        if st.phase == "preserved":
            g.stored(p, j, i - 1)
        return g.v.Ite(g.cell(p)[1] < lim, g.value(p), old(p))
    st.array(st["interleave"], elem)


def w_bases(st):
    st.dead("d", "s")


@contract("C13", functions=["interleave_segments", "interleave_indexes"],
          loops={"segments.interleave_indexes#0": w_least, "segments.interleave_indexes#1": w_views, "segments.interleave_indexes#2": w_cols, "segments.interleave_segments#0": w_bases})
def c13_interleave(v):
    """Interleaving any number of views of any length by any number of bytes yields their bytes in turn, that many at a time."""
    if not v.symbolic:
        k, nb = v.int("views", 1), v.int("nb", 1)
        v.assume(v.And(k <= 16, nb <= 100))
        return interleave(v, [v.choice("kind%d" % j, FORMS) for j in range(k)], nb)
    if not v.cut:
        return interleave(v, v.choice("combo", COMBOS), v.choice("nbytes", [1, 2, 3]))
    v.probes(100)
    b, d, st, n = anybase(v)
    g = Weave(v, n, b)
    v.keep("weave", g)
    d0 = v.copy(d)
    rows, size, F = g.setup()
    s = v.mod("segments").interleave_segments(g.segs, g.nb)
    v.ensure("length", v.len(s) == size * g.ns)
    order = s.rawdata.get_indexes_from_base()
    row, j, col = v.int("row", 0), v.int("j", 0), v.int("col", 0)
    v.assume(v.And(row < rows, j < g.ns, col < g.nb))
    p = row * F + g.at(j, col)
    g.unique(p, row, j, col)
    v.ensure("the bytes of the views in turn, n at a time", v.get(order, p) == g.L(j, row * g.nb + col))
    v.ensure("reads those bytes", s[p] == v.get(d, g.L(j, row * g.nb + col)))
    v.forall("no data changes", 0, n, lambda q: v.get(d, q) == v.get(d0, q))
    v.ensure("the result is a view of the same base", s.rawdata.data.np_data is d)


class Laws(Weave):
    """the laws of products and quotients that c13_interleave uses, as obligations of real arithmetic"""
    def __init__(self, v):
        self.v = v
        self.ns, self.nb, self.s0 = v.int("views", 1), v.int("nb", 1), v.int("shortest", 0)
        self.count = 0

    def R(self, p):
        return p // self.F

    def C(self, p):
        return p % self.F

    def shortest(self):
        return self.s0

    def law(self, c):
        self.count += 1
        self.v.ensure("law %d" % self.count, c)


@contract("C13", functions=["interleave_indexes"])
def c13_arith(v):
    """Lemma: the laws of products, quotients and remainders that c13_interleave uses as instances hold for all integers."""
    g = Laws(v)
    g.setup()
    row, j, i, p = v.int("row"), v.int("j"), v.int("i"), v.int("p")
    what = v.choice("law", ["stored", "lengths", "unique"])
    if what == "stored":
        g.stored(p, j, i)
    elif what == "lengths":
        g.lengths(j, i)
    else:
        g.unique(row * g.F + g.at(j, i), row, j, i)
