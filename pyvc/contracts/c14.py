"""C14: styles, comments, undo."""
from pyvc.api import contract
from pyvc.contracts.c13 import anybase, anyview, touched

KINDS = dict(match=0x20, comment=0x40, selected=0x80, diff=0x10)


def kwargs(v):
    """every combination of style keywords -> (kwargs, bits that are set)"""
    kw, bits = {}, 0
    for k in ("match", "comment", "selected", "diff"):
        if v.choice(k, [0, 1]):
            kw[k] = True
            bits |= KINDS[k]
    u = v.choice("user", list(range(9)))
    if u == 8:
        kw["data"] = True
        return kw, bits | 1, bits
    if u:
        kw["user"] = u
        return kw, bits | u, bits | 7
    return kw, bits, bits


@contract("C14", functions=["get_style_bits", "get_style_mask"])
def c14_bits(v):
    """Every combination of style keywords has its own bits, and the mask for clearing has exactly the others."""
    kw, bits, clear = kwargs(v)
    m = v.mod("segments")
    v.ensure("bits", m.get_style_bits(**kw) == bits)
    if "data" not in kw:
        v.ensure("mask", m.get_style_mask(**kw) == 255 ^ clear)
    s = m.DefaultSegment(m.SegmentData(v.np.zeros(1, dtype=v.np.uint8)))
    v.ensure("bits as seen by a segment", s.get_style_bits(**kw) == bits)


def setup(v, forms=("base", "slice", "indexed")):
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n, forms=list(forms))
    s = v.mod("segments").DefaultSegment(r, 0)
    return s, b, d, st, n, m, L


def arange(v, m, tag="", swap=True):
    a, e = v.int("ra" + tag, 0), v.int("re" + tag, 0)
    v.assume(v.And(a <= m, e <= m))
    if not swap:
        v.assume(a <= e)
        return (a, e), a, e
    return (a, e), v.Ite(a <= e, a, e), v.Ite(a <= e, e, a)


CHOICES = [dict(match=True), dict(comment=True), dict(selected=True), dict(diff=True), dict(user=2), dict(user=7, comment=True, match=True)]
BITS = [0x20, 0x40, 0x80, 0x10, 2, 0x67]
CLEAR = [0x20, 0x40, 0x80, 0x10, 7, 0x67]


def setbits(x, bits):
    return x | bits


def clearbits(x, bits):
    return x & (255 ^ bits)


def mark(v, which, nr, forms):
    s, b, d, st, n, m, L = setup(v, forms)
    d0, s0 = v.copy(d), v.copy(st)
    k = v.choice("kw", list(range(len(CHOICES))))
    rr = [arange(v, m, str(j)) for j in range(nr)]
    f = setbits if which == "set" else clearbits
    bits = (BITS if which == "set" else CLEAR)[k]
    if which == "set":
        s.set_style_ranges([x[0] for x in rr], **CHOICES[k])
    else:
        s.clear_style_ranges([x[0] for x in rr], **CHOICES[k])
    for _, a, e in rr:
        v.forall("exactly the chosen bits of the bytes in the ranges", a, e, lambda i: v.get(st, L(i)) == f(v.get(s0, L(i)), bits))
    q = v.int("q", 0)
    v.assume(q < n)
    if not v.true(v.get(st, q) == v.get(s0, q)):
        touched(v, "only bytes in the ranges change", q, L, m, [x[1:] for x in rr])
    v.forall("the data is unchanged", 0, n, lambda i: v.get(d, i) == v.get(d0, i))


@contract("C14", functions=["DefaultSegment.set_style_ranges"])
def c14_set(v):
    """Setting a style on a range of any size of any form of view sets its bits in exactly the bytes of the range."""
    mark(v, "set", 1, ["base", "slice", "indexed"])


@contract("C14", functions=["DefaultSegment.clear_style_ranges"])
def c14_clear(v):
    """Clearing a style from a range of any size of any form of view clears its bits in exactly the bytes of the range."""
    mark(v, "clear", 1, ["base", "slice", "indexed"])


@contract("C14", functions=["DefaultSegment.clear_style_bits", "OrderWrapper.__iand__"])
def c14_clear_all(v):
    """Clearing a style from a whole view of any form clears its bits in exactly the bytes of the view."""
    s, b, d, st, n, m, L = setup(v)
    d0, s0 = v.copy(d), v.copy(st)
    k = v.choice("kw", list(range(len(CHOICES))))
    s.clear_style_bits(**CHOICES[k])
    v.forall("exactly the chosen bits of every byte", 0, m, lambda i: v.get(st, L(i)) == clearbits(v.get(s0, L(i)), CLEAR[k]))
    q = v.int("q", 0)
    v.assume(q < n)
    if not v.true(v.get(st, q) == v.get(s0, q)):
        touched(v, "only bytes of the view change", q, L, m, [(0, m)])
    v.ensure("the data is unchanged", v.get(d, q) == v.get(d0, q))


@contract("C14", functions=["DefaultSegment.set_style_at_indexes", "DefaultSegment.get_style_at_indexes"])
def c14_at_indexes(v):
    """Setting a style at a list of indexes sets its bits in exactly these bytes, and reading the styles there gives them."""
    s, b, d, st, n, m, L = setup(v)
    v.assume(m > 0)
    d0, s0 = v.copy(d), v.copy(st)
    k = v.choice("kw", list(range(len(CHOICES))))
    c = v.int("c", 0, 1 << 30)
    o = v.uints("at", c, m)
    got = s.get_style_at_indexes(o)
    v.ensure("one style for each index", v.len(got) == c)
    v.forall("the styles at the indexes", 0, c, lambda j: v.get(got, j) == v.get(s0, L(v.get(o, j))))
    s.set_style_at_indexes(o, **CHOICES[k])
    v.forall("exactly the chosen bits of the bytes at the indexes", 0, c, lambda j: v.get(st, L(v.get(o, j))) == setbits(v.get(s0, L(v.get(o, j))), BITS[k]))
    q = v.int("q", 0)
    v.assume(q < n)
    if not v.true(v.get(st, q) == v.get(s0, q)):
        v.exists("only bytes at the indexes change", 0, c, lambda j: L(v.get(o, j)) == q)
    v.ensure("the data is unchanged", v.get(d, q) == v.get(d0, q))


def inv_mark(fn, bits):
    """the style bits have been set (cleared) in the bytes of the first k ranges"""
    def inv(s):
        seg = s["self"]
        r = seg.rawdata
        st = r.style.np_data if r.is_indexed else r.style
        s0 = s.ghost("s0", lambda: st.copy())
        rr = s["ranges"]
        b = s[bits]

        g = s0.getter()

        def within(q):
            """q is a byte of one of the first k ranges"""
            def in_range(j, i):
                x, y = rr.get(j)
                return s.And(j >= 0, j < s.k, i >= s.Ite(x <= y, x, y), i < s.Ite(x <= y, y, x))
            if r.is_indexed:
                o = r.order.getter()
                return s.exists(2, lambda j, i: s.And(in_range(j, i), o(i) == q))
            return s.exists(1, lambda j: in_range(j, q))
        s.array(st, lambda q: s.Ite(within(q), fn(g(q), b), g(q)))
    return inv


def many(v, which, forms):
    s, b, d, st, n, m, L = setup(v, forms)
    d0, s0 = v.copy(d), v.copy(st)
    k = v.choice("kw", [1, 5])
    nr = v.int("nr", 0)
    rr = v.pairs("rr", nr, m)
    f = setbits if which == "set" else clearbits
    bits = (BITS if which == "set" else CLEAR)[k]
    if which == "set":
        s.set_style_ranges(rr, **CHOICES[k])
    else:
        s.clear_style_ranges(rr, **CHOICES[k])
    j = v.int("j", 0)
    v.assume(j < nr)
    x, y = v.get2(rr, j)
    v.forall("exactly the chosen bits of the bytes in every range", v.Ite(x <= y, x, y), v.Ite(x <= y, y, x), lambda i: v.get(st, L(i)) == f(v.get(s0, L(i)), bits))
    q = v.int("q", 0)
    v.assume(q < n)
    if not v.true(v.get(st, q) == v.get(s0, q)):
        v.exists2("only bytes in the ranges change", nr, m, lambda j, i: v.And(L(i) == q, within(v, rr, j, i)))
    v.ensure("the data is unchanged", v.get(d, q) == v.get(d0, q))


def within(v, rr, j, i):
    x, y = v.get2(rr, j)
    return v.And(i >= v.Ite(x <= y, x, y), i < v.Ite(x <= y, y, x))


def mask(x, m):
    return x & m


@contract("C14", functions=["DefaultSegment.set_style_ranges"], loops={"segments.DefaultSegment.set_style_ranges#0": inv_mark(setbits, "style_bits")})
def c14_set_many(v):
    """Setting a style on any number of ranges sets its bits in exactly the bytes of the ranges."""
    many(v, "set", ["base", "slice", "indexed"])


@contract("C14", functions=["DefaultSegment.clear_style_ranges"], loops={"segments.DefaultSegment.clear_style_ranges#0": inv_mark(mask, "style_mask")})
def c14_clear_many(v):
    """Clearing a style from any number of ranges clears its bits in exactly the bytes of the ranges."""
    many(v, "clear", ["base", "slice", "indexed"])


def inv_ranges(s):
    """range j is that of group j (a list without hits is one empty group)"""
    it = s.loop.it
    if not hasattr(it, "sym"):
        return

    def make(j):
        g = it.get(j)
        return s.num(g[0]), s.num(g[-1]) + 1
    s.tuples(s["ranges"], s.k if it.get(0).slen() > 0 else 0, make)


@contract("C14", functions=["DefaultSegment.get_style_ranges"])
def c14_matches(v):
    """The ranges reported for a style are those that bool_to_ranges (c14_runs) gives for the bytes that carry all bits of the style, for views of
    any form and length."""
    s, b, d, st, n, m, L = setup(v)
    k = v.choice("kw", list(range(len(CHOICES))))
    bits = BITS[k]
    seen = []
    token = [(0, 0)]

    def bool_to_ranges(self, matches):
        seen.append(matches)
        return token
    v.patch(v.mod("segments").DefaultSegment, "bool_to_ranges", bool_to_ranges)
    got = s.get_style_ranges(**CHOICES[k])
    if len(seen) != 1 or got is not token:
        v.inapplicable("get_style_ranges does not return what bool_to_ranges gives")
    v.ensure("one truth value for each byte", v.len(seen[0]) == m)
    i = v.int("i", 0)
    v.assume(i < m)
    v.ensure("exactly the bytes with all bits of the style", v.truth(seen[0], i) == (v.get(st, L(i)) & bits == bits))


@contract("C14", functions=["DefaultSegment.bool_to_ranges"], loops={"segments.DefaultSegment.bool_to_ranges#0": inv_ranges})
def c14_runs(v):
    """The ranges for an array of truth values of any length are its maximal runs of true ones, in order, and every true one is in one of them."""
    v.probes(100)
    m = v.int("m", 0)
    f = v.bits("matches", m)
    seg = v.mod("segments")
    s = seg.DefaultSegment(seg.SegmentData(v.np.zeros(1, dtype=v.np.uint8)), 0)
    got = s.bool_to_ranges(f == 1)

    def hit(i):
        return v.get(f, i) == 1
    which = v.choice("claim", ["maximal", "order", "complete"])
    ng = v.len(got)
    if which == "complete":
        p = v.int("p", 0)
        v.assume(p < m)
        v.assume(hit(p))

        def at():
            w, c = v.positions(2)
            x = w[2](p)
            if v.And(c[0] > 0, c[1](0) <= x - 1):
                return c[3](x - 1) + 1
            return x * 0
        v.exists("every true one is in a range", 0, ng, lambda j: v.And(v.get2(got, j)[0] <= p, p < v.get2(got, j)[1]), hint=at)
        return
    j = v.int("j", 0)
    v.assume(j < ng)
    a, e = v.get2(got, j)
    if which == "maximal":
        v.ensure("ranges are not empty and within the array", v.And(a >= 0, a < e, e <= m))
        i = v.int("i", 0)
        v.assume(i < m)
        if v.symbolic:
            w, c = v.positions(2)
            x = w[3](i)
            c[2](x)
            w[2](i)
        if v.true(v.And(i >= a, i < e)):
            v.ensure("everything in a range is true", hit(i))
        elif v.true(v.Or(i == a - 1, i == e)):
            v.ensure("the neighbours of a range are false", v.Not(hit(i)))
    else:
        v.assume(j + 1 < ng)
        a2, e2 = v.get2(got, j + 1)
        v.ensure("ranges come in order", e < a2)


def ranges(v, nmax):
    n = v.choice("len", list(range(1, nmax + 1)))
    form = v.choice("form", ["base", "slice", "indexed"])
    SD = v.mod("segments").SegmentData
    k = v.choice("kw", [1, 5])
    big = n + 2
    st = v.bytes("style", big if form != "base" else n)
    d = v.np.zeros(v.len(st), dtype=v.np.uint8)
    b = SD(d, st)
    if form == "base":
        r, L = b, lambda i: i
    elif form == "slice":
        r, L = b[1:n + 1], lambda i: i + 1
    else:
        o = [(i * 2 + 1) % big if big % 2 else big - 1 - i for i in range(n)]
        r, L = b.get_indexed(o), lambda i: o[i]
    s = v.mod("segments").DefaultSegment(r, 0)
    bits = BITS[k]
    got = s.get_style_ranges(**CHOICES[k])
    hit = [v.true(v.get(st, L(i)) & bits == bits) for i in range(n)]
    want, run = [], None
    for i in range(n + 1):
        h = i < n and hit[i]
        if h and run is None:
            run = i
        elif not h and run is not None:
            want.append((run, i))
            run = None
    v.ensure("as many ranges as maximal runs", v.len(got) == len(want))
    for j in range(len(want)):
        a, e = got[j]
        v.ensure("each maximal run", v.And(a == want[j][0], e == want[j][1]))


@contract("C14", functions=["DefaultSegment.get_style_ranges", "DefaultSegment.bool_to_ranges"], bounded="segments of up to 5 bytes, every style of every byte (any length: c14_matches, c14_runs)")
def c14_ranges(v):
    """The ranges reported for a style are exactly the maximal runs of bytes that carry all its bits."""
    ranges(v, 5)


@contract("C14", functions=["DefaultSegment.get_style_ranges", "DefaultSegment.bool_to_ranges"], bounded="segments of up to 8 bytes, every style of every byte (any length: c14_matches, c14_runs)", tier="thorough")
def c14_ranges_8(v):
    """The ranges reported for a style are exactly the maximal runs of bytes that carry all its bits."""
    ranges(v, 8)


# -- comments

def comments(v, b, n, tag="comments"):
    """an arbitrary map from base positions to comments; f(p) is 0 if position p has none"""
    f = v.bytes(tag, n)
    v.setmap(b.extra.comments, f, n)
    return f


def has(v, b, p):
    """the comment at base position p, 0 if there is none"""
    c = b.extra.comments
    return c[p] if p in c else 0


def inv_set_comment(s):
    """the first bytes of the first k ranges have the comment"""
    from pyvc.containers import SymList
    seg = s["self"]
    c = seg.rawdata.extra.comments
    old = s.ghost("old", c.copy)
    rr = s["ranges"]
    starts = s.ghost("starts", lambda: SymList(lambda j: (rr.get(j)[0], rr.get(j)[0] + 1), rr.slen()))
    hit = some(s, seg, starts, s.k)
    s.dict(c, lambda q: s.Or(hit(q), old.has_expr(q)), lambda q: s["text"] if hit(q) else old[q])


@contract("C14", functions=["DefaultSegment.set_comment", "DefaultSegment.set_comment_at", "DefaultSegment.get_comment"],
          loops={"segments.DefaultSegment.set_comment#0": inv_set_comment, "segments.DefaultSegment.set_style_ranges#0": inv_mark(setbits, "style_bits")})
def c14_comment(v):
    """Setting a comment on any number of ranges puts the text at the first byte and the mark on every byte of the ranges; all other comments and
    styles and the data stay."""
    s, b, d, st, n, m, L = setup(v)
    d0, s0 = v.copy(d), v.copy(st)
    f = comments(v, b, n)
    nr = v.int("nr", 0)
    v.assume(m > 0)
    rr = v.pairs("rr", nr, m, first=m - 1)
    s.set_comment(rr, 300)
    j = v.int("j", 0)
    q = v.int("q", 0)
    v.assume(v.And(j < nr, q < n))
    a, e = v.get2(rr, j)
    v.ensure("the comment is there", s.get_comment(a) == 300)
    v.forall("marks", v.Ite(a <= e, a, e), v.Ite(a <= e, e, a), lambda i: v.get(st, L(i)) == v.get(s0, L(i)) | 0x40)
    c = has(v, b, q)
    if not v.true(c == v.get(f, q)):
        v.ensure("no other text", c == 300)
        v.exists2("other comments stay", nr, m, lambda j, i: v.And(L(i) == q, i == v.get2(rr, j)[0]))
    v.ensure("the data is unchanged", v.get(d, q) == v.get(d0, q))
    if not v.true(v.get(st, q) == v.get(s0, q)):
        v.exists2("only bytes in the ranges are marked", nr, m, lambda j, i: v.And(L(i) == q, within(v, rr, j, i)))


@contract("C14", functions=["DefaultSegment.remove_comment"])
def c14_remove(v):
    """Removing the comment of a byte removes that comment, if any, and no other."""
    s, b, d, st, n, m, L = setup(v)
    f = comments(v, b, n)
    i = v.int("i", 0)
    v.assume(i < m)
    s.remove_comment(i)
    v.ensure("no comment there", s.get_comment(i) == "")
    q = v.int("q", 0)
    v.assume(q < n)
    v.ensure("other comments stay", has(v, b, q) == v.Ite(q == L(i), 0, v.get(f, q)))


def at(s, seg, lo, hi):
    """q -> is base position q an element lo <= i < hi of the segment"""
    r = seg.rawdata
    if r.is_indexed:
        o = r.order.getter()
        return lambda q: s.exists(1, lambda i: s.And(i >= lo, i < hi, o(i) == q))
    first = seg.get_raw_index(0)
    return lambda q: s.And(q - first >= lo, q - first < hi)


def some(s, seg, rr, n):
    """q -> is base position q an element of one of the first n ranges (pairs in order)"""
    r = seg.rawdata
    if r.is_indexed:
        o = r.order.getter()
        return lambda q: s.covered(rr, q, o)
    first = seg.get_raw_index(0)
    return lambda q: s.covered(rr, q - first)


def inv_clear_ranges(s):
    """the comments of the first k ranges are gone, the others are there"""
    seg = s["self"]
    c = seg.rawdata.extra.comments
    old = s.ghost("old", c.copy)
    hit = some(s, seg, s["ranges"], s.k)
    s.dict(c, lambda q: s.And(old.has_expr(q), s.Not(hit(q))), lambda q: old[q])


def inv_clear_comment(s):
    """the comments of the first k bytes of the range are gone, the others are there"""
    seg = s["self"]
    c = seg.rawdata.extra.comments
    old = s.ghost("old", c.copy)
    a = s["start"]
    hit = at(s, seg, a, a + s.k)
    s.dict(c, lambda q: s.And(old.has_expr(q), s.Not(hit(q))), lambda q: old[q])


@contract("C14", functions=["DefaultSegment.clear_comment"],
          loops={"segments.DefaultSegment.clear_comment#0": inv_clear_ranges, "segments.DefaultSegment.clear_comment#1": inv_clear_comment,
                 "segments.DefaultSegment.clear_style_ranges#0": inv_mark(mask, "style_mask")})
def c14_clear_comment(v):
    """Clearing the comments of any number of ranges removes the comment and the mark of every byte of the ranges and of no other."""
    s, b, d, st, n, m, L = setup(v)
    d0, s0 = v.copy(d), v.copy(st)
    f = comments(v, b, n)
    nr = v.int("nr", 0)
    rr = v.pairs("rr", nr, m, ordered=True)
    s.clear_comment(rr)
    j = v.int("j", 0)
    v.assume(j < nr)
    a, e = v.get2(rr, j)
    i = v.int("i", 0)
    v.assume(v.And(i >= a, i < e))
    v.ensure("no comment left in the ranges", s.get_comment(i) == "")
    v.ensure("no mark left in the ranges", v.get(st, L(i)) == v.get(s0, L(i)) & 0xbf)
    q = v.int("q", 0)
    v.assume(q < n)
    v.ensure("the data is unchanged", v.get(d, q) == v.get(d0, q))
    if not v.true(has(v, b, q) == v.get(f, q)):
        v.exists2("only comments in the ranges are removed", nr, m, lambda j, i: v.And(L(i) == q, within(v, rr, j, i)))
        v.ensure("removed, not replaced", has(v, b, q) == 0)


def inv_save(s):
    """the items of the first k bytes of the range are recorded"""
    seg = s["self"]
    c = s.ghost("comments", seg.rawdata.extra.comments.copy)
    a = s["start"]

    def val(i):
        raw = seg.get_raw_index(i)
        return (raw, c[raw]) if raw in c else (raw, None)
    s.dict(s["items"], lambda i: s.And(i >= a, i < a + s.k), val, keys=lambda i: s.And(i >= a, i < s["end"]))


def inv_save_ranges(s):
    """the first k ranges are recorded"""
    from pyvc.containers import Arr
    from pyvc.loops import Map
    seg = s["self"]
    r = seg.rawdata
    rr = s["ranges"]
    c = s.ghost("comments", r.extra.comments.copy)
    g = s.ghost("style", lambda: (r.style.np_data if r.is_indexed else r.style).copy()).getter()
    o = r.order.getter() if r.is_indexed else None

    def make(j):
        a, e = rr.get(j)

        def val(i):
            raw = seg.get_raw_index(i)
            return (raw, c[raw]) if raw in c else (raw, None)
        return a, e, Arr(e - a, lambda i: g(o(a + i) if o else a + i)), Map(lambda i: s.And(i >= a, i < e), val)
    s.tuples(s["restore_data"], s.k, make)


def inv_restore_ranges(s):
    """styles and comments of the first k ranges are those saved, the others as before"""
    seg = s["self"]
    r = seg.rawdata
    c = r.extra.comments
    st = r.style.np_data if r.is_indexed else r.style
    old = s.ghost("old", c.copy)
    g1 = s.ghost("style", st.copy).getter()
    saved, style = s.run.cache["saved comments"], s.run.cache["saved style"]
    first = 0 if r.is_indexed else seg.get_raw_index(0)
    hit = some(s, seg, s.run.cache["ranges"], s.k)
    s.array(st, lambda q: s.Ite(hit(q + first), style(q + first), g1(q)))
    s.dict(c, lambda q: s.Or(s.And(hit(q), saved(q) > 0), s.And(s.Not(hit(q)), old.has_expr(q))),
           lambda q: saved(q) if hit(q) else old[q])


def inv_restore(s):
    """the comments of the first k bytes of the range are those saved, the others as before"""
    seg = s["self"]
    c = seg.rawdata.extra.comments
    old = s.ghost("old", c.copy)
    a = s["start"]
    saved = s.run.cache["saved comments"]
    hit = at(s, seg, a, a + s.k)
    s.dict(c, lambda q: s.Or(s.And(hit(q), saved(q) > 0), s.And(s.Not(hit(q)), old.has_expr(q))),
           lambda q: saved(q) if hit(q) else old[q])


def undo(v, form):
    s, b, d, st, n, m, L = setup(v, [form])
    d0, s0 = v.copy(d), v.copy(st)
    f = comments(v, b, n)
    nr = v.int("nr", 0)
    rr = v.pairs("rr", nr, m, ordered=True)
    saved = s.get_comment_restore_data(rr)
    # anything may happen to styles and comments in between
    st1 = v.bytes("style1", n)
    st[:] = st1
    b.extra.comments.clear()
    f1 = comments(v, b, n, "comments1")
    v.note("saved comments", f)
    v.note("saved style", s0)
    v.keep("ranges", rr)
    s.restore_comments(saved)
    q = v.int("q", 0)
    v.assume(q < n)
    v.ensure("the data is unchanged", v.get(d, q) == v.get(d0, q))
    j = v.int("j", 0)
    i = v.int("i", 0)
    v.assume(v.And(j < nr, i < m))
    a, e = v.get2(rr, j)
    if v.true(v.And(i >= a, i < e)):
        v.ensure("the styles are back", v.get(st, L(i)) == v.get(s0, L(i)))
        v.ensure("the comments are back", has(v, b, L(i)) == v.get(f, L(i)))
    if not v.true(has(v, b, q) == v.get(f1, q)):
        v.exists2("comments elsewhere stay", nr, m, lambda j, i: v.And(L(i) == q, within(v, rr, j, i)))
    if not v.true(v.get(st, q) == v.get(st1, q)):
        v.exists2("styles elsewhere stay", nr, m, lambda j, i: v.And(L(i) == q, within(v, rr, j, i)))


def _undo(form):
    def f(v):
        undo(v, form)
    f.__name__ = "c14_undo_" + form
    f.__doc__ = """Restoring saved comment data brings back the styles and comments of any number of ranges, whatever happened to styles and comments in
    between, and changes nothing else (view of the form: %s).""" % form
    contract("C14", functions=["DefaultSegment.get_comment_restore_data", "DefaultSegment.restore_comments"],
             loops={"segments.DefaultSegment.get_comment_restore_data#0": inv_save_ranges, "segments.DefaultSegment.get_comment_restore_data#1": inv_save,
                    "segments.DefaultSegment.restore_comments#0": inv_restore_ranges, "segments.DefaultSegment.restore_comments#1": inv_restore})(f)


for _f in ("base", "slice", "indexed"):
    _undo(_f)
