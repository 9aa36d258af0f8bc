"""C15: saved segments and sessions."""
from pyvc.api import contract
from pyvc.contracts.c13 import anybase, anyview, observers
from pyvc.contracts.c14 import comments, has

CLASSES = ["DefaultSegment", "ObjSegment", "SegmentedFileSegment", "RawSectorsSegment", "RawTrackSectorSegment", "EmptySegment"]
ATTRS = ["origin", "error", "name", "verbose_name", "page_size", "map_width", "uuid", "can_resize"]
EXTRA = {"ObjSegment": ["metadata_start", "data_start"], "RawSectorsSegment": ["boot_sector_size", "num_boot_sectors", "page_size", "first_sector", "num_sectors"]}
EXTRA["SegmentedFileSegment"] = EXTRA["ObjSegment"]
EXTRA["RawTrackSectorSegment"] = EXTRA["RawSectorsSegment"]


def make(v, cname, r, tag=""):
    cls = getattr(v.mod("segments"), cname)
    x = [v.int("attr%d%s" % (i, tag)) for i in range(6)]
    kw = dict(name=v.choice("name" + tag, ["All", "x"]), error=v.choice("error" + tag, [None, "bad"]), verbose_name=v.choice("verbose" + tag, [None, "long name"]))
    if cname == "DefaultSegment":
        s = cls(r, x[0], memory_map=v.choice("map", [None, {1: "a", 300: "b"}, {7 * k + 1: "m%d" % k for k in range(44)}]), **kw)
    elif cname == "EmptySegment":
        s = cls(r, kw["name"], kw["error"])
    elif cname in ("ObjSegment", "SegmentedFileSegment"):
        s = cls(r, x[0], x[1], x[2], **kw)
    else:
        s = cls(r, x[0], x[1], x[2], x[3], x[4], x[5], **kw)
    s.map_width = v.int("width" + tag)
    if cname not in ("RawSectorsSegment", "RawTrackSectorSegment"):
        s.page_size = v.int("page" + tag)
    s.can_resize = v.choice("resize" + tag, [False, True])
    return s


def save_restore(v, cname, forms):
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n, forms=forms)
    s = make(v, cname, r)
    state = s.__getstate__()
    for k in state:
        v.ensure("the saved state consists of plain values", v.plain(state[k]))
    t = s.__class__.__new__(s.__class__)
    t.__setstate__(state)
    fresh = v.choice("onto", ["same", "copy"])
    if fresh == "copy":
        # the same data in a new container
        d = v.copy(d)
        st = v.copy(st)
        b = v.mod("segments").SegmentData(d, st)
    t.reconstruct_raw(b)
    for a in ATTRS + EXTRA.get(cname, []):
        v.ensure("attribute " + a, getattr(t, a) == getattr(s, a))
    v.ensure("same address map", v.And(v.len(t.memory_map) == v.len(s.memory_map), *[t.memory_map.get(k) == s.memory_map.get(k) for k in s.memory_map]))
    v.ensure("same length", v.len(t.rawdata) == m)
    q = t.rawdata
    v.forall("denotes the same base positions", 0, m, lambda i: q.get_raw_index(i) == L(i))
    v.forall("same bytes", 0, m, lambda i: v.And(t.data[i] == v.get(d, L(i)), t.style[i] == v.get(st, L(i))))
    if cname != "EmptySegment":
        v.ensure("length of the segment", v.len(t) == m)
    if v.true(m > 0):
        i = v.int("i", 0)
        v.assume(i < m)
        x = v.int("x", 0, 255)
        t[i] = x
        v.ensure("the restored segment is a view of the base", v.get(d, L(i)) == x)


def _mk(cname):
    def f(v):
        save_restore(v, cname, ["base", "slice", "indexed"])
    f.__name__ = "c15_" + cname
    f.__doc__ = """A %s over any form of view that is saved and restored onto the same data has the same attributes and denotes the same bytes; it is a
    view of the base again.""" % cname
    contract("C15", functions=["DefaultSegment.__getstate__", "DefaultSegment.__setstate__", "DefaultSegment.reconstruct_raw"])(f)


for _c in CLASSES:
    _mk(_c)


@contract("C15", functions=["DefaultSegment.restore_renamed_serializable_attributes"])
def c15_renamed(v):
    """State saved before the origin attribute got its present name is restored with that origin."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    s = make(v, "ObjSegment", r)
    state = s.__getstate__()
    state["start_addr"] = state.pop("origin")
    t = s.__class__.__new__(s.__class__)
    t.__setstate__(state)
    t.reconstruct_raw(b)
    v.ensure("origin", t.origin == s.origin)
    v.forall("same base positions", 0, m, lambda i: t.rawdata.get_raw_index(i) == L(i))


@contract("C15", functions=["SegmentParser.__getstate__", "SegmentParser.__setstate__", "SegmentParser.reconstruct_segments", "DefaultSegmentParser", "XexSegment", "RunAddressSegment", "XexContainerSegment"])
def c15_parser(v):
    """A parser that is saved and restored with its segments (the whole data, a slice or an index list, an empty one) onto the same data has the
    same segments, each denoting the same bytes."""
    b, d, st, n = anybase(v)
    r, m, L = anyview(v, b, n)
    P = v.mod("parsers")
    A = v.mod("ataridos")
    seg = v.mod("segments")
    kind = v.choice("kind", ["plain", "xex", "disk"])
    if kind == "plain":
        p = P.DefaultSegmentParser(b, True)
        want = [(n, lambda i: i)]
    else:
        class Image:
            def __init__(self, raw):
                self.raw = raw

            def strict_check(self):
                pass

            def parse_segments(self):
                if kind == "xex":
                    self.segments = [A.XexSegment(r, 1, 2, 3, name="part"), A.RunAddressSegment(b[0:0], 4, 5, 6, name="run")]
                else:
                    self.segments = [seg.RawSectorsSegment(r, 1, 2, 3, 128, 3, 128, name="sectors"), seg.EmptySegment(b[0:0], "none")]
        cls = P.XexSegmentParser if kind == "xex" else P.AtariDosSegmentParser
        v.patch(cls, "image_type", Image)
        p = cls(b, True)
        want = [(n, lambda i: i), (m, L), (0, lambda i: i)]
    state = p.__getstate__()
    saved = [(s.__class__, s.__getstate__()) for s in state["segments"]]
    strict = state["strict"]
    v.ensure("segments", v.And(len(saved) == len(want), v.plain(strict)))
    for _, x in saved:
        for k in x:
            v.ensure("the saved state consists of plain values", v.plain(x[k]))
    restored = []
    for cls, x in saved:
        t = cls.__new__(cls)
        t.__setstate__(x)
        restored.append(t)
    q = p.__class__.__new__(p.__class__)
    state["segments"] = restored
    q.__setstate__(state)
    d2, st2 = v.copy(d), v.copy(st)
    q.reconstruct_segments(seg.SegmentData(d2, st2))
    v.ensure("strictness", q.strict == p.strict)
    v.ensure("as many segments", len(q.segments) == len(want))
    for k, (count, at) in enumerate(want):
        s, t = p.segments[k], q.segments[k]
        v.ensure("same length", v.len(t.rawdata) == count)
        v.forall("denotes the same base positions", 0, count, lambda i: t.rawdata.get_raw_index(i) == at(i))
        v.forall("same bytes", 0, count, lambda i: v.And(t.data[i] == v.get(d2, at(i)), t.style[i] == v.get(st2, at(i))))
        for a in ATTRS + list(s.extra_serializable_attributes):
            v.ensure("attribute " + a, getattr(t, a) == getattr(s, a))


def _bits(v, kw):
    return v.mod("segments").get_style_bits(**kw)


def stubs(v):
    """contracts of get_style_ranges and set_style_ranges, decided under C14"""
    seg = v.mod("segments").DefaultSegment

    def get(self, **kw):
        bits = _bits(v, kw)
        g = self.style.getter()
        return v.runs("runs", lambda i: g(i) & bits == bits, v.len(self))

    def set_(self, ranges, **kw):
        bits = _bits(v, kw)
        g = self.style.copy().getter()
        v.fill(self.style, lambda q: v.Ite(v.in_ranges(ranges, q), g(q) | bits, g(q)))
    v.stub(seg, "get_style_ranges", get)
    v.stub(seg, "set_style_ranges", set_)


def session(v, comments, forms=["base"]):
    b, d, st, n = anybase(v)
    seg = v.mod("segments")
    r, m, L = anyview(v, b, n, forms=forms)
    s = seg.DefaultSegment(r, 0)
    comments(b.extra.comments, n)
    md = {}
    s.serialize_session(md)
    d2 = v.copy(d)
    st2 = v.np.zeros(n, dtype=v.np.uint8)
    b2 = seg.SegmentData(d2, st2)
    if r is b:
        r2 = b2
    elif r.is_indexed:
        r2 = b2.get_indexed(v.copy(r.order))
    else:
        lo, hi = r.byte_bounds_offset()
        r2 = b2[lo:hi]
    t = seg.DefaultSegment(r2, 0)
    t.restore_session(md)
    q = v.int("q", 0)
    v.assume(q < m)
    return s, t, st, q, d, d2


@contract("C15", functions=["DefaultSegment.serialize_session", "DefaultSegment.restore_session"])
def c15_session_marks(v):
    """A session saved from a segment with any styles and restored onto one without has the same comment, data and user marks."""
    if v.symbolic:
        stubs(v)
    s, t, st, q, d, d2 = session(v, lambda c, n: None)
    v.ensure("comment, data and user marks", v.get(t.style, q) == v.get(s.style, q) & 0x47)
    v.ensure("data", v.get(t.data, q) == v.get(s.data, q))


def inv_comments(s):
    """the first k comments of the session are back"""
    from pyvc.containers import SymList
    it = s.loop.it
    if getattr(it, "key", None) is None:
        raise s.unfit("comments in another form")
    c = s["self"].rawdata.extra.comments
    old = s.ghost("old", c.copy)
    keys = s.ghost("keys", lambda: SymList(lambda j: (it.key(j), it.key(j) + 1), it.slen()))

    def hit(q):
        it.key(it.where(q))
        return s.covered(keys, q)
    text = s.run.cache["comments"]
    s.dict(c, lambda q: s.Or(hit(q), old.has_expr(q)), lambda q: text(q) if hit(q) else old[q])


def quiet(v):
    if v.symbolic:
        seg = v.mod("segments").DefaultSegment
        v.stub(seg, "get_style_ranges", lambda self, **kw: [])
        v.stub(seg, "set_style_ranges", lambda self, ranges, **kw: None)


@contract("C15", functions=["DefaultSegment.serialize_session", "DefaultSegment.restore_session", "DefaultSegment.get_sorted_comments"],
          loops={"segments.DefaultSegment.restore_session#0": inv_comments})
def c15_session_comments(v):
    """A session saved from a segment with any number of comments and restored onto one without comments has the same comments."""
    quiet(v)

    def put(c, n):
        f = v.bytes("comments", n)
        v.note("comments", f)
        v.setmap(c, f, n)
    s, t, st, q, d, d2 = session(v, put, ["base", "slice", "indexed"])
    v.ensure("comments", t.get_comment(q) == s.get_comment(q))


@contract("C15", functions=["DefaultSegment.serialize_session", "DefaultSegment.restore_session", "DefaultSegment.get_sorted_comments"],
          bounded="sessions with up to three comments, at any positions (any number: c15_session_comments)")
def c15_session_comments_3(v):
    """A session saved from a segment and restored onto one without comments has the same comments."""
    quiet(v)

    def put(c, n):
        for j in range(v.choice("ncomments", [0, 1, 2, 3])):
            p = v.int("c%d" % j, 0)
            v.assume(p < n)
            c[p] = "text%d" % j
    s, t, st, q, d, d2 = session(v, put, ["base", "slice", "indexed"])
    v.ensure("comments", t.get_comment(q) == s.get_comment(q))
