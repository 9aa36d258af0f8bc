"""C04: the allocation table."""
from pyvc.api import contract
from pyvc.contracts.disk import Geo, image


def dos33header(v):
    h = v.mod("dos33").Dos33Header()
    h.check_size(143360)
    return h


class Tab:
    """a VTOC object over arbitrary bytes of its sector"""
    def __init__(self, v, kind, sizes=(92160, 133120, 183936)):
        self.v, self.kind = v, kind
        seg = v.mod("segments")
        if kind == "atari":
            self.h = v.mod("ataridos").AtrHeader()
            self.h.check_size(v.choice("size", list(sizes)))
            self.cls = v.mod("ataridos").AtariDosVTOC
            self.num, self.sector = 720, 360
        else:
            self.h = dos33header(v)
            self.cls = v.mod("dos33").Dos33VTOC
            self.num, self.sector = 560, 272
        self.ss = self.h.sector_size
        self.b = v.bytes("vtoc", self.ss)
        self.seg = seg.DefaultSegment(seg.SegmentData(v.copy(self.b)))

    def open(self):
        return self.cls(self.h, [self.seg])

    def bit(self, b, s, mod=None):
        """what the table says about sector s: 1 is free; mod is s % 16 if that is a known number"""
        v = self.v
        if mod is not None:
            y = (s - mod) // 16
            at, k = (10 + 2 * y + mod // 8, 7 - mod % 8) if self.kind == "atari" else (0x38 + 4 * y + (0 if mod >= 8 else 1), mod % 8)
            return (v.get(b, at) // (1 << k)) % 2
        if self.kind == "atari":
            at, k = 10 + s // 8, 7 - s % 8
        else:
            t, q = s // 16, s % 16
            at, k = 0x38 + 4 * t + v.Ite(q >= 8, 0, 1), q % 8
        x = v.get(b, at)
        out = 0
        for j in range(8):
            out = v.Ite(k == j, (x // (1 << j)) % 2, out)
        return out

    def in_map(self, p):
        """does byte p of the sector belong to the bit map"""
        v = self.v
        if self.kind == "atari":
            return v.And(p >= 10, p < 100)
        return v.And(p >= 0x38, (p - 0x38) % 4 < 2)


@contract("C04", functions=["AtariDosVTOC.parse_segments", "Dos33VTOC.parse_segments"])
def c04_parse(v):
    """The table read from any VTOC sector says of every sector of the disk what its bit in the map says."""
    t = Tab(v, v.choice("kind", ["atari", "dos33"]))
    vt = t.open()
    v.ensure("the table is large enough", v.len(vt.sector_map) >= t.num)
    v.forall("one entry per bit", 0, t.num, lambda s: v.get(vt.sector_map, s) == t.bit(t.b, s))
    if t.kind == "atari":
        v.forall("nothing else is free", t.num, v.len(vt.sector_map), lambda s: v.get(vt.sector_map, s) == 0)
    v.forall("the image is left alone", 0, t.ss, lambda p: v.get(t.seg.data, p) == v.get(t.b, p))


@contract("C04", functions=["AtariDosVTOC.calc_bitmap", "Dos33VTOC.calc_bitmap"])
def c04_store(v):
    """Storing any table sets exactly the bits of the map and the count of free sectors (Atari DOS), and the sector that will be written is the VTOC
    sector with these bytes; reading it again gives the same table."""
    t = Tab(v, v.choice("kind", ["atari", "dos33"]))
    vt = t.open()
    n = v.len(vt.sector_map)
    m = v.bits("map", n)
    vt.sector_map[:] = v.copy(m)
    vt.calc_bitmap()
    v.ensure("one sector is to be written", v.len(vt.sectors) == 1)
    s = vt.sectors[0]
    v.ensure("the VTOC sector", s.sector_num == t.sector)
    v.ensure("of full size", v.len(s.data) == t.ss)
    y = v.int("y", 0)
    v.assume(y < t.num // 16)
    k = v.choice("k", list(range(16)))
    x = 16 * y + k
    v.ensure("the map has the sector's entry", t.bit(s.data, x, k) == v.get(m, x))
    if t.kind == "atari":
        v.ensure("free sector count", v.get(s.data, 3) + 256 * v.get(s.data, 4) == v.count(m[0:720]))
    seg = v.mod("segments")
    again = t.cls(t.h, [seg.DefaultSegment(seg.SegmentData(s.data))])
    v.ensure("read back", v.get(again.sector_map, x) == v.get(m, x))


@contract("C04", functions=["AtariDosVTOC.calc_bitmap", "Dos33VTOC.calc_bitmap"])
def c04_store_rest(v):
    """Storing any table leaves the bytes of the VTOC sector that belong neither to the map nor to the free sector count as they were."""
    t = Tab(v, v.choice("kind", ["atari", "dos33"]))
    vt = t.open()
    vt.sector_map[:] = v.bits("map", v.len(vt.sector_map))
    vt.calc_bitmap()
    s = vt.sectors[0]
    q = v.int("q", 0)
    v.assume(q < t.ss // 4)
    c = v.choice("c", [0, 1, 2, 3])
    p = 4 * q + c
    if t.kind == "atari":
        keep = v.And(v.Not(t.in_map(p)), p != 3, p != 4)
    else:
        keep = v.Or(p < 0x38, c >= 2)
    v.ensure("the rest of the sector is as before", v.Implies(keep, v.get(s.data, p) == v.get(t.b, p)))


def table(v, sizes=(133120,)):
    """VTOC object with any table"""
    t = Tab(v, v.choice("kind", ["atari", "dos33"]), sizes)
    vt = t.open()
    n = v.len(vt.sector_map)
    m = v.bits("map", n)
    vt.sector_map[:] = v.copy(m)
    return t, vt, m, n


@contract("C04", functions=["VTOC.get_next_free_sector"])
def c04_next(v):
    """A request for a sector yields one that was free and marks that one used and no other; it fails with the library's error only if none is free."""
    t, vt, m, n = table(v)
    o = v.call(vt.get_next_free_sector)
    if o.ok:
        v.cover("found")
        s = o.value
        v.ensure("a sector of the table", v.And(s >= 0, s < n))
        v.ensure("it was free", v.get(m, s) == 1)
        v.forall("exactly it is marked used", 0, n, lambda i: v.get(vt.sector_map, i) == v.Ite(i == s, 0, v.get(m, i)))
    else:
        v.cover("none")
        v.ensure("the library's error", o.raised("NotEnoughSpaceOnDisk"))
        v.forall("no sector is free", 0, n, lambda i: v.get(m, i) == 0)
        v.forall("the table is as before", 0, n, lambda i: v.get(vt.sector_map, i) == v.get(m, i))


class Reserve:
    """ghost of reserve_space: the sectors found so far"""
    def __init__(self, v, n, m):
        self.v, self.m, self.n = v, m, n
        self.O, self.X = v.spec("order"), v.spec("where")

    def member(self, k, s):
        v = self.v
        i = self.X(s)
        return v.And(i >= 0, i < k, self.O(i) == s)

    def free(self, k, s):
        return self.v.Ite(self.member(k, s), 0, self.v.get(self.m, s))


def l_reserve(st):
    g = st.run.cache["reserve"]
    v, k = g.v, st.k
    order = st["order"]
    st.dead("i")
    if st.phase == "preserved":
        # the sector found in this iteration becomes order(k - 1)
        new = order.get(k - 1)
        st.require("the new sector is not one of the earlier ones", v.Not(g.member(k - 1, new)))
        st.require("it was free", v.And(new >= 0, new < g.n, v.get(g.m, new) == 1))
        v.run.assume(v.And(g.O(k - 1) == new, g.X(new) == k - 1))
    st.list(order, k, g.O)
    st.array(st["self"].sector_map, lambda s: g.free(k, s))
    st.forall("the sectors found were free and are different", 0, k, lambda j: v.And(g.O(j) >= 0, g.O(j) < g.n, v.get(g.m, g.O(j)) == 1, g.X(g.O(j)) == j), pattern=lambda j: g.O(j).e)


@contract("C04", functions=["VTOC.reserve_space"], loops={"utils.VTOC.reserve_space#0": l_reserve})
def c04_reserve(v):
    """Reserving any number of sectors returns that many different sectors that were free, marks exactly these used and stores the table; if there are
    not enough the library's error is raised."""
    t, vt, m, n = table(v)
    num = v.int("num", 0)
    g = Reserve(v, n, m)
    if v.symbolic:
        v.run.cache["reserve"] = g
    stored = []
    v.patch(t.cls, "calc_bitmap", lambda self: stored.append(v.copy(self.sector_map)))
    if not v.cut and v.symbolic:
        num = v.upto(num, 3)
    o = v.call(vt.reserve_space, num)
    if not o.ok:
        v.cover("no space")
        v.ensure("the library's error", o.raised("NotEnoughSpaceOnDisk"))
        v.forall("no free sector is left", 0, n, lambda i: v.get(vt.sector_map, i) == 0)
        return
    order = o.value
    v.ensure("as many as asked for", v.len(order) == num)
    v.forall("free before", 0, num, lambda j: v.And(v.get(order, j) >= 0, v.get(order, j) < n, v.get(m, v.get(order, j)) == 1))
    v.forall("used now", 0, num, lambda j: v.get(vt.sector_map, v.get(order, j)) == 0)
    v.forall("no others are marked", 0, n, lambda s: v.Implies(v.get(vt.sector_map, s) != v.get(m, s), g.member(num, s) if v.cut else v.Or(*[v.get(order, j) == s for j in range(num)])))
    j = v.int("j", 0)
    i = v.int("i", 0)
    v.assume(v.And(i < j, j < num))
    v.ensure("no sector twice", v.get(order, i) != v.get(order, j))
    if v.ensure("the table is stored", len(stored) > 0):
        v.forall("as it is at the end", 0, n, lambda s: v.get(stored[-1], s) == v.get(vt.sector_map, s))


def l_free(st):
    g = st.run.cache["free"]
    st.dead("sector", "num")
    st.array(st["self"].sector_map, lambda s: g.v.Ite(g.member(st.k, s), 1, g.v.get(g.m, s)))
    st.forall("the sectors so far are sectors of the disk", 0, st.k, lambda j: g.ok(g.num(j)), pattern=lambda j: g.num(j).e)


class Thing:
    pass


@contract("C04", functions=["VTOC.free_sector_list"], loops={"utils.VTOC.free_sector_list#0": l_free})
def c04_free(v):
    """Releasing any list of sectors marks exactly these free and stores the table; a number that is no sector of the disk or of the table raises the
    sector error."""
    t, vt, m, n = table(v, (92160, 133120, 183936))
    k = v.int("count", 0)
    num, idx, member = v.seq("num", k, -1, 70000, distinct=False)
    g = Thing()
    lab = t.h.starting_sector_label
    g.v, g.m, g.num, g.member = v, m, num, member
    g.ok = lambda s: v.And(s >= lab, s < lab + t.h.max_sectors, s < n)
    if v.symbolic:
        v.run.cache["free"] = g
    W = v.mod("utils").WriteableSector
    sl = v.mod("utils").BaseSectorList(t.h)
    sl.sectors = v.objlist(k, lambda j: W(t.ss, None, num(j)))
    stored = []
    v.patch(t.cls, "calc_bitmap", lambda self: stored.append(v.copy(self.sector_map)))
    o = v.call(vt.free_sector_list, sl)
    if not o.ok:
        v.cover("refused")
        v.ensure("the sector error", o.raised("ByteNotInFile166"))
        v.exists("only for a number outside the disk", 0, k, lambda j: v.Not(g.ok(num(j))))
        return
    v.forall("every number is a sector of the disk", 0, k, lambda j: g.ok(num(j)))
    v.forall("exactly these sectors become free", 0, n, lambda s: v.get(vt.sector_map, s) == v.Ite(member(k, s), 1, v.get(m, s)))
    if v.ensure("the table is stored", len(stored) > 0):
        v.forall("as it is at the end", 0, n, lambda s: v.get(stored[-1], s) == v.get(vt.sector_map, s))
