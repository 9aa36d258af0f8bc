"""C09: damaged images."""
from pyvc.api import contract
from pyvc.contracts.disk import Geo, image, DosGeo, dosimage


class Walk:
    """ghost of a walk along a chain of sectors: the sectors visited so far, in order.  They are different sectors of the disk, so there are at most
    as many as the disk has (the pigeonhole principle, applied by `bound`)."""
    def __init__(self, v, first, n, name=""):
        self.v, self.first, self.n = v, first, n
        self.O, self.X = v.spec("visited" + name), v.spec("when" + name)
        # bytes collected so far: n(k) of them, the j-th comes from position B(j)
        self.L, self.B = v.spec("collected" + name), v.spec("position" + name)
        if v.symbolic:
            v.run.assume(self.L(0) == 0)

    def member(self, k, s):
        v = self.v
        i = self.X(s)
        return v.And(i >= 0, i < k, self.O(i) == s)

    def valid(self, s):
        return self.v.And(s >= self.first, s < self.first + self.n)

    def visit(self, st, s):
        """the iteration that ends has visited s"""
        v, k = self.v, st.k
        st.require("a visited sector is a sector of the disk", self.valid(s))
        st.require("no sector is visited twice", v.Not(self.member(k - 1, s)))
        v.run.assume(v.And(self.O(k - 1) == s, self.X(s) == k - 1))

    def bound(self, st):
        """k different numbers out of n: k <= n"""
        if st.mode == "assume":
            st.run.assume(st.k <= self.n)

    def collect(self, st, lst, top):
        """the positions collected are positions of the image"""
        v, k, B, L = self.v, st.k, self.B, self.L
        if st.phase == "preserved":
            n0, n1 = L(k - 1), lst.slen()
            v.run.assume(L(k) == n1)
            v.run.ensure(st.name("what has been collected stays"), n1 >= n0)
            v.define(B, n0, n1, lambda j: lst.get(j))
        st.list(lst, L(k), B)
        st.require("length", L(k) >= 0)
        if top is not None:
            st.forall("the positions lie in the image", 0, L(k), lambda j: v.And(B(j) >= 0, B(j) < top), pattern=lambda j: B(j).e)


def lib(v, o):
    """a returned value or one of the library's own errors"""
    if not o.ok:
        v.cover("refused")
        v.ensure("only the library's errors", o.raised("AtrError"))
        return False
    v.cover("answered")
    return True


def walk(st, bytes=False):
    """the ghost of this walk"""
    v, g = st.run.cache["v"], st.run.cache["g"]
    return st.ghost("walk", lambda: Walk(v, g.label, g.max, st.run.fresh("walk")))


def l_file(st):
    w = walk(st)
    d = st["dirent"]
    old = w.cur if st.phase == "preserved" else None
    if st.phase == "preserved":
        w.visit(st, old)
    c = st.attr_fresh(d, "current_sector", 0, 65535)
    if st.phase == "assumed":
        w.cur = c
    st.require("the next sector has not been visited", st.Not(w.member(st.k, c)))
    st.set(d.sectors_seen, lambda s: w.member(st.k, s))
    w.collect(st, st["byte_order"], st.run.cache["g"].total)
    st.dead("bytes", "last", "pos", "size")
    w.bound(st)
    st.decreases(w.n - st.k)


def entry(v, im, g):
    """a directory entry with any contents"""
    A = v.mod("ataridos")
    cls = v.choice("entry", [A.AtariDosDirent, A.MydosDirent])
    d = cls(None, v.int("file number", 0, 63))
    d.in_use = v.choice("used", [True, False])
    d.starting_sector = v.int("start", 0, 65535)
    d.num_sectors = v.int("num", 0, 65535)
    d.is_sane = d.sanity_check(im)
    return d


# the geometries with which an image of a known size can be opened (proved by c09_open_atari): the regular ones, and those of a headerless image
# that happens to start with the ATR magic number or has the length of an image with a header
ODD = [("xfd+", 92160, 128), ("xfd", 133136, 128), ("xfd+", 183936, 256), ("xfd+", 184320, 256), ("atr", 92144, 128), ("atr", 133104, 128), ("atr", 133104, 256), ("atr", 183920, 128), ("atr", 183920, 256), ("atr", 183920, 384), ("atr", 184304, 128), ("atr", 184304, 256), ("atr", 184304, 384)]
KINDS = [("atr", 92160), ("xfd", 92160), ("atr", 133120), ("xfd", 133120), ("atr", 183936), ("xfd", 183936), ("atr", 184320), ("xfd", 184320)] + ODD


def atari(v, kinds=KINDS):
    g = Geo(v, kinds=kinds)
    im, b = image(v, g)
    if v.symbolic:
        v.run.cache.update(v=v, g=g)
    return g, im, b


def dos33(v):
    g = DosGeo(v)
    im, b = dosimage(v, g)
    if v.symbolic:
        v.run.cache.update(v=v, g=g, b=b)
    return g, im, b


@contract("C09", functions=["AtariDosDiskImage.get_file_segment", "AtariDosDirent.start_read", "AtariDosDirent.read_sector", "AtariDosDirent.process_raw_sector", "MydosDirent.process_raw_sector",
                            "DiskImageBase.get_file", "SegmentData.get_indexed"], loops={"ataridos.AtariDosDiskImage.get_file_segment#0": l_file})
def c09_read_atari(v):
    """Reading a file from any image with any directory entry ends, visits no sector twice, and returns bytes of the image or raises one of the
    library's errors; the image stays as it is."""
    g, im, b = atari(v)
    d = entry(v, im, g)
    judge(v, g, im, b, v.call(im.get_file_segment, d))


def judge(v, g, im, b, o):
    if lib(v, o):
        seg = o.value
        out = seg.tobytes()
        v.forall("bytes of the image", 0, v.len(out), lambda j: v.get(out, j) == v.get(b, seg.get_raw_index(j)))
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))


def l_release(st):
    w = walk(st)
    v = w.v
    d = st["self"]
    if st.phase == "preserved":
        w.visit(st, w.cur)
    c = st.attr_fresh(d, "current_sector", 0, 65535)
    if st.phase == "assumed":
        w.cur = c
    st.require("the next sector has not been visited", st.Not(w.member(st.k, c)))
    st.set(d.sectors_seen, lambda s: w.member(st.k, s))
    tail = st.opaque(st["sector_list"].sectors, st.k)
    if st.phase == "preserved":
        st.require("one sector is listed", len(tail) == 1)
        st.require("the sector visited", tail[0].sector_num == w.O(st.k - 1))
    st.dead("sector", "_", "last")
    w.bound(st)
    st.decreases(w.n - st.k)


@contract("C09", functions=["AtariDosDirent.get_sectors_in_vtoc", "AtariDosDirent.start_read", "AtariDosDirent.read_sector", "AtariDosDirent.process_raw_sector", "MydosDirent.process_raw_sector"],
          loops={"ataridos.AtariDosDirent.get_sectors_in_vtoc#0": l_release})
def c09_release_atari(v):
    """Listing the sectors of a file that is to be deleted, from any image with any entry, ends; it yields the sectors of the chain, each a sector of
    the disk and none twice, or raises one of the library's errors."""
    g, im, b = atari(v)
    d = entry(v, im, g)
    o = v.call(d.get_sectors_in_vtoc, im)
    if lib(v, o):
        lst = o.value
        if v.cut:
            tail = list(lst.sectors.tail)
            v.ensure("the last sector is one of the disk", v.And(len(tail) == 1, tail[0].sector_num >= 1, tail[0].sector_num <= g.max))
        else:
            v.forall("sectors of the disk", 0, v.len(lst.sectors), lambda j: v.And(lst.sectors[j].sector_num >= 1, lst.sectors[j].sector_num <= g.max))
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))


# ---------------------------------------------------------------- DOS 3.3

def l_pairs(st):
    v = st.run.cache["v"]
    d = st["self"].data
    st.require("entries so far", st.k <= 122)
    st.local("index", 12 + 2 * st.k)
    st.list(st["sector_list"], st.k, lambda j: v.get(d, 12 + 2 * j) * 16 + v.get(d, 13 + 2 * j))
    st.dead("t", "s")
    st.decreases(122 - st.k)


def l_tslist(st):
    w = walk(st)
    v = w.v
    if st.phase == "preserved":
        w.visit(st, w.cur)
    c = st.fresh("sector_num", 0, 255 * 17)
    if st.phase == "assumed":
        w.cur = c
    st.set(st["sectors_seen"], lambda s: w.member(st.k, s))
    w.collect(st, st["sector_map"], None)
    st.opaque(st["tslist"].sectors, st.k)
    st.dead("data", "_", "sector")
    w.bound(st)
    st.decreases(w.n - st.k)


def l_dosfile(st):
    w = walk(st)
    d = st["dirent"]
    st.attr(d, "current_sector_index", st.k)
    st.require("a sector is left", st.Or(st.k == 0, st.k < st.run.cache["v"].len(d.sector_map)))
    w.collect(st, st["byte_order"], 143360)
    st.dead("bytes", "last", "pos", "size")
    st.decreases(st.run.cache["v"].len(d.sector_map) - st.k + 1)


TS = {"dos33.Dos33TSSector.get_tslist#0": l_pairs, "dos33.Dos33Dirent.get_track_sector_list#0": l_tslist}


def dosentry(v, im):
    D = v.mod("dos33")
    d = D.Dos33Dirent(None, v.int("file number", 0, 104))
    d.track, d.sector = v.int("track", 0, 255), v.int("sector", 0, 255)
    d.num_sectors = v.int("num", 0, 65535)
    d._file_type = v.choice("type", [4, 0])
    d.is_sane = d.sanity_check(im)
    return d


@contract("C09", functions=["Dos33DiskImage.get_file_segment", "Dos33Dirent.start_read", "Dos33Dirent.get_track_sector_list", "Dos33TSSector.get_tslist", "Dos33Dirent.read_sector",
                            "Dos33Dirent.process_raw_sector", "Dos33Dirent.get_binary_start_address"],
          loops=dict(TS, **{"dos33.Dos33DiskImage.get_file_segment#0": l_dosfile}))
def c09_read_dos33(v):
    """Reading a file from any DOS 3.3 image with any catalog entry ends, visits no track/sector list twice, and returns bytes of the image or raises
    one of the library's errors; the image stays as it is."""
    g, im, b = dos33(v)
    d = dosentry(v, im)
    judge(v, g, im, b, v.call(im.get_file_segment, d))


def l_dosrelease(st):
    tail = st.opaque(st["sectors"].sectors)
    if st.phase == "preserved":
        st.require("one sector is listed", len(tail) == 1)
        w = st.run.cache["v"]
        st.require("the one of the map", tail[0].sector_num == w.get(st["self"].sector_map, st.k - 1))
    st.dead("sector_num", "sector")


@contract("C09", functions=["Dos33Dirent.get_sectors_in_vtoc", "Dos33Dirent.get_track_sector_list", "Dos33TSSector.get_tslist"],
          loops=dict(TS, **{"dos33.Dos33Dirent.get_sectors_in_vtoc#0": l_dosrelease}))
def c09_release_dos33(v):
    """Listing the sectors of a DOS 3.3 file that is to be deleted, from any image with any catalog entry, ends with a list or one of the library's errors."""
    g, im, b = dos33(v)
    d = dosentry(v, im)
    o = v.call(d.get_sectors_in_vtoc, im)
    lib(v, o)
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))


def l_cat(st):
    w = walk(st)
    if st.phase == "preserved":
        w.visit(st, w.cur)
    c = st.fresh("sector", 0, 255 * 17)
    if st.phase == "assumed":
        w.cur = c
    st.set(st["sectors_seen"], lambda s: w.member(st.k, s))
    st.fresh("num", 0, 7 * st.k)
    st.opaque(st["files"])
    st.attr_fresh(st["self"], "all_sane", 0, 1)
    st.dead("values", "style", "i", "dirent")
    w.bound(st)
    st.decreases(w.n - st.k)


def l_entries(st):
    num = st.ghost("num", lambda: st["num"])
    st.require("entries so far", st.k <= 7)
    st.local("i", 11 + 35 * st.k)
    st.local("num", num + st.k)
    st.opaque(st["files"])
    st.attr_fresh(st["self"], "all_sane", 0, 1)
    st.dead("dirent")
    st.decreases(7 - st.k)


@contract("C09", functions=["Dos33DiskImage.get_directory", "Dos33Dirent.parse_raw_dirent", "Dos33Dirent.sanity_check"],
          loops={"dos33.Dos33DiskImage.get_directory#0": l_cat, "dos33.Dos33DiskImage.get_directory#1": l_entries})
def c09_catalog_dos33(v):
    """Reading the catalog of any DOS 3.3 image ends, visits no catalog sector twice, and succeeds or raises one of the library's errors."""
    g, im, b = dos33(v)
    g.h.first_directory = v.int("first", 0, 255 * 17)
    o = v.call(im.get_directory)
    lib(v, o)
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))


@contract("C09", functions=["Dos33DiskImage.get_vtoc", "Dos33DiskImage.get_boot_sector_info", "Dos33Header.check_size", "DiskImageBase.get_sectors"])
def c09_open_dos33(v):
    """Opening any 143360 bytes as a DOS 3.3 image accepts them with a consistent geometry or raises one of the library's errors; a file of any other
    size is refused."""
    g, im, b = dos33(v)
    D = v.mod("dos33")
    im.read_header()
    n = v.int("size", 0)
    o = v.call(im.header.check_size, n)
    if v.true(n != 143360):
        v.cover("other size")
        v.ensure("another size is refused", o.raised("AtrError"))
        return
    v.ensure("size accepted", o.ok)
    o = v.call(im.get_boot_sector_info)
    if not lib(v, o):
        return
    o = v.call(im.get_vtoc)
    if lib(v, o):
        h = im.header
        v.ensure("sectors lie in the image", v.And(h.max_sectors >= 1, h.max_sectors <= 560, h.sector_size == 256))
        v.ensure("catalog lies on the disk", v.And(h.first_directory >= 0, h.first_directory < h.max_sectors))
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))


# ---------------------------------------------------------------- opening Atari DOS images

def l_dir(st):
    v = st.run.cache["v"]
    n = v.len(st["dir_bytes"])
    st.require("entries so far", 16 * st.k <= n)
    st.local("i", 16 * st.k)
    st.local("num", st.k)
    st.opaque(st["files"])
    st.attr_fresh(st["self"], "all_sane", 0, 1)
    if st.has("directory") and st["directory"] is not None:
        st.dict_open(st["directory"].dirents)
    st.dead("dirent")
    st.decreases(n - 16 * st.k)


def directory(v, kinds):
    g, im, b = atari(v, kinds)
    o = v.call(im.get_directory)
    lib(v, o)
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))


@contract("C09", functions=["AtariDosDiskImage.get_directory", "AtariDosDirent.parse_raw_dirent", "AtariDosDirent.sanity_check", "MydosDirent.__init__", "DiskImageBase.get_sectors"],
          loops={"ataridos.AtariDosDiskImage.get_directory#0": l_dir})
def c09_directory_atari(v):
    """Reading the directory of any Atari image ends and succeeds or raises one of the library's errors."""
    directory(v, [KINDS[0], KINDS[5], KINDS[2], ("atr", 133104, 256)])


@contract("C09", tier="thorough", functions=["AtariDosDiskImage.get_directory", "AtariDosDirent.parse_raw_dirent", "AtariDosDirent.sanity_check", "MydosDirent.__init__", "DiskImageBase.get_sectors"],
          loops={"ataridos.AtariDosDiskImage.get_directory#0": l_dir})
def c09_directory_atari_all(v):
    """The same for every geometry with which an image of a known size can be opened."""
    directory(v, KINDS)


@contract("C09", functions=["AtariDosDiskImage.read_header", "AtrHeader.__init__", "AtrHeader.check_size", "AtariDosDiskImage.get_vtoc", "AtariDosDiskImage.calc_vtoc_code", "DiskImageBase.get_sectors"])
def c09_open_atari(v):
    """Opening any bytes whose number is that of an Atari disk as an Atari DOS image accepts them with a geometry that lies in the image, or raises one
    of the library's errors."""
    g, im, b = atari(v, KINDS[:8])
    o = v.call(im.read_header)
    if not lib(v, o):
        return
    o = v.call(im.header.check_size, im.size - v.len(im.header))
    if not lib(v, o):
        return
    h = im.header
    o = v.call(im.get_vtoc)
    if lib(v, o):
        known = [(k, s, ss, s + (0 if k == "xfd" else 16)) for k, s, ss in ODD] + [(g.kind, g.size, g.ss, g.total)]
        v.ensure("the geometry is a known one", v.Or(*[v.And(v.len(h) == (16 if k == "atr" else 0), h.image_size == s, h.sector_size == ss, g.total == n) for k, s, ss, n in known]))
        last = v.call(h.get_pos, h.max_sectors)
        v.ensure("the last sector is found", last.ok)
        pos, size = last.value
        v.ensure("sectors lie in the image", v.And(pos >= 0, size > 0, pos + size <= g.total))
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))


# ---------------------------------------------------------------- SpartaDOS

def l_map(st):
    w = walk(st)
    v = w.v
    if st.phase == "preserved":
        w.visit(st, w.cur)
    c = st.fresh("sector", 0, 65535)
    if st.phase == "assumed":
        w.cur = c
    st.set(st["sectors_seen"], lambda s: w.member(st.k, s))
    if st.phase == "preserved":
        st.require("there is a map", hasattr(st["m"], "_n"))
    st.open("m", lambda: v.uints(st.run.fresh("map"), st.newint("length"), 65536, "uint16") if st.k > 0 else None)
    st.dead("b", "_", "prev")
    w.bound(st)
    st.decreases(w.n - st.k)


@contract("C09", functions=["SpartaDosDiskImage.get_sector_map"], loops={"spartados.SpartaDosDiskImage.get_sector_map#0": l_map})
def c09_map_sparta(v):
    """Following the sector map of a SpartaDOS file through any image ends and visits no sector twice."""
    g = Geo(v, kinds=KINDS[:8])
    im, b = image(v, g, v.mod("spartados").SpartaDosDiskImage)
    if v.symbolic:
        v.run.cache.update(v=v, g=g)
    o = v.call(im.get_sector_map, v.int("first", 0, 65535))
    lib(v, o)


def l_spartafile(st):
    v, g = st.run.cache["v"], st.run.cache["g"]
    w = st.ghost("walk", lambda: Walk(v, g.label, g.max, st.run.fresh("walk")))
    d, m = st["dirent"], st.run.cache["map"]
    st.attr(d, "sector_map_index", st.k)
    st.attr_fresh(d, "length_remaining")
    w.collect(st, st["byte_order"], g.total)
    st.dead("bytes", "last", "pos", "size")
    st.require("the index stays in the map", st.k <= m)
    st.decreases(m - st.k)


@contract("C09", functions=["SpartaDosDiskImage.get_file_segment", "SpartaDosDirent.start_read", "SpartaDosDirent.read_sector"],
          loops={"spartados.SpartaDosDiskImage.get_file_segment#0": l_spartafile})
def c09_file_sparta(v):
    """Reading a SpartaDOS file ends for every sector map, length and image (errors of other types are not excluded), and returns bytes of the image."""
    S = v.mod("spartados")
    g = Geo(v, kinds=KINDS[:8])
    im, b = image(v, g, S.SpartaDosDiskImage)
    m = v.int("entries", 0, 1 << 17)
    mp = v.uints("map", m, 65536, "uint16")
    if v.symbolic:
        v.run.cache.update(v=v, g=g, map=m)
    v.patch(S.SpartaDosDiskImage, "get_sector_map", lambda self, sector: mp)
    d = S.SpartaDosDirent(None, v.int("file number", 0, 63))
    d.starting_sector, d.length, d.is_sane = v.int("start", 0, 65535), v.int("length", -(1 << 23), 1 << 23), v.choice("sane", [True, False])
    d.basename, d.ext, d.date_array, d.time_array = b"FILE", b"EXT", (1, 2, 3), (4, 5, 6)
    o = v.call(im.get_file_segment, d)
    if o.ok:
        v.cover("answered")
        out = o.value.tobytes()
        v.forall("bytes of the image", 0, v.len(out), lambda j: v.get(out, j) == v.get(b, o.value.get_raw_index(j)))
    i = v.int("i", 0)
    v.assume(i < g.total)
    v.ensure("the image stays", v.get(im.bytes, i) == v.get(b, i))
