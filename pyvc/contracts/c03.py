"""C03: adding or deleting a file leaves everything else on the disk alone."""
from pyvc.api import contract
from pyvc.contracts.disk import Geo, image, DosGeo, dosimage
from pyvc.contracts import c01, c02


def unchanged(v, g, im, b, f, members):
    v.ensure("the image keeps its size", v.And(v.len(im.bytes) == g.total, v.len(im.rawdata.data) == g.total))
    v.forall("bytes outside the sectors of the file stay", 0, g.total, lambda p: v.Or(members(g.sector(p)), v.get(im.bytes, p) == v.get(b, p)))


@contract("C03", functions=["DiskImageBase.build_sectors", "VTOC.assign_sector_numbers", "AtariDosWriteableSector.next_sector_num", "DiskImageBase.write_sector_list", "AtrHeader.get_pos"],
          loops=c01.c01_chain.loops)
def c03_store_atari(v):
    """Storing the sectors of a file of any length in any set of distinct free sectors of an Atari image changes bytes of these sectors only."""
    g = Geo(v)
    im, b = image(v, g)
    f = c01.File(v, g)
    de, sl = c01.store(v, g, im, b, f)
    unchanged(v, g, im, b, f, lambda s: f.member(f.N, s))


@contract("C03", functions=["DiskImageBase.build_sectors", "VTOC.assign_sector_numbers", "Dos33Dirent.add_metadata_sectors", "Dos33TSSector.set_tslist", "DiskImageBase.write_sector_list", "BaseHeader.get_pos"],
          loops=c02.c02_chain.loops)
def c03_store_dos33(v):
    """Storing the sectors and track/sector lists of a file of any length in any set of distinct free sectors of a DOS 3.3 image changes bytes of these
    sectors only."""
    g = DosGeo(v)
    im, b = dosimage(v, g)
    f = c02.File(v, g)
    de, sl = c02.store(v, g, im, b, f)
    unchanged(v, g, im, b, f, lambda s: f.member(f.N + f.T, s))


# ---------------------------------------------------------------- the operations

class Lst:
    """a list of sectors to be written: n different sectors of the disk with any contents"""
    def __init__(self, v, g, name):
        self.v, self.g = v, g
        self.n = v.int(name + " sectors", 0)
        v.assume(self.n <= g.max)
        self.num, self.idx, self.member = v.seq(name, self.n, g.label + 3, g.label + g.max)
        self.data = v.bytes(name + " contents", self.n * g.ss)

    def make(self, cls, wcls):
        v, g = self.v, self.g
        o = cls.__new__(cls)

        def sector(j):
            s = wcls.__new__(wcls)
            s._sector_num, s.sector_size, s.used, s.ptr, s.file_num = self.num(j), g.ss, g.ss, g.ss, 0
            s.data = self.data[j * g.ss:j * g.ss + g.ss]
            return s
        o.header, o.sector_size = g.h, g.ss
        o.sectors = v.objlist(self.n, sector)
        o.ghost = self
        return o

    def image(self, k, old, p):
        v, g = self.v, self.g
        s = g.sec(p) if g.kind != "dos33" else p // 256
        if not v.symbolic and not self.member(k, s):
            return old(p)
        return v.Ite(self.member(k, s), v.get(self.data, self.idx(s) * g.ss + p - g.pos(s)), old(p))


def l_write(st):
    l = st["sector_list"].ghost
    st.dead("sector", "pos", "size")
    a = st["self"].bytes
    old = st.ghost("old", lambda: st.run.cache["v"].copy(a))
    st.array(a, lambda p: l.image(st.k, lambda p: st.run.cache["v"].get(old, p), p))


class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


@contract("C03", functions=["DiskImageBase.write_file", "DiskImageBase.delete_file", "DiskImageBase.write_sector_list"], loops={"diskimages.DiskImageBase.write_sector_list#0": l_write})
def c03_operation(v):
    """A successful addition changes only bytes of the sectors of the file, of the allocation table and of the directory that the steps deliver, a
    deletion only those of table and directory; the steps before do not write (C06, C09)."""
    kind = v.choice("kind", ["atari", "dos33"])
    if kind == "atari":
        g = Geo(v)
        im, b = image(v, g)
    else:
        g = DosGeo(v)
        im, b = dosimage(v, g)
    if v.symbolic:
        v.run.cache["v"] = v
    c = type(im)
    dc, vc = im.directory_class, im.vtoc_class
    U, W = v.mod("utils").BaseSectorList, im.writeable_sector_class
    F, V, D = Lst(v, g, "file"), Lst(v, g, "vtoc"), Lst(v, g, "dir")
    file, vtoc = F.make(U, W), V.make(vc, v.mod("utils").WriteableSector)

    def init(self, *a, **kw):
        self.__dict__.update(D.make(dc, v.mod("utils").WriteableSector).__dict__)
    v.patch(c, "get_directory", lambda self, directory=None: None)
    v.patch(c, "get_metadata", lambda self: None)
    v.patch(c, "get_vtoc_object", lambda self: vtoc)
    v.patch(c, "build_sectors", lambda self, data: file)
    v.patch(dc, "__init__", init)
    v.patch(dc, "add_dirent", lambda self, *a: Thing())
    v.patch(dc, "find_dirent", lambda self, *a: Thing(get_sectors_in_vtoc=lambda image: file))
    v.patch(dc, "save_dirent", lambda self, *a: None)
    v.patch(dc, "remove_dirent", lambda self, *a: None)
    op = v.choice("operation", ["add", "delete"])
    o = v.call(im.write_file, "NAME", "B", b"abc") if op == "add" else v.call(im.delete_file, "NAME")
    v.ensure("succeeds", o.ok)

    def may(p):
        s = g.sector(p)
        t = v.Or(V.member(V.n, s), D.member(D.n, s))
        return v.Or(t, F.member(F.n, s)) if op == "add" else t
    v.ensure("the image keeps its size", v.And(v.len(im.bytes) == g.total, v.len(im.rawdata.data) == g.total))
    v.forall("other bytes stay", 0, g.total, lambda p: v.Or(may(p), v.get(im.bytes, p) == v.get(b, p)))
    v.forall("the table is stored", 0, g.total, lambda p: v.Or(v.Not(V.member(V.n, g.sector(p))), D.member(D.n, g.sector(p)),
                                                              v.get(im.bytes, p) == V.image(V.n, lambda q: v.get(b, q), p)))
    v.forall("the directory is stored", 0, g.total, lambda p: v.Or(v.Not(D.member(D.n, g.sector(p))), v.get(im.bytes, p) == D.image(D.n, lambda q: v.get(b, q), p)))
    if op == "add":
        v.forall("the file is stored", 0, g.total, lambda p: v.Or(v.Not(F.member(F.n, g.sector(p))), V.member(V.n, g.sector(p)), D.member(D.n, g.sector(p)),
                                                                 v.get(im.bytes, p) == F.image(F.n, lambda q: v.get(b, q), p)))


# ---------------------------------------------------------------- directory entries

@contract("C03", functions=["AtariDosDirent.parse_raw_dirent", "AtariDosDirent.encode_dirent", "MydosDirent.__init__"])
def c03_entry_atari(v):
    """Any entry of an Atari directory that is read and written again comes out the same byte for byte (names padded with spaces, the flag bit $08,
    which no DOS uses, clear)."""
    g = Geo(v, kinds=[("atr", 92160)])
    im, b = image(v, g)
    A = v.mod("ataridos")
    e = v.bytes("entry", 16)
    v.assume(v.And(v.get(e, 0) % 16 < 8, *[v.get(e, i) >= 32 for i in range(5, 16)]))
    d = v.choice("class", [A.AtariDosDirent, A.MydosDirent])(im, v.int("file number", 0, 63), v.copy(e))
    out = d.encode_dirent()
    v.ensure("size of an entry", v.len(out) == 16)
    for i in range(16):
        v.ensure("byte %d is as before" % i, v.get(out, i) == v.get(e, i))


@contract("C03", functions=["Dos33Dirent.parse_raw_dirent", "Dos33Dirent.encode_dirent", "Dos33Dirent.flag"])
def c03_entry_dos33(v):
    """Any entry of a DOS 3.3 file that is read and written again comes out the same byte for byte (names of characters with the high bit set)."""
    g = DosGeo(v, full=True)
    im, b = dosimage(v, g)
    D = v.mod("dos33")
    e = v.bytes("entry", 35)
    v.assume(v.And(v.get(e, 0) != 255, *[v.get(e, i) >= 160 for i in range(3, 33)]))
    d = D.Dos33Dirent(im, v.int("file number", 0, 104), v.copy(e))
    v.ensure("not deleted", v.And(v.Not(d.deleted), d.in_use))
    out = d.encode_dirent()
    v.ensure("size of an entry", v.len(out) == 35)
    for i in range(35):
        v.ensure("byte %d is as before" % i, v.get(out, i) == v.get(e, i))


@contract("C03", functions=["Dos33Dirent.parse_raw_dirent", "Dos33Dirent.encode_dirent", "Dos33Dirent.flag"])
def c03_deleted_dos33(v):
    """The entry of a deleted DOS 3.3 file stays that of a deleted file: the mark, the saved track, the sector, the name and the size are kept."""
    g = DosGeo(v, full=True)
    im, b = dosimage(v, g)
    D = v.mod("dos33")
    e = v.bytes("entry", 35)
    v.assume(v.And(v.get(e, 0) == 255, *[v.get(e, i) >= 160 for i in range(3, 32)]))
    d = D.Dos33Dirent(im, v.int("file number", 0, 104), v.copy(e))
    v.ensure("deleted", v.And(d.deleted, v.Not(d.in_use)))
    out = d.encode_dirent()
    v.ensure("size of an entry", v.len(out) == 35)
    for i in [0, 1] + list(range(3, 35)):
        v.ensure("byte %d is as before" % i, v.get(out, i) == v.get(e, i))
