"""C01: an Atari DOS 2 file reads back byte for byte."""
from pyvc.api import contract
from pyvc.contracts.disk import Geo, image


class File:
    """ghost: the file being stored.  N sectors, sector j of the file is disk sector order(j)"""
    def __init__(self, v, g):
        self.v, self.g = v, g
        self.n = v.int("n", 0)
        self.d = v.bytes("data", self.n)
        self.F = v.int("file number", 0, 63)
        P = g.payload
        self.N = v.Ite(self.n == 0, 1, (self.n + P - 1) // P)
        v.assume(self.N <= 719)
        # what reserve_space promises (C04): that many different free sectors; the boot sectors, VTOC and directory are not free
        self.order, self.idx, self.member = v.seq("order", self.N, 4, 720)
        if v.symbolic:
            v.run.cache["file"] = self

    def used(self, j):
        """data bytes in the file's sector j"""
        v, P = self.v, self.g.payload
        return v.Ite((j + 1) * P <= self.n, P, self.n - j * P)

    def payload(self, j, t):
        v = self.v
        return v.Ite(t < self.used(j), v.get(self.d, j * self.g.payload + t), 0)

    def next(self, j):
        return self.v.Ite(j == self.N - 1, 0, self.order(j + 1))

    def linked(self, j, t, nxt):
        v, ss = self.v, self.g.ss
        link = v.Ite(t == ss - 3, self.F * 4 + nxt // 256, v.Ite(t == ss - 2, nxt % 256, self.used(j)))
        return v.Ite(t < ss - 3, self.payload(j, t), link)

    def image(self, k, old, p):
        """byte p after the first k sectors have been written"""
        v, g = self.v, self.g
        s = g.sec(p)
        return v.Ite(self.member(k, s), self.linked(self.idx(s), p - g.pos(s), self.next(self.idx(s))), old(p))


def Arr(v, n, fn):
    from pyvc.containers import Arr as A
    return A(n, fn)


def l_build(st):
    f = st.run.cache["file"]
    v, g, k = f.v, f.g, st.k
    P = g.payload
    st.require("sectors so far", k <= f.N)
    st.local("index", v.Ite(k * P <= f.n, k * P, f.n))
    st.dead("count", "sector")
    cls = st["self"].header.sector_class
    st.objects(st["sectors"].sectors, k, cls, lambda j: dict(_sector_num=-1, _next_sector=0, sector_size=g.ss, file_num=0, used=f.used(j), ptr=f.used(j),
                                                            data=Arr(v, g.ss, lambda t: f.payload(j, t))))
    st.decreases(f.N - k)


def l_assign(st):
    f = st.run.cache["file"]
    v, g, k = f.v, f.g, st.k
    P = g.payload
    lst = st["sector_list"].sectors
    cls = st["sector_list"].header.sector_class

    def fields(j):
        o = dict(_next_sector=0, sector_size=g.ss, used=f.used(j), ptr=f.used(j))
        if j < k:
            o.update(_sector_num=f.order(j), file_num=f.F)
        else:
            o.update(_sector_num=-1, file_num=0)
        if j < k - 1:
            o["_next_sector_num"] = f.order(j + 1)
            o["data"] = Arr(v, g.ss, lambda t: f.linked(j, t, f.order(j + 1)))
        else:
            o["data"] = Arr(v, g.ss, lambda t: f.payload(j, t))
        return o
    st.objects(lst, f.N, cls, fields)
    st.local("file_length", v.Ite(k * P <= f.n, k * P, f.n))
    st.bind("last_sector", lambda: lst.get(k - 1) if k > 0 else None)
    st.dead("sector", "sector_num")


def l_write(st):
    f = st.run.cache["file"]
    st.dead("sector", "pos", "size")
    st.array(st["self"].bytes, lambda p: f.image(st.k, f.old, p))


def l_read(st):
    f = st.run.cache["file"]
    v, g, k = f.v, f.g, st.k
    P = g.payload
    d = st["dirent"]
    st.require("sectors left", k < f.N)
    st.attr(d, "current_sector", f.order(k))
    st.set(d.sectors_seen, lambda s: f.member(k, s))
    st.list(st["byte_order"], k * P, lambda q: g.pos(f.order(q // P)) + q % P)
    st.dead("bytes", "last", "pos", "size")
    st.decreases(f.N - k)


def store(v, g, im, b, f):
    """the steps of write_file that concern the sectors of the file"""
    f.old = lambda p: v.get(b, p)
    A = v.mod("ataridos")
    vt = A.AtariDosVTOC.__new__(A.AtariDosVTOC)
    vt.header, vt.sector_size, vt.sectors = g.h, g.ss, []
    def reserve(self, num):
        if not v.symbolic:
            have = [f.order(j) for j in range(f.N)]
            return (have + [s for s in range(4, 720) if s not in have])[:num]
        v.ensure("as many sectors are asked for as the file needs", num == f.N)
        return v.numlist(f.order, f.N)
    v.patch(A.AtariDosVTOC, "reserve_space", reserve)
    de = A.AtariDosDirent(None)
    de.set_values("NAME.EXT", "", f.F)
    sl = im.build_sectors(v.copy(f.d))
    vt.assign_sector_numbers(de, sl)
    de.add_metadata_sectors(vt, sl, g.h)
    de.update_sector_info(sl)
    im.write_sector_list(sl)
    return de, sl


@contract("C01", functions=["DiskImageBase.build_sectors", "VTOC.assign_sector_numbers", "AtariDosWriteableSector.next_sector_num", "DiskImageBase.write_sector_list",
                            "AtariDosDiskImage.get_file_segment", "AtariDosDirent.read_sector", "AtariDosDirent.process_raw_sector", "AtariDosDirent.encode_dirent", "AtariDosDirent.parse_raw_dirent"],
          loops={"diskimages.DiskImageBase.build_sectors#0": l_build, "utils.VTOC.assign_sector_numbers#0": l_assign,
                 "diskimages.DiskImageBase.write_sector_list#0": l_write, "ataridos.AtariDosDiskImage.get_file_segment#0": l_read})
def c01_chain(v):
    """A file of any length, split into sectors, linked through any set of distinct free sectors and written to any image, is read back byte for byte
    by following the links, with the entry as it is in memory and with the entry parsed from its stored form."""
    g = Geo(v)
    im, b = image(v, g)
    f = File(v, g)
    de, sl = store(v, g, im, b, f)
    A = v.mod("ataridos")
    if v.choice("entry", ["live", "parsed"]) == "parsed":
        de = A.AtariDosDirent(im, f.F, de.encode_dirent())
    out = im.get_file(de)
    v.ensure("length of the file", v.len(out) == f.n)
    v.forall("contents of the file", 0, f.n, lambda i: v.get(out, i) == v.get(f.d, i))
