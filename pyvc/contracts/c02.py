"""C02: a DOS 3.3 file reads back, zero padded to sectors."""
from pyvc.api import contract
from pyvc.contracts.disk import DosGeo, dosimage


class File:
    """ghost: the file being stored.  N data sectors and T track/sector lists; sector j of the file is disk sector order(j), list i is order(N + i)"""
    def __init__(self, v, g):
        self.v, self.g = v, g
        self.n = v.int("n", 0)
        self.d = v.bytes("data", self.n)
        self.N = v.Ite(self.n == 0, 1, (self.n + 255) // 256)
        self.T = (self.N + 121) // 122
        v.assume(self.N + self.T <= g.max - 16)
        # what reserve_space promises (C04): that many different free sectors; track 0 is not free
        self.order, self.idx, self.member = v.seq("order", self.N + self.T, 16, g.max)
        self.calls = 0
        if v.symbolic:
            v.run.cache["file"] = self
            v.run.cache["v"] = v

    def used(self, j):
        v = self.v
        return v.Ite((j + 1) * 256 <= self.n, 256, self.n - j * 256)

    def payload(self, j, t):
        v = self.v
        return v.Ite(t < self.used(j), v.get(self.d, j * 256 + t), 0)

    def entries(self, i, m, t):
        """byte t of list i with its first m entries"""
        v = self.v
        q = 122 * i + (t - 12) // 2
        return v.Ite(v.And(t >= 12, t < 12 + 2 * m), v.Ite(t % 2 == 0, self.order(q) // 16, self.order(q) % 16), 0)

    def size(self, i):
        """entries of list i"""
        v = self.v
        return v.Ite(122 * (i + 1) <= self.N, 122, self.N - 122 * i)

    def linked(self, i, t, nxt):
        v = self.v
        return v.Ite(t == 1, nxt // 16, v.Ite(t == 2, nxt % 16, self.entries(i, self.size(i), t)))

    def next(self, i):
        return self.v.Ite(i == self.T - 1, 0, self.order(self.N + i + 1))

    def image(self, k, old, p):
        """byte p after the first k sectors have been written"""
        v = self.v
        s, t = p // 256, p % 256
        j = self.idx(s)
        new = v.Ite(j < self.N, self.payload(j, t), self.linked(j - self.N, t, self.next(j - self.N)))
        return v.Ite(self.member(k, s), new, old(p))


def Arr(n, fn):
    from pyvc.containers import Arr as A
    return A(n, fn)


def l_build(st):
    f = st.run.cache["file"]
    v, g, k = f.v, f.g, st.k
    st.require("sectors so far", k <= f.N)
    st.local("index", v.Ite(k * 256 <= f.n, k * 256, f.n))
    st.dead("count", "sector")
    cls = st["self"].header.sector_class
    st.objects(st["sectors"].sectors, k, cls, lambda j: dict(_sector_num=-1, _next_sector=0, sector_size=256, file_num=0, used=f.used(j), ptr=f.used(j),
                                                            data=Arr(256, lambda t: f.payload(j, t))))
    st.decreases(f.N - k)


def l_assign(st):
    f = st.run.cache["file"]
    v, g, k = f.v, f.g, st.k
    lst = st["sector_list"].sectors
    fn = st["dirent"].file_num
    if st.ghost("call", lambda: f.calls) == 1:
        cls = st["sector_list"].header.sector_class

        def fields(j):
            o = dict(_next_sector=0, sector_size=256, used=f.used(j), ptr=f.used(j), data=Arr(256, lambda t: f.payload(j, t)))
            if j < k:
                o.update(_sector_num=f.order(j), file_num=fn)
            else:
                o.update(_sector_num=-1, file_num=0)
            if j < k - 1:
                o["_next_sector_num"] = f.order(j + 1)
            return o
        st.objects(lst, f.N, cls, fields)
        st.local("file_length", v.Ite(k * 256 <= f.n, k * 256, f.n))
    else:
        cls = v.mod("dos33").Dos33TSSector

        def fields(i):
            o = listfields(f, i)
            if i < k:
                o.update(_sector_num=f.order(f.N + i), file_num=fn)
            if i < k - 1:
                o["_next_sector_num"] = f.order(f.N + i + 1)
                o["data"] = Arr(256, lambda t: f.linked(i, t, f.order(f.N + i + 1)))
            return o
        st.objects(lst, f.T, cls, fields)
        st.local("file_length", 256 * k)
    st.bind("last_sector", lambda: lst.get(k - 1) if k > 0 else None)
    st.dead("sector", "sector_num")


def listfields(f, i):
    v = f.v
    return dict(_sector_num=-1, _next_sector=0, sector_size=256, file_num=0, used=256, ptr=0, header=f.g.h, ts_start=122 * i,
                ts_end=v.Ite(122 * (i + 1) <= f.N, 122 * (i + 1), f.N), data=Arr(256, lambda t: f.entries(i, f.size(i), t)))


def l_set(st):
    f = st.run.cache["file"]
    v, k = f.v, st.k
    start = st["start"]
    st.local("index", 12 + 2 * k)
    st.array(st["self"].data, lambda t: v.Ite(v.And(t >= 12, t < 12 + 2 * k), v.Ite(t % 2 == 0, f.order(start + (t - 12) // 2) // 16, f.order(start + (t - 12) // 2) % 16), 0))
    st.dead("i", "sector", "t", "s")


def l_lists(st):
    f = st.run.cache["file"]
    st.objects(st["tslist"].sectors, st.k, f.v.mod("dos33").Dos33TSSector, lambda i: listfields(f, i))
    st.dead("start", "end", "s")


def l_write(st):
    f = st.run.cache["file"]
    st.dead("sector", "pos", "size")
    st.array(st["self"].bytes, lambda p: f.image(st.k, f.old, p))


def l_pairs(st):
    v = st.run.cache["v"]
    d = st["self"].data
    st.require("entries so far", st.k <= 122)
    st.local("index", 12 + 2 * st.k)
    st.list(st["sector_list"], st.k, lambda j: v.get(d, 12 + 2 * j) * 16 + v.get(d, 13 + 2 * j))
    st.dead("t", "s")
    st.decreases(122 - st.k)


def l_follow(st):
    f = st.run.cache["file"]
    v, k = f.v, st.k
    st.require("lists so far", k <= f.T)
    st.local("sector_num", v.Ite(k < f.T, f.order(f.N + k), 0))
    st.set(st["sectors_seen"], lambda s: v.And(f.idx(s) >= f.N, f.idx(s) < f.N + k, f.order(f.idx(s)) == s))
    st.list(st["sector_map"], 122 * k, lambda q: v.Ite(q < f.N, f.order(q), 0))
    st.opaque(st["tslist"].sectors, k)
    st.dead("data", "_", "sector")
    st.decreases(f.T - k)


def l_read(st):
    f = st.run.cache["file"]
    v, k = f.v, st.k
    d = st["dirent"]
    st.require("sectors left", k < f.N)
    st.attr(d, "current_sector_index", k)
    st.list(st["byte_order"], 256 * k, lambda q: 256 * f.order(q // 256) + q % 256)
    st.dead("bytes", "last", "pos", "size")
    st.decreases(f.N - k)


def store(v, g, im, b, f):
    """the steps of write_file that concern the sectors of the file"""
    f.old = lambda p: v.get(b, p)
    D = v.mod("dos33")
    vt = D.Dos33VTOC.__new__(D.Dos33VTOC)
    vt.header, vt.sector_size, vt.sectors = g.h, 256, []

    def reserve(self, num):
        f.calls += 1
        if not v.symbolic:
            lo = 0 if f.calls == 1 else f.N
            have = [f.order(j) for j in range(f.N + f.T)]
            if f.calls == 2 and num == f.T:
                return have[f.N:]
            spare = [s for s in range(16, 560) if s not in have]
            return (have[:f.N] + spare)[:num] if f.calls == 1 else spare[:num]
        if f.calls == 1:
            v.ensure("as many sectors are asked for as the file needs", num == f.N)
            return v.numlist(f.order, f.N)
        v.ensure("as many sectors are asked for as the lists need", v.And(f.calls == 2, num == f.T))
        return v.numlist(lambda i: f.order(f.N + i), f.T)
    v.patch(D.Dos33VTOC, "reserve_space", reserve)
    de = D.Dos33Dirent(None)
    de.set_values("NAME", v.choice("type", ["T", "B"]), 0)
    sl = im.build_sectors(v.copy(f.d))
    vt.assign_sector_numbers(de, sl)
    de.add_metadata_sectors(vt, sl, g.h)
    de.update_sector_info(sl)
    im.write_sector_list(sl)
    return de, sl


@contract("C02", functions=["DiskImageBase.build_sectors", "VTOC.assign_sector_numbers", "Dos33Dirent.add_metadata_sectors", "Dos33TSSector.set_tslist", "Dos33TSSector.next_sector_num",
                            "DiskImageBase.write_sector_list", "Dos33Dirent.update_sector_info", "Dos33Dirent.get_track_sector_list", "Dos33TSSector.get_tslist", "Dos33Dirent.start_read",
                            "Dos33Dirent.read_sector", "Dos33Dirent.process_raw_sector", "Dos33DiskImage.get_file_segment", "Dos33Dirent.encode_dirent", "Dos33Dirent.parse_raw_dirent"],
          loops={"diskimages.DiskImageBase.build_sectors#0": l_build, "utils.VTOC.assign_sector_numbers#0": l_assign, "dos33.Dos33TSSector.set_tslist#0": l_set,
                 "dos33.Dos33Dirent.add_metadata_sectors#0": l_lists, "diskimages.DiskImageBase.write_sector_list#0": l_write,
                 "dos33.Dos33TSSector.get_tslist#0": l_pairs, "dos33.Dos33Dirent.get_track_sector_list#0": l_follow, "dos33.Dos33DiskImage.get_file_segment#0": l_read})
def c02_chain(v):
    """A file of any length, split into sectors, listed in track/sector lists and written to any distinct free sectors of any image, is read back byte
    for byte followed by zeros up to a whole number of sectors, with the entry as it is in memory and with the entry parsed from its stored form."""
    g = DosGeo(v)
    im, b = dosimage(v, g)
    f = File(v, g)
    de, sl = store(v, g, im, b, f)
    D = v.mod("dos33")
    if v.choice("entry", ["live", "parsed"]) == "parsed":
        de = D.Dos33Dirent(im, 0, de.encode_dirent())
    out = im.get_file(de)
    v.ensure("length of the file", v.len(out) == 256 * f.N)
    v.forall("contents of the file", 0, f.n, lambda i: v.get(out, i) == v.get(f.d, i))
    v.forall("zeros after the end", f.n, 256 * f.N, lambda i: v.get(out, i) == 0)
