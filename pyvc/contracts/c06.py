"""C06: the directory is a map from names to files.

A directory holds the entries 0..K-1 (K: the first unused one ends it).  Entries are stood in for by objects of which only what the directory code uses
is known: whether they are in use, their name, and the bytes they are stored as; how real entries are read and stored is proved in C03 (entry contracts)."""
from pyvc.api import contract
from pyvc.contracts.disk import Geo, image, DosGeo, dosimage


class Entry:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __lt__(self, other):
        raise TypeError("entries have no order")

    def __eq__(self, other):
        return self.filename == other.filename
    __hash__ = object.__hash__


class Dir:
    def __init__(self, v, kind, most=None):
        self.v, self.kind = v, kind
        if kind == "atari":
            self.g = g = Geo(v, kinds=[("atr", 92160), ("xfd", 183936)])
            self.cls, self.c, self.e, self.h0, self.max = v.mod("ataridos").AtariDosDirectory, g.ss // 16, 16, 0, 64
        else:
            self.g = g = DosGeo(v, full=True)
            self.cls, self.c, self.e, self.h0, self.max = v.mod("dos33").Dos33Directory, 7, 35, 11, 0
        self.K = v.int("entries", 0, most if most is not None else 64 if kind == "atari" else 105)
        self.used = v.bits("in use", self.K)
        self.names = v.uints("names", self.K, 2 ** 20)
        self.enc = v.bytes("encoded", self.K * self.e)
        self.d = self.cls(g.h)
        self.d.dirents = v.objdict(self.K, self.entry)
        if v.symbolic:
            v.run.cache["v"], v.run.cache["dir"] = v, self

    def entry(self, j):
        v = self.v
        return Entry(in_use=v.get(self.used, j) == 1, filename=v.get(self.names, j), number=j, encode_dirent=lambda: self.enc[j * self.e:j * self.e + self.e])


def l_free(st):
    D = st.run.cache["dir"]
    v = D.v
    k = st.k
    st.set(st["used"], lambda x: v.And(x >= 0, x < k), count=k)
    st.forall("the entries so far are in use", 0, k, lambda j: v.get(D.used, j) == 1)
    st.last("i", k - 1)
    st.dead("dirent")


@contract("C06", functions=["Directory.get_free_dirent"], loops={"utils.Directory.get_free_dirent#0": l_free})
def c06_free(v):
    """The place given to a new file is the first entry that is not in use, else the one behind the last; it is refused only if the directory has its
    full number of entries and all are in use."""
    D = Dir(v, v.choice("kind", ["atari", "dos33"]))
    K = D.K
    o = v.call(D.d.get_free_dirent)
    if o.ok:
        i = o.value
        v.cover("a place is found")
        v.ensure("a place", v.And(i >= 0, i <= K))
        v.forall("earlier entries are in use", 0, i, lambda j: v.get(D.used, j) == 1)
        if v.true(i < K):
            v.cover("a free entry")
            v.ensure("the entry is free", v.get(D.used, i) == 0)
        elif D.max:
            v.ensure("there is room for another entry", K < D.max)
    else:
        v.cover("refused")
        v.ensure("with the library's error", o.raised("NoSpaceInDirectory"))
        v.ensure("only a full directory refuses", v.And(D.max > 0, K >= D.max))
        v.forall("all entries are in use", 0, K, lambda j: v.get(D.used, j) == 1)


def l_find(st):
    D = st.run.cache["dir"]
    v = D.v
    st.forall("no entry so far matches", 0, st.k, lambda j: v.Or(v.get(D.used, j) == 0, v.get(D.names, j) != D.want))
    st.dead("dirent")


@contract("C06", functions=["Directory.find_dirent"], loops={"utils.Directory.find_dirent#0": l_find, "utils.Directory.find_dirent#1": l_find})
def c06_find(v):
    """Looking up a name in the directory yields the first entry in use that has this name, and the library's error if there is none; looking up an
    entry yields the first one in use that equals it."""
    D = Dir(v, v.choice("kind", ["atari", "dos33"]))
    D.want = v.int("name", 0, 2 ** 20)
    o = v.call(D.d.find_dirent, v.choice("by", [lambda: D.want, lambda: Entry(filename=D.want)])())
    look(v, D, o, lambda j: v.And(v.get(D.used, j) == 1, v.get(D.names, j) == D.want))


def look(v, D, o, match):
    if o.ok:
        v.cover("found")
        j = o.value.number
        v.ensure("an entry", v.And(j >= 0, j < D.K))
        v.ensure("it matches", match(j))
        v.forall("it is the first one", 0, j, lambda i: v.Not(match(i)))
    else:
        v.cover("not found")
        v.ensure("with the library's error", o.raised("FileNotFound"))
        v.forall("no entry matches", 0, D.K, lambda i: v.Not(match(i)))


def l_listed(st):
    D = st.run.cache["dir"]
    v = D.v
    st.forall("no entry so far matches", 0, st.k, lambda j: v.get(D.names, j) != D.want)
    st.dead("dirent")


@contract("C06", functions=["DiskImageBase.find_dirent", "DiskImageBase.find_file"], loops={"diskimages.DiskImageBase.find_dirent#0": l_listed})
def c06_lookup(v):
    """Reading a file by name reads the first listed entry with exactly this name, and reports the library's error if no listed entry has it."""
    D = Dir(v, "atari")
    im, b = image(v, D.g)
    im.files = v.objlist(D.K, D.entry)
    D.want = v.int("name", 0, 2 ** 20)
    v.patch(type(im), "get_file", lambda self, dirent: dirent)
    o = v.call(v.choice("call", [im.find_dirent, im.find_file]), D.want)
    look(v, D, o, lambda j: v.get(D.names, j) == D.want)


# ---------------------------------------------------------------- how the directory is stored

class Stored(Dir):
    """the sectors into which the entries are packed: c per sector, after h0 other bytes"""
    def sectors(self, k):
        """sectors that are complete when k entries have been packed, not counting the one that was filled last"""
        return self.v.Ite(k == 0, 0, (k - 1) // self.c)

    def total(self):
        v = self.v
        n = v.Ite(self.K == 0, 0, (self.K - 1) // self.c + 1)
        return n if self.h0 == 0 else v.Ite(self.K == 0, 1, n)

    def byte(self, s, t, k):
        """byte t of sector s with the first k entries"""
        v, e = self.v, self.e
        q = s * self.c + (t - self.h0) // e
        ok = v.And(t >= self.h0, q < k, t < self.h0 + self.c * e)
        if not v.symbolic and not ok:
            return 0
        return v.Ite(ok, v.get(self.enc, q * e + (t - self.h0) % e), 0)

    def fields(self, s, k, last):
        v, ss = self.v, self.g.ss
        p = self.h0 + self.e * (v.Ite((s + 1) * self.c <= k, self.c, k - s * self.c) if last else self.c)
        return dict(_sector_num=-1, _next_sector=0, sector_size=ss, file_num=0, used=p, ptr=p, data=Arr(ss, lambda t: self.byte(s, t, k)))


def Arr(n, fn):
    from pyvc.containers import Arr as A
    return A(n, fn)


def l_calc(st):
    D = st.run.cache["dir"]
    v, k = D.v, st.k
    S = D.sectors(k)
    cls = v.mod("utils").WriteableSector
    me = st["self"]
    st.local("current", k)
    st.objects(me.sectors, S, cls, lambda s: D.fields(s, k, False))
    st.attr_obj(me, "current_sector", cls, D.fields(S, k, True))
    st.dead("index", "dirent", "data", "missing")


def l_numbers(st):
    """Atari: sectors 361, 362, ..."""
    D = st.run.cache["dir"]
    k = st.k
    cls = D.v.mod("utils").WriteableSector

    def fields(s):
        o = D.fields(s, D.K, True)
        o["_sector_num"] = 361 + s if s < k else -1
        return o
    st.objects(st["self"].sectors, D.total(), cls, fields)
    st.local("num", 361 + k)
    st.dead("sector")


def l_store(st):
    D = st.run.cache["dir"]
    st.dead("sector", "pos", "size")
    st.array(st["self"].bytes, lambda p: D.stored(st.k, p))


@contract("C06", functions=["Directory.calc_sectors", "Directory.store_encoded", "Directory.finish_encoding", "AtariDosDirectory.set_sector_numbers", "WriteableSector.add_data", "DiskImageBase.write_sector_list"],
          loops={"utils.Directory.calc_sectors#0": l_calc, "ataridos.AtariDosDirectory.set_sector_numbers#0": l_numbers, "diskimages.DiskImageBase.write_sector_list#0": l_store})
def c06_store_atari(v):
    """Writing the directory of an Atari disk puts entry i, exactly as it encodes itself, where reading the directory expects entry i, the rest of a
    started sector becomes zero, which ends the directory, and nothing outside the directory sectors changes."""
    D = Stored(v, "atari")
    g = D.g
    im, b = image(v, g)

    def stored(k, p):
        q = p - g.pos(361)
        s = q // g.ss
        if not v.symbolic and not (q >= 0 and s < k):
            return v.get(b, p)
        return v.Ite(v.And(q >= 0, s < k), D.byte(s, q % g.ss, D.K), v.get(b, p))
    D.stored = stored
    D.d.calc_sectors(im)
    im.write_sector_list(D.d)
    base = g.pos(361)
    v.forall("entries are where they belong", 0, D.K * 16, lambda i: v.get(im.bytes, base + i) == v.get(D.enc, i))
    n = v.Ite(D.K % D.c == 0, D.K, D.K + D.c - D.K % D.c)
    v.forall("the rest of the sector is empty", D.K * 16, n * 16, lambda i: v.get(im.bytes, base + i) == 0)
    v.forall("nothing else changes", 0, g.total, lambda p: v.Or(v.And(p >= base, p < base + n * 16), v.get(im.bytes, p) == v.get(b, p)))


class Catalog(Stored):
    """a chain of M catalog sectors; sector i is disk sector order(i)"""
    def chain(self):
        v, g = self.v, self.g
        self.M = v.int("catalog sectors", 1, 100)
        self.order, self.idx, self.member = v.seq("catalog", self.M, 16, 560)
        im, b = dosimage(v, g)
        self.raw = b
        v.fill(im.bytes, self.before)
        g.h.first_directory = self.order(0)
        return im

    def next(self, i):
        return self.v.Ite(i == self.M - 1, 0, self.order(i + 1)) if self.v.symbolic else 0 if i >= self.M - 1 or i < 0 else self.order(i + 1)

    def link(self, s, t, rest):
        v = self.v
        n = self.next(s)
        return v.Ite(t == 1, n // 16, v.Ite(t == 2, n % 16, rest))

    def before(self, p):
        v = self.v
        s, t = p // 256, p % 256
        if not v.symbolic and not self.member(self.M, s):
            return v.get(self.raw, p)
        return v.Ite(self.member(self.M, s), self.link(self.idx(s), t, v.get(self.raw, p)), v.get(self.raw, p))

    def stored(self, k, p):
        v = self.v
        s, t = p // 256, p % 256
        if not v.symbolic and not self.member(k, s):
            return self.before(p)
        i = self.idx(s)
        return v.Ite(self.member(k, s), self.link(i, t, self.byte(i, t, self.K)), self.before(p))


def l_links(st):
    D = st.run.cache["dir"]
    v, k = D.v, st.k
    cls = v.mod("utils").WriteableSector

    def fields(s):
        o = D.fields(s, D.K, True)
        if s < k:
            o["_sector_num"] = D.order(s)
            o["data"] = Arr(256, lambda t: D.link(s, t, D.byte(s, t, D.K)))
        return o
    st.require("sectors so far", k <= D.M)
    st.objects(st["self"].sectors, D.total(), cls, fields)
    st.local("current_sector", v.Ite(k == 0, -1, v.Ite(k < D.M, D.order(k), 0)))
    st.dead("sector", "next_sector", "t", "s")


@contract("C06", functions=["Directory.calc_sectors", "Directory.store_encoded", "Directory.finish_encoding", "Dos33Directory.get_dirent_sector", "Dos33Directory.set_sector_numbers",
                            "Dos33DiskImage.get_directory_sector_links", "WriteableSector.add_data", "DiskImageBase.write_sector_list"],
          loops={"utils.Directory.calc_sectors#0": l_calc, "dos33.Dos33Directory.set_sector_numbers#0": l_links, "diskimages.DiskImageBase.write_sector_list#0": l_store})
def c06_store_dos33(v):
    """Writing the catalog of a DOS 3.3 disk puts entry i, exactly as it encodes itself, where reading the catalog expects entry i, keeps the links
    between the catalog sectors, and changes nothing outside them; it is refused with the library's error only if there are more entries than the
    catalog sectors hold."""
    D = Catalog(v, "dos33", 1000)
    im = D.chain()
    o = v.call(D.d.calc_sectors, im)
    if not o.ok:
        v.cover("refused")
        v.ensure("with the library's error", o.raised("NoSpaceInDirectory"))
        v.ensure("too many entries", D.K > 7 * D.M)
        return
    v.ensure("the entries fit", D.K <= 7 * D.M)
    im.write_sector_list(D.d)
    v.forall("entries are where they belong", 0, D.K * 35, lambda i: v.get(im.bytes, 256 * D.order(i // 245) + 11 + i % 245) == v.get(D.enc, i))
    n = v.Ite(D.K == 0, 7, v.Ite(D.K % 7 == 0, D.K, D.K + 7 - D.K % 7))
    v.forall("the rest of the sector is empty", D.K * 35, n * 35, lambda i: v.get(im.bytes, 256 * D.order(i // 245) + 11 + i % 245) == 0)
    v.forall("the links stay", 0, 2 * D.M, lambda i: v.get(im.bytes, 256 * D.order(i // 2) + 1 + i % 2) == D.before(256 * D.order(i // 2) + 1 + i % 2))
    v.forall("nothing else changes", 0, 143360, lambda p: v.Or(D.member(n // 7, p // 256), v.get(im.bytes, p) == D.before(p)))


# ---------------------------------------------------------------- how the directory is read

class Slots:
    """the entries of a directory as they are stored.  Reading one slot is replaced by its contract (c06_parse_*): the entry is a function of the slot,
    of which only the bits that the directory code uses are known"""
    def __init__(self, v, cls):
        self.v = v
        S = self

        def parse(self, image, data):
            if data is None:
                return
            f = v.get(data, 0)
            self.flag = f
            self.in_use, self.mydos = (f // 64) % 2 == 1, (f // 4) % 2 == 1
            self.slot = v.copy(data)
            self.is_sane = v.bit(v.get(S.sane, self.file_num))
        self.sane = v.bits("sane", 128)
        v.patch(cls, "parse_raw_dirent", parse)

    def raw(self, j):
        return self.b[self.base + 16 * j:self.base + 16 * j + 16]

    def entry(self, j):
        A = self.v.mod("ataridos")
        return (A.MydosDirent if (self.flag(j) // 4) % 2 == 1 else A.AtariDosDirent)(self.im, j, self.raw(j))

    def flag(self, j):
        return self.v.get(self.b, self.base + 16 * j)


def l_read(st):
    S = st.run.cache["slots"]
    v, k = S.v, st.k
    st.require("entries so far", k <= S.n)
    st.local("i", 16 * k)
    st.local("num", k)
    st.parsed(st["directory"].dirents, k, S.entry)
    new = st.opaque(st["files"])
    if st.phase == "preserved":
        used = (S.flag(k - 1) // 64) % 2 == 1
        st.require("a file in use is listed", v.Implies(used, len(new) == 1))
        st.require("nothing else is listed", v.Implies(v.Not(used), len(new) == 0))
        if new:
            st.require("the listed file is the entry", new[0] is st["directory"].dirents[k - 1])
    st.forall("not at the end", 0, k, lambda j: S.flag(j) != 0)
    st.attr_fresh(st["self"], "all_sane", 0, 1)
    st.dead("dirent")
    st.decreases(S.n - k)


@contract("C06", functions=["AtariDosDiskImage.get_directory", "AtariDosDirent.__init__", "Directory.set", "DiskImageBase.get_sectors"],
          loops={"ataridos.AtariDosDiskImage.get_directory#0": l_read})
def c06_read_atari(v):
    """Reading the directory of any Atari image yields, for every slot before the first unused one, the entry stored in it under its number; the listing
    is exactly the entries in use, in order."""
    S = Slots(v, v.mod("ataridos").AtariDosDirent)
    S.g = g = Geo(v, kinds=[("atr", 92160), ("xfd", 183936)])
    S.im, S.b = im, b = image(v, g)
    S.base, S.n = g.pos(361), g.ss // 2
    if v.symbolic:
        v.run.cache["v"], v.run.cache["slots"] = v, S
    d = im.directory_class(g.h)
    im.get_directory(d)
    K = v.len(d.dirents)
    v.ensure("number of entries", v.And(K >= 0, K <= S.n))
    if v.true(K < S.n):
        v.cover("ends early")
        v.ensure("ends at the first unused entry", S.flag(K) == 0)
    v.forall("does not end before", 0, K, lambda j: S.flag(j) != 0)
    if not v.symbolic:
        def shown(e):
            return e and (type(e), e.file_num, e.in_use, e.is_sane, list(e.slot))
        want = [S.entry(j) for j in range(K)]
        v.ensure("entries", [shown(d.dirents.get(j)) for j in range(K)] == [shown(w) for w in want])
        v.ensure("files", [id(x) for x in im.files] == [id(d.dirents.get(j)) for j in range(K) if want[j].in_use])


class Chained(Catalog):
    """a catalog with K entries (the rest of its slots are unused), as it is stored; reading one entry is replaced by its contract"""
    def chained(self):
        v, S = self.v, self
        im = self.chain()
        v.assume(self.K <= 7 * self.M)
        self.im = im
        self.sane = v.bits("sane", 7 * self.M)

        def parse(self, image, data):
            if data is None:
                return
            t, f = v.get(data, 0), v.get(data, 2)
            self.deleted = v.bit(v.Ite(t == 255, 1, 0))
            self.track = v.Ite(t == 255, v.get(data, 32), t)
            self._file_type = f % 128
            self.locked = v.bit(v.Ite(f >= 128, 1, 0))
            self.slot = v.copy(data)
            self.is_sane = v.bit(v.get(S.sane, self.file_num))
        v.patch(v.mod("dos33").Dos33Dirent, "parse_raw_dirent", parse)
        return im

    def before(self, p):
        v = self.v
        s, t = p // 256, p % 256
        x = v.get(self.raw, p)
        if not v.symbolic and not (self.member(self.M, s)):
            return x
        i = self.idx(s)
        q, o = i * 7 + (t - 11) // 35, (t - 11) % 35
        if not v.symbolic and t < 11:
            return self.link(i, t, x)
        live = v.Ite(v.And(o == 0, x == 0, v.get(self.raw, v.Ite(p < 143358, p + 2, p)) == 0), 1, x)
        y = v.Ite(q < self.K, live, v.Ite(v.Or(o == 0, o == 2), 0, x))
        return v.Ite(self.member(self.M, s), v.Ite(t < 11, self.link(i, t, x), y), x)

    def parsed(self, j):
        p = 256 * self.order(j // 7) + 11 + 35 * (j % 7)
        return self.v.mod("dos33").Dos33Dirent(self.im, j, self.im.bytes[p:p + 35])

    def count(self, k):
        return self.v.Ite(7 * k < self.K, 7 * k, self.K)


def l_chain(st):
    D = st.run.cache["dir"]
    v, k = D.v, st.k
    st.require("sectors so far", k <= D.M)
    st.local("sector", v.Ite(k < D.M, D.order(k), 0))
    D.order(k - 1)
    st.set(st["sectors_seen"], lambda s: D.member(k, s))
    st.local("num", D.count(k))
    st.parsed(st["directory"].dirents, D.count(k), D.parsed)
    st.opaque(st["files"])
    st.attr_fresh(st["self"], "all_sane", 0, 1)
    st.dead("values", "style", "i", "dirent")
    st.decreases(D.M - k)


def l_slots(st):
    D = st.run.cache["dir"]
    v, k = D.v, st.k
    num = st.ghost("num", lambda: st["num"])
    st.require("entries so far", v.And(k <= 7, num + k <= D.K))
    st.local("i", 11 + 35 * k)
    st.local("num", num + k)
    st.parsed(st["directory"].dirents, num + k, D.parsed)
    new = st.opaque(st["files"])
    if st.phase == "preserved":
        e = D.parsed(num + k - 1)
        listed = v.And(e.is_sane, v.Not(e.deleted))
        st.require("a file in use is listed", v.Implies(listed, len(new) == 1))
        st.require("nothing else is listed", v.Implies(v.Not(listed), len(new) == 0))
        if new:
            st.require("the listed file is the entry", new[0] is st["directory"].dirents[num + k - 1])
    st.attr_fresh(st["self"], "all_sane", 0, 1)
    st.dead("dirent")
    st.decreases(7 - k)


@contract("C06", functions=["Dos33DiskImage.get_directory", "Dos33Dirent.__init__", "Dos33Dirent.flag", "Directory.set", "DiskImageBase.get_sectors", "Dos33Header.sector_from_track"],
          loops={"dos33.Dos33DiskImage.get_directory#0": l_chain, "dos33.Dos33DiskImage.get_directory#1": l_slots})
def c06_read_dos33(v):
    """Reading a DOS 3.3 catalog of any length that has K entries yields exactly these, each under its number; the listing is exactly the sane ones that
    are not deleted, in order."""
    D = Chained(v, "dos33", 700)
    im = D.chained()
    d = im.directory_class(D.g.h)
    im.get_directory(d)
    v.ensure("number of entries", v.len(d.dirents) == D.K)
    if not v.symbolic:
        def shown(e):
            return e and (type(e), e.file_num, e.in_use, e.is_sane, e.track, e.flag, list(e.slot))
        want = [D.parsed(j) for j in range(D.K)]
        v.ensure("entries", [shown(d.dirents.get(j)) for j in range(D.K)] == [shown(w) for w in want])
        v.ensure("files", [id(x) for x in im.files] == [id(d.dirents.get(j)) for j in range(D.K) if want[j].is_sane and not want[j].deleted])


# ---------------------------------------------------------------- how an entry keeps its name

class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def entered(v, g, im, cls, name, most):
    """enter a new file, store the entry, read it again, delete it, store and read it once more"""
    D = im.directory_class(g.h)
    i = v.int("place", 0, most)
    v.patch(type(D), "get_free_dirent", lambda self: i)
    e = D.add_dirent(name, "B")
    v.ensure("the entry is put in its place", D.dirents[i] is e)
    first, count = v.int("first sector", 16, 559), v.int("sectors", 1, 560)
    if g.kind == "dos33":
        e.track, e.sector = first // 16, first % 16
    e.update_sector_info(Thing(num_sectors=count, first_sector=first))
    r = cls(im, i, D.encode_dirent(e))
    v.ensure("in use", v.And(r.in_use, v.Not(r.deleted)))
    v.ensure("the name is kept", r.filename == name)
    v.ensure("sane", r.is_sane)
    v.ensure("number of sectors", r.num_sectors == count)
    v.ensure("place", r.file_num == i)
    v.ensure("does not end the directory", r.flag != 0)
    e.mark_deleted()
    raw = D.encode_dirent(e)
    q = cls(im, i, raw)
    v.ensure("not in use after deletion", v.And(v.Not(q.in_use), q.deleted))
    return r, q, first


def texts(v, name, n, bad):
    b = v.bstr(name, n, n)
    for j in range(n):
        c = v.get(b, j)
        v.assume(v.And(c >= (32 if bad == 0 and j < n - 1 else 33), c < 127, c != bad))
    return b.decode("latin1")


@contract("C06", functions=["Directory.add_dirent", "AtariDosDirent.set_values", "AtariDosDirent.encode_dirent", "AtariDosDirent.parse_raw_dirent", "AtariDosDirent.filename",
                            "AtariDosDirent.mark_deleted", "AtariDosDirectory.encode_dirent"])
def c06_name_atari(v):
    """A file entered into an Atari directory under any 8.3 name is found there under exactly this name, with its sectors, when the directory is read again;
    once deleted the stored entry is that of a deleted file and does not end the directory."""
    g = Geo(v, kinds=[("atr", 92160)])
    im, b = image(v, g)
    n, x = v.choice("length", list(range(1, 9))), v.choice("extension", [0, 1, 2, 3])
    name = texts(v, "name", n, 46)
    if x:
        name = name + "." + texts(v, "ext", x, 46)
    r, q, first = entered(v, g, im, v.mod("ataridos").AtariDosDirent, name, 63)
    v.ensure("first sector", r.starting_sector == first)
    v.ensure("flags of DOS 2", r.flag == 0x42)
    v.ensure("a deleted entry does not end the directory", q.flag != 0)


@contract("C06", functions=["Directory.add_dirent", "Dos33Dirent.set_values", "Dos33Dirent.encode_dirent", "Dos33Dirent.parse_raw_dirent", "Dos33Dirent.mark_deleted",
                            "Dos33Directory.encode_dirent", "Dos33Dirent.flag", "Dos33Dirent.in_use"])
def c06_name_dos33(v):
    """A file entered into a DOS 3.3 catalog under any name of up to 30 characters is found there under exactly this name, with its sectors, when the catalog
    is read again; once deleted the stored entry is that of a deleted file and does not end the catalog."""
    g = DosGeo(v, full=True)
    im, b = dosimage(v, g)
    n = v.choice("length", list(range(1, 31)))
    r, q, first = entered(v, g, im, v.mod("dos33").Dos33Dirent, texts(v, "name", n, 0), 104)
    v.ensure("first sector", v.And(r.track == first // 16, r.sector == first % 16))
    v.ensure("a deleted entry does not end the catalog", v.Or(q.flag != 0, q.track != 0))
