"""C12: boot images."""
from pyvc.api import contract, AtMost


@contract("C12", functions=["KBootImage.create_boot_image", "add_xexboot_header", "KBootDirent.__init__", "KBootImage.get_file_segment"])
def c12_kboot(v):
    """The KBoot image for any executable (of up to 65535 bytes) is recognised as such and yields that executable."""
    n = v.int("n", 6, 65535)
    seg = v.mod("segments")
    if v.symbolic:
        d = v.bytes("data", n)
        s = seg.DefaultSegment(seg.SegmentData(v.copy(d)))
        v.stub(v.mod("kboot"), "get_xex", lambda segments, run_addr=None: (s, [s]))
        segs = [s]
    else:
        # any executable is one that get_xex makes: marker, run address and one segment
        d0 = v.bytes("data", n)
        segs = [seg.DefaultSegment(seg.SegmentData(v.copy(d0[:max(1, n - 12)])), 0x2000 if n < 40000 else 0)]
        d = v.mod("executables").get_xex(segs)[0].data.copy()
        n = len(d)
    kb = v.mod("kboot").KBootImage
    im = kb.create_boot_image(segs)
    size = v.len(im.bytes)
    v.ensure("whole sectors behind the boot code", size == 16 + 384 + (n + 127) // 128 * 128)
    im2 = kb(seg.SegmentData(v.copy(im.bytes)))
    o = v.call(im2.strict_check)
    v.ensure("recognised", o.ok)
    v.ensure("one file", v.len(im2.files) == 1)
    f = im2.get_file_segment(im2.files[0])
    v.ensure("length of the executable", v.len(f) == n)
    v.forall("the executable", 0, n, lambda i: v.get(f.data, i) == v.get(d, i))


ORDER = [0, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 15]


def loader(v, img):
    """the boot loader: (run address, [(page, sector)] in loading order)"""
    boot = v.mod("fstbt").fstbt
    p = len(boot)
    for i in (0, 1, 2, p // 2, p - 1):
        v.ensure("boot code", v.get(img, i) == boot[i])
    run = v.get(img, p) + 256 * v.get(img, p + 1)
    out, k, last, i = [], 1, None, p + 2
    while True:
        v.ensure("the command list ends", i < 256)
        if i >= 256:
            break
        c = v.get(img, i)
        i += 1
        if v.true(c == 0xc0):
            break
        if v.true(v.And(c >= 0xd0, c <= 0xd2)):
            continue
        if v.true(c < 0xc0):
            pages = [c]
        else:
            m = c & 0x1f
            if not isinstance(m, int):
                for z in range(32):
                    if v.true(m == z):
                        m = z
                        break
            pages = [last + 1 + j for j in range(m)]
        for g in pages:
            out.append((g, 16 * (k // 16) + ORDER[k % 16]))
            k += 1
            last = g
    return run, out


def delivery(v, segs, run, whole=False):
    """segs: [(origin, length, data)]"""
    seg = v.mod("segments")
    ss = [seg.DefaultSegment(seg.SegmentData(v.copy(d)), o) for o, n, d in segs]
    im = v.mod("standard_delivery").StandardDeliveryImage.create_boot_image(ss, run)
    img = im.bytes
    v.ensure("size of the image", v.len(img) == 143360)
    r, cmds = loader(v, img)
    v.ensure("run address", r == (segs[0][0] if run is None else run))
    used = [0] + [s for g, s in cmds]
    v.ensure("no sector is used twice", len(set(used)) == len(used))
    v.ensure("only sectors of the disk", max(used) < 560)
    if whole:
        # concrete addresses: every page of every segment
        top = {}
        for j, (o, n, d) in enumerate(segs):
            for p in range(o // 256, (o + n + 255) // 256):
                top[p] = j
        where = dict(cmds)
        for p, j in top.items():
            o, n, d = segs[j]
            v.ensure("the page of the byte is loaded", p in where)
            v.forall("every byte lands at its address", max(o, p * 256), min(o + n, p * 256 + 256), lambda a: v.get(img, where.get(p, 0) * 256 + a - p * 256) == v.get(d, a - o))
        return
    j = v.choice("which", list(range(len(segs))))
    o, n, d = segs[j]
    t = v.int("t", 0)
    v.assume(t < n)
    a = o + t
    for o2, n2, d2 in segs[j + 1:]:
        v.assume(v.Or(a < o2, a >= o2 + n2))    # a later segment is on top
    val, hit = None, False
    for g, s in reversed(cmds):
        if v.true(g == a // 256):
            val, hit = v.get(img, s * 256 + a % 256), True
            break
    v.ensure("the page of the byte is loaded", hit)
    if hit:
        v.ensure("every byte lands at its address", val == v.get(d, t))


def small(v, k, top=520, lo=0x300):
    segs = []
    for i in range(k):
        o = v.int("origin%d" % i, lo, 0xbcff)
        v.assume(v.And(o != 0x2001, o != 0x4001))
        n = v.int("len%d" % i, 1, top)
        segs.append((o, n, v.bytes("data%d" % i, n)))
    return segs


def anyrun(v):
    return v.int("run", 0, 65535) if v.choice("asked", [False, True]) else None


@contract("C12", functions=["StandardDeliveryImage.create_boot_image", "get_fstbt_code"], bounded="one segment of up to 520 bytes at any address", unroll=6)
def c12_delivery_1(v):
    """One segment: each byte lands at its address, the run address is stored and no sector is used twice."""
    delivery(v, small(v, 1), anyrun(v))


@contract("C12", functions=["StandardDeliveryImage.create_boot_image", "get_fstbt_code"], bounded="two segments of up to 130 bytes at any addresses from $4100 on (they may overlap)", unroll=6)
def c12_delivery_2(v):
    """Two segments, which may share pages."""
    delivery(v, small(v, 2, 130, 0x4100), None)


@contract("C12", functions=["StandardDeliveryImage.create_boot_image", "get_fstbt_code"], bounded="two segments of up to 260 bytes at any addresses (they may overlap)", unroll=6, tier="thorough")
def c12_delivery_2_any(v):
    """Two segments, which may share pages, anywhere."""
    delivery(v, small(v, 2, 260), None)


@contract("C12", functions=["StandardDeliveryImage.create_boot_image", "get_fstbt_code"], bounded="some sizes and page aligned addresses, any bytes")
def c12_delivery_big(v):
    """Segments of many pages, among them whole screens: any bytes."""
    segs = []
    for i, (o, n) in enumerate(v.choice("layout", [[(0x2000, 0x2000)], [(0x4000, 0x2000), (0x2000, 0x2000)], [(0x6000, 33 * 256 + 5), (0x2000, 0x2000)], [(0x800, 35 * 256)]])):
        segs.append((o, n, v.bytes("data%d" % i, n)))
    delivery(v, segs, None, True)


class Boot:
    """ghost: any number of segments.  c(j), cnt(j): first page and number of pages of segment j; T(j): pages before it; M(j, a): memory after the
    first j segments are stored; page(j, i): page that load i of segment j goes to; L(j, p): the load that fills page p last after j segments (0: none)"""
    def __init__(self, v):
        self.v = v
        n = self.n = v.int("count", 1)
        self.segs, self._O, self.N, self.D = v.seglist("seg", n, omax=0xbfff, top=0xc000)
        names = ["M", "T", "S", "L", "own", "boot", "sector"]
        self.raw = {k: v.spec(k) for k in names} if v.symbolic else {}
        self.k = None
        if v.symbolic:
            v.run.cache["boot"] = self
        else:
            v.assume(all(self.O(j) not in (0x2001, 0x4001) for j in range(n)))
            v.assume(sum(self.cnt(j) for j in range(n)) <= 559)
        j = self.j = v.int("which", 0)
        v.assume(j < n)
        t = v.int("t", 0)
        v.assume(t < self.N(j))
        self.a = self.O(j) + t
        self.p, self.x = self.a // 256, self.a % 256

    def fact(self, c):
        if not isinstance(c, bool):
            self.v.run.fact(c.e)

    def O(self, j):
        o = self._O(j)
        if self.v.symbolic:
            self.fact(self.v.And(o != 0x2001, o != 0x4001))     # domain
        return o

    def c(self, j):
        return self.O(j) // 256

    def cnt(self, j):
        return (self.N(j) + self.O(j) % 256 + 255) // 256

    def within(self, j, a):
        return self.v.And(a >= self.O(j), a < self.O(j) + self.N(j))

    def M(self, j, a):
        v, t, i = self.v, self.raw["M"](j, a), j - 1
        self.fact(v.And(t >= 0, t <= 255, v.Implies(j == 0, t == 0), v.Implies(j > 0, t == v.Ite(self.within(i, a), self.D(i, a - self.O(i)), self.raw["M"](i, a)))))
        return t

    def T(self, j):
        v, t = self.v, self.raw["T"](j)
        # domain: the pages of all segments fit on the disk, so those of the first j do
        self.fact(v.And(v.Implies(v.And(j >= 0, j <= self.n), v.And(t >= 0, t <= 559)), v.Implies(j == 0, t == 0), v.Implies(j > 0, t == self.raw["T"](j - 1) + self.cnt(j - 1))))
        return t

    def seen(self, j):
        """does one of the first j segments start in the first page of the screen"""
        v, t = self.v, self.raw["S"](j)
        self.fact(v.And(v.Implies(j == 0, t == 0), v.Implies(j > 0, t == v.Ite(self.c(j - 1) == 0x20, 1, self.raw["S"](j - 1)))))
        return t == 1

    def screen(self, j):
        return self.v.And(self.c(j) == 0x20, self.cnt(j) == 32, self.v.Not(self.seen(j)))

    def page(self, j, i):
        return self.v.Ite(self.screen(j), 0x20 + 4 * (i % 8) + i // 8, self.c(j) + i)

    def load(self, j, p):
        return self.v.Ite(self.screen(j), (p - 0x20) % 4 * 8 + (p - 0x20) // 4, p - self.c(j))

    def L(self, j, p):
        v, t, i = self.v, self.raw["L"](j, p), j - 1
        self.fact(v.And(v.Implies(j == 0, t == 0), v.Implies(j > 0, t == v.Ite(v.And(p >= self.c(i), p < self.c(i) + self.cnt(i)), 1 + self.T(i) + self.load(i, p), self.raw["L"](i, p)))))
        return t

    def owner(self, s):
        return self.raw["own"](s)

    def owns(self, j, i):
        """load 1 + T(j) + i belongs to segment j (i < cnt(j))"""
        v = self.v
        s = 1 + self.T(j) + i
        self.fact(v.Implies(v.And(i >= 0, i < self.cnt(j)), self.owner(s) == j))

    def content(self, s, x):
        """byte x of the sector for load s >= 1"""
        j = self.owner(s)
        return self.M(j + 1, self.page(j, s - 1 - self.T(j)) * 256 + x)

    def order16(self, s):
        v = self.v
        q, r = s // 16, s % 16
        return 16 * q + v.Ite(v.Or(r == 0, r == 15), r, 15 - r)

    def sector(self, s):
        """the sector for load s; unfolded with the lemma that order16 is its own inverse (an obligation of the contract)"""
        v, t = self.v, self.raw["sector"](s)
        self.fact(v.Implies(s >= 0, v.And(t == self.order16(s), self.raw["sector"](t) == s)))
        return t

    def bootbyte(self, x):
        t = self.raw["boot"](x)
        self.fact(self.v.And(t >= 0, t <= 255))
        return t

    def fields(self, s):
        return dict(_sector_num=self.sector(s), _next_sector=0, sector_size=256, file_num=0, used=256, ptr=256, data=arr(256, lambda x: self.content(s, x)))

    def commands(self, cmds, ctr, cur, last):
        """what the loader does with these commands: (loads so far, load that filled page p last, last page)"""
        v = self.v
        for c in cmds:
            if isinstance(c, tuple):
                # the commands for the pages of segment k, as the loop that makes them leaves them (d_order)
                v.ensure("the commands of the segment", self.order[0] is c)
                a, m = self.order[1:3]
                cur = v.Ite(v.And(self.p >= a, self.p < a + m), ctr + self.p - a, cur)
                ctr, last = ctr + m, a + m - 1
                continue
            v.ensure("a command is a byte", v.And(c >= 0, c <= 255))
            v.ensure("the command list does not end early", c != 0xc0)
            if v.true(v.And(c >= 0xd0, c <= 0xd2)):
                continue
            if v.true(c < 0xc0):
                cur, ctr, last = v.Ite(c == self.p, ctr, cur), ctr + 1, c
            else:
                v.ensure("a command of the loader", c >= 0xe0)
                v.ensure("a page has been loaded before", last is not None)
                if last is None:
                    return ctr, cur, last
                m = c - 0xe0
                cur = v.Ite(v.And(self.p > last, self.p <= last + m), ctr + self.p - last - 1, cur)
                ctr, last = ctr + m, last + m
        return ctr, cur, last


def arr(n, fn):
    from pyvc.containers import Arr
    return Arr(n, fn)


def d_segments(st):
    g = st.run.cache["boot"]
    st.dead("s", "origin", "chunk_start", "padding", "show_hgr", "size", "chunk", "prev_start", "prev_chunk", "_", "offset", "first", "last")
    g.k = st.k
    st.tuples(st["chunks"], st.k, lambda j: (g.c(j), arr(g.cnt(j) * 256, lambda x: g.M(j + 1, g.c(j) * 256 + x)), True))


def d_earlier(st):
    g = st.run.cache["boot"]
    k = g.k
    st.dead("prev_start", "prev_chunk", "_", "offset", "first", "last")
    st.array(st["chunk"], lambda x: g.M(st.k, g.c(k) * 256 + x))


def d_chunks(st):
    g = st.run.cache["boot"]
    v, k = g.v, st.k
    g.k = k
    T = g.T(k)
    st.local("index", (1 + T) % 16)
    st.local("track", (1 + T) // 16)
    st.local("first_page_1", st.Not(g.seen(k)))
    st.dead("chunk_start", "chunk_data", "show_hgr", "count", "chunk_hi", "address_order", "n", "subset", "i", "sector")
    st.objects(st["sector_list"], 1 + T, type(st["boot_sector"]), g.fields, first=st["boot_sector"])
    lst = st["address_list"]
    if st.phase == "established":
        ctr, cur, last = g.commands(list(lst), 1, 0, None)
    tail = st.opaque(lst, numbers=True)
    st.require("there are commands", lst.slen() >= 1)
    if st.phase == "preserved":
        ctr, cur, last = g.commands(tail, 1 + g.T(k - 1), g.L(k - 1, g.p), None)
    if st.mode == "check":
        st.require("the loader makes as many loads as there are pages", ctr == 1 + T)
        st.require("the loader fills the page of the byte from the expected sector", cur == g.L(k, g.p))
    x = g.L(k, g.p)
    st.require("a load made so far", st.And(x >= 0, x <= T))
    st.require("the page of an earlier segment is filled", st.Implies(k > g.j, x > 0))
    if st.phase == "preserved":
        i = k - 1
        here = st.And(g.p >= g.c(i), g.p < g.c(i) + g.cnt(i))
        g.owns(i, g.load(i, g.p))
        st.require("the load for a page of the segment", st.Implies(here, st.And(g.page(i, g.load(i, g.p)) == g.p, g.load(i, g.p) >= 0, g.load(i, g.p) < g.cnt(i))))
        st.require("its load belongs to the segment", st.Implies(here, g.owner(x) == i))
        st.require("other pages stay", st.Implies(st.Not(here), st.And(g.M(k, g.a) == g.M(i, g.a), x == g.L(i, g.p))))
        st.require("its sector holds the byte", st.Implies(here, g.content(x, g.x) == g.M(k, g.a)))
    st.require("the sector holds the byte", st.Implies(x > 0, g.content(x, g.x) == g.M(k, g.a)))


def d_order(st):
    """the commands made so far load the first 32 * k pages of the segment one after another"""
    g = st.run.cache["boot"]
    v, n = g.v, st.k
    st.dead("n", "subset")
    lst = st["address_order"]
    a, c = g.c(g.k), g.cnt(g.k)
    m = v.Ite(32 * n < c, 32 * n, c)
    base, L = 1 + g.T(g.k), g.L(g.k, g.p)
    if st.phase == "established":
        ctr, cur, last = g.commands(list(lst), base, L, None)
    tail = st.opaque(lst, numbers=True)
    if st.phase == "preserved":
        ctr, cur, last = g.commands(tail, *g.order[3:])
    want = (base + m, v.Ite(v.And(g.p >= a, g.p < a + m), base + g.p - a, L), a + m - 1)
    if st.mode == "check":
        st.require("one load for each page", ctr == want[0])
        st.require("the page of the byte is filled by its load", cur == want[1])
        if n.__class__ is not int or n > 0:
            st.require("the last page loaded", st.Implies(n > 0, last == want[2]) if last is not None else n == 0)
    else:
        g.order = (lst.sym, a, m, want[0], want[1], None if v.true(n == 0) else want[2])


def d_pages(st):
    g = st.run.cache["boot"]
    k, n = g.k, st.k
    s = 1 + g.T(k) + n
    g.T(k + 1)
    st.local("count", g.cnt(k) + n)
    st.local("index", s % 16)
    st.local("track", s // 16)
    st.dead("i", "sector", "n")
    if st.mode == "check":
        g.owns(k, n - 1)
    st.objects(st["sector_list"], s, type(st["boot_sector"]), g.fields, first=st["boot_sector"])


def d_write(st):
    g = st.run.cache["boot"]
    v, k = g.v, st.k
    st.dead("sector", "pos", "size")

    def byte(p):
        s = g.sector(p // 256)
        return v.Ite(s < k, v.Ite(s == 0, g.bootbyte(p % 256), g.content(s, p % 256)), 0)
    st.array(st["self"].bytes, byte)


SD = "standard_delivery.StandardDeliveryImage.create_boot_image#"


D_LOOPS = {SD + "0": d_segments, SD + "1": d_earlier, SD + "2": d_chunks, SD + "3": d_order, SD + "4": d_pages, "diskimages.DiskImageBase.write_sector_list#0": d_write}


@contract("C12", functions=["StandardDeliveryImage.create_boot_image", "DiskImageBase.write_sector_list"], loops=D_LOOPS)
def c12_delivery(v):
    """Any number of segments of any size in pages below $C0 that fit on the disk: the commands make the loader read the sectors one after another, no
    sector twice, and what they load last to the page of any byte of any segment has that byte (or that of a later segment) at its place.
    get_fstbt_code is replaced by its contract (c12_fstbt), so the loader sees the commands as listed."""
    delivered(v, None)


@contract("C12", functions=["StandardDeliveryImage.create_boot_image", "DiskImageBase.write_sector_list"], loops=D_LOOPS, tier="thorough")
def c12_delivery_at(v):
    """as c12_delivery, with a run address given"""
    delivered(v, v.int("run", 0, 65535))


def delivered(v, run):
    g = Boot(v)
    m = v.mod("standard_delivery")
    if not v.symbolic or not v.cut:
        segs = list(g.segs)
        if v.symbolic:
            for j in range(len(segs)):
                v.assume(g.N(j) <= 300)
            v.assume(g.n <= 2)
        o = v.call(m.StandardDeliveryImage.create_boot_image, segs, run)
        if not v.symbolic:
            v.assume(o.ok or not o.raised("ValueError"))       # the command list does not fit in the boot sector
        v.ensure("the image is made", o.ok)
        img = o.value.bytes
        r, cmds = loader(v, img)
        v.ensure("run address", r == (g.O(0) if run is None else run))
        used = [0] + [s for _, s in cmds]
        v.ensure("no sector is used twice", len(set(used)) == len(used))
        v.ensure("only sectors of the disk", max(used) < 560)
        want = None
        for i in range(len(segs)):
            if v.true(g.within(i, g.a)):
                want = g.D(i, g.a - g.O(i))
        hit = None
        for q, s in cmds:
            if v.true(q == g.p):
                hit = s
        v.ensure("the page of the byte is loaded", hit is not None)
        if hit is not None:
            v.ensure("every byte lands at its address", v.get(img, hit * 256 + g.x) == want)
        return
    s0 = v.int("s0", 0)
    v.ensure("the order of the sectors is its own inverse", g.order16(g.order16(s0)) == s0)
    seen = []

    def code(data, address_list, run_addr):
        seen.append((data, address_list, run_addr))
        v.fill(data, lambda q: g.bootbyte(q))
    v.stub(m, "get_fstbt_code", code)
    o = v.call(m.StandardDeliveryImage.create_boot_image, g.segs, run)
    v.ensure("the image is made", o.ok)
    img = o.value.bytes
    v.ensure("size of the image", v.len(img) == 143360)
    v.ensure("the boot code is made once", len(seen) == 1)
    v.ensure("run address", seen[0][2] == (g.O(0) if run is None else run))
    v.ensure("no commands behind those of the last segment", len(seen[0][1].tail) == 0)
    s = g.L(g.n, g.p)
    q = v.int("q", 0, 255)
    v.ensure("the boot sector is at the start of the disk", v.get(img, q) == g.bootbyte(q))
    v.ensure("the page of the byte is loaded", v.And(s >= 1, s <= g.T(g.n)))
    v.ensure("every byte lands at its address", v.get(img, g.sector(s) * 256 + g.x) == g.M(g.n, g.a))
    s1, s2 = v.int("s1", 0, 559), v.int("s2", 0, 559)
    v.ensure("no sector is used twice", v.Implies(g.sector(s1) == g.sector(s2), s1 == s2))
    v.ensure("only sectors of the disk", v.And(g.sector(s1) >= 0, g.sector(s1) < 560))


@contract("C12", functions=["get_fstbt_code"], loops={"(none)": AtMost(0)})
def c12_fstbt(v):
    """The boot sector is the boot code, the run address (low byte first), the commands as listed (as many as fit) and the end command."""
    m = v.mod("standard_delivery")
    boot = v.mod("fstbt").fstbt
    z = len(boot)
    n = v.int("n", 0, 253 - z)
    cmds = v.bytes("cmds", n)
    data = v.bytes("data", 256)
    d0 = v.copy(data)
    run = v.int("run", 0, 65535)
    lst = v.numlist(lambda i: v.get(cmds, i), n)
    m.get_fstbt_code(data, lst, run)
    v.ensure("boot code", v.And(*[v.get(data, i) == x for i, x in enumerate(boot)]))
    v.ensure("run address", v.And(v.get(data, z) == run % 256, v.get(data, z + 1) == run // 256))
    v.forall("the commands", 0, n, lambda i: v.get(data, z + 2 + i) == v.get(cmds, i))
    v.ensure("the end command", v.get(data, z + 2 + n) == 0xc0)
    v.forall("nothing else", z + 3 + n, 256, lambda i: v.get(data, i) == v.get(d0, i))


@contract("C12", functions=[])
def c12_prefix(v):
    """Lemma behind the ghost T and owner of c12_delivery, by induction on j (start and step): the loads of segment i come before those of every later
    segment j, so no load belongs to two segments, and the first j segments have at most as many pages as all."""
    T = [v.int("t%d" % i, 0, 559) for i in range(2)]
    ci, cj = v.int("ci", 1, 560), v.int("cj", 1, 560)
    # start: j == i + 1, T(j) == T(i) + cnt(i)
    v.ensure("start", v.Implies(T[1] == T[0] + ci, v.And(T[0] + ci <= T[1], T[0] >= 0)))
    # step: T(i) + cnt(i) <= T(j) and T(j + 1) == T(j) + cnt(j)
    nxt = T[1] + cj
    v.ensure("step", v.Implies(T[0] + ci <= T[1], v.And(T[0] + ci <= nxt, nxt >= 0, T[1] <= nxt)))
    x, y = v.int("x", 0), v.int("y", 0)
    v.ensure("no load of two segments", v.Implies(v.And(T[0] + ci <= T[1], x < ci, y < cj), T[0] + x != T[1] + y))
