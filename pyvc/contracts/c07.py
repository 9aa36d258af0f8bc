"""C07: sector geometry."""
from pyvc.api import contract

KINDS = ["atr", "xfd", "dos33", "sd"]


def header(v, kind, hname="size"):
    """a header of the kind, for a data area of arbitrary admissible size -> (header, first label, data size)"""
    if kind == "atr":
        # an arbitrary ATR header: sector size and image size from the file
        ss = v.choice("secsize", [128, 256])
        n = v.int("nsec", 1, 70000)
        total = v.int("total", 1)
        h = v.mod("ataridos").AtrHeader()
        h.header_offset = 16
        h.sector_size = ss
        h.check_size(total)
        # the image holds whole sectors (after its short boot sectors, if any)
        v.assume(v.Or(total == n * ss, total == 183936, total == 92160, total == 184320))
        v.assume(v.And(total != 92176, total != 184336, total != 183952))
        return h, 1, total
    if kind == "xfd":
        n = v.int("nsec", 1, 70000)
        total = v.int("total", 1)
        h = v.mod("ataridos").XfdHeader()
        h.check_size(total)
        v.assume(v.Or(total == n * 128, total == 183936, total == 92160, total == 184320))
        v.assume(v.And(total != 92176, total != 184336, total != 183952))
        return h, 1, total
    if kind == "dos33":
        h = v.mod("dos33").Dos33Header()
    else:
        h = v.mod("standard_delivery").StandardDeliveryHeader(create=True)
    h.check_size(143360)
    return h, 0, 143360


@contract("C07", functions=["AtrHeader.check_size", "AtrHeader.get_pos", "BaseHeader.get_pos", "BaseHeader.sector_is_valid"])
def c07_sectors_tile(v):
    """For every geometry and every sector number s: get_pos(s) succeeds exactly if s is a sector of the disk, the first sector starts right after
    the header, every next sector starts where the one before ends, sizes are positive, and the last sector ends at the end of the image."""
    kind = v.choice("kind", KINDS)
    h, lab, total = header(v, kind)
    n = h.max_sectors
    first = v.call(h.get_pos, lab)
    v.ensure("the first sector exists", first.ok)
    v.ensure("the first sector starts after the header", first.value[0] == h.header_offset)
    s = v.int("s")
    r = v.call(h.get_pos, s)
    if r.ok:
        v.cover("valid sector")
        pos, size = r.value
        v.ensure("only sectors of the disk are accepted", v.And(s >= lab, s < lab + n))
        v.ensure("sectors are not empty", size > 0)
        nx = v.call(h.get_pos, s + 1)
        if nx.ok:
            v.ensure("the next sector starts where this one ends", nx.value[0] == pos + size)
        else:
            v.cover("last sector")
            v.ensure("the last sector ends at the end of the image", pos + size == h.header_offset + total)
    else:
        v.cover("no such sector")
        v.ensure("out of range sectors raise the sector error", r.raised("ByteNotInFile166"))
        v.ensure("every sector of the disk is accepted", v.Or(s < lab, s >= lab + n))


@contract("C07", functions=["BaseHeader.sector_from_track", "BaseHeader.track_from_sector"])
def c07_tracks_bijective(v):
    """Track/sector pairs and sector numbers convert into each other without loss, for every geometry that has tracks."""
    kind = v.choice("kind", KINDS)
    h, lab, total = header(v, kind)
    spt = h.sectors_per_track
    v.ensure("the geometry has tracks", spt > 0)
    s = v.int("s", 0)
    t, q = h.track_from_sector(s)
    v.ensure("the sector part is below the sectors per track", v.And(q >= 0, q < spt, t >= 0))
    v.ensure("sector to track and back", h.sector_from_track(t, q) == s)
    t = v.int("t", 0)
    q = v.int("q", 0)
    v.assume(q < spt)
    t2, q2 = h.track_from_sector(h.sector_from_track(t, q))
    v.ensure("track to sector and back", v.And(t2 == t, q2 == q))


def image(v, kind):
    """image object over symbolic bytes"""
    h, lab, total = header(v, kind)
    b = v.bytes("img", h.header_offset + total)
    SD = v.mod("segments").SegmentData
    cls = v.mod("diskimages").DiskImageBase
    im = cls.__new__(cls)
    im.rawdata = SD(b)
    im.bytes = im.rawdata.get_data()
    im.style = im.rawdata.get_style()
    im.size = v.len(b)
    im.header = h
    return im, h, lab, b


@contract("C07", functions=["DiskImageBase.get_raw_bytes"])
def c07_read_sector(v):
    """Reading one sector returns exactly the bytes of its range, or raises the sector error."""
    kind = v.choice("kind", KINDS)
    im, h, lab, b = image(v, kind)
    s = v.int("s")
    r = v.call(im.get_raw_bytes, s)
    if r.ok:
        v.cover("read")
        data, pos, size = r.value
        p, z = h.get_pos(s)
        v.ensure("reported position and size", v.And(pos == p, size == z))
        v.ensure("as many bytes as the sector has", v.len(data) == z)
        v.forall("the sector's bytes", 0, z, lambda i: v.get(data, i) == v.get(b, p + i))
    else:
        v.ensure("the sector error", r.raised("ByteNotInFile166"))
        v.ensure("only for sectors outside the disk", v.Or(s < lab, s >= lab + h.max_sectors))


def inv_slice(s):
    """pos..pos+size spans the sectors from the first up to `start`"""
    first = s["pos"]
    st = s.fresh("start", hi=s["end"]) if s["end"] is not None else s.fresh("start")
    size = s.fresh("size")
    p, z = s["self"].header.get_pos(st)
    s.require("the run read so far ends where sector `start` ends", first + size == p + z)
    s.decreases(s["end"] - st)


def inv_contig(s):
    """start is the position of the first sector, count the bytes of the k sectors so far"""
    h = s["self"].header
    a = s["sector"]
    start = s.fresh("start")
    count = s.fresh("count", lo=0)
    run = s.run
    if bool(s.k > 0):
        p0, _ = h.get_pos(a)
        p, z = h.get_pos(a + s.k - 1)
        s.require("start is the first sector's position", start == p0)
        s.require("the run ends where the last sector ends", start + count == p + z)
    else:
        s.require("nothing read yet", count == 0)


@contract("C07", functions=["DiskImageBase.get_sector_slice", "DiskImageBase.get_sectors"], loops={"diskimages.DiskImageBase.get_sector_slice#0": inv_slice})
def c07_read_run(v):
    """Reading sectors a to b returns exactly the bytes from the start of a to the end of b, however many there are; the sector error otherwise."""
    kind = v.choice("kind", KINDS)
    im, h, lab, b = image(v, kind)
    a = v.int("a")
    e = v.int("b")
    v.assume(a <= e)
    r = v.call(im.get_sectors, a, e)
    n = h.max_sectors
    if r.ok:
        v.cover("read")
        data, style = r.value
        p, z = h.get_pos(a)
        p2, z2 = h.get_pos(e)
        v.ensure("both ends are sectors of the disk", v.And(a >= lab, e < lab + n))
        v.ensure("length of the run", v.And(v.len(data) == p2 + z2 - p, v.len(style) == v.len(data)))
        v.forall("the bytes of the run", 0, p2 + z2 - p, lambda i: v.get(data, i) == v.get(b, p + i))
    else:
        v.cover("refused")
        v.ensure("the sector error", r.raised("ByteNotInFile166"))
        v.ensure("only for sectors outside the disk", v.Or(a < lab, e >= lab + n))


@contract("C07", functions=["DiskImageBase.get_sectors"])
def c07_read_one_default(v):
    """get_sectors with one argument reads that sector."""
    kind = v.choice("kind", KINDS)
    im, h, lab, b = image(v, kind)
    a = v.int("a")
    r = v.call(im.get_sectors, a)
    if r.ok:
        data, style = r.value
        p, z = h.get_pos(a)
        v.ensure("length", v.len(data) == z)
        v.forall("bytes", 0, z, lambda i: v.get(data, i) == v.get(b, p + i))
    else:
        v.ensure("the sector error", r.raised("ByteNotInFile166"))
        v.ensure("only outside the disk", v.Or(a < lab, a >= lab + h.max_sectors))


@contract("C07", functions=["DiskImageBase.get_contiguous_sectors"], loops={"diskimages.DiskImageBase.get_contiguous_sectors#0": inv_contig})
def c07_contiguous(v):
    """get_contiguous_sectors gives the start of the first sector and the number of bytes up to the end of the last one."""
    kind = v.choice("kind", KINDS)
    im, h, lab, b = image(v, kind)
    a = v.int("a")
    num = v.int("num", 1)
    r = v.call(im.get_contiguous_sectors, a, num)
    n = h.max_sectors
    if r.ok:
        v.cover("found")
        start, count = r.value
        v.ensure("both ends are sectors of the disk", v.And(a >= lab, a + num <= lab + n))
        p, z = h.get_pos(a)
        p2, z2 = h.get_pos(a + num - 1)
        v.ensure("start", start == p)
        v.ensure("count", count == p2 + z2 - p)
    else:
        v.cover("refused")
        v.ensure("the sector error", r.raised("ByteNotInFile166"))
        v.ensure("only outside the disk", v.Or(a < lab, a + num > lab + n))
