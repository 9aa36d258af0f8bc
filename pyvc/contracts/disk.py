"""Disk images for the contracts on C01-C06, C08, C09."""


class Geo:
    """an Atari DOS 2 geometry: positions of sectors in closed form"""
    def __init__(self, v, name="geometry", kinds=None):
        kinds = kinds or [("atr", 92160), ("xfd", 92160), ("atr", 133120), ("xfd", 133120), ("atr", 183936), ("xfd", 183936), ("atr", 184320), ("xfd", 184320)]
        self.v = v
        kind, size, ss = (v.choice(name, kinds) + (0,))[:3]
        A = v.mod("ataridos")
        if kind == "atr":
            h = A.AtrHeader()
            h.header_offset = 16
        else:
            h = A.XfdHeader()
        extra = 16 if kind == "xfd+" else 0         # a headerless image of the length of one with a header
        if ss:
            h.sector_size = ss
        h.check_size(size)
        self.h, self.size, self.total = h, size, size + h.header_offset + extra
        self.off = h.header_offset
        self.ss = ss or (256 if size > 140000 else 128)
        self.ini = 3 if size == 183936 else 0
        self.payload = self.ss - 3
        self.max = (size - self.ini * 128) // self.ss + self.ini
        self.kind = kind

    def pos(self, s):
        """start of sector s (not one of the short boot sectors)"""
        return self.off + self.ini * 128 + (s - 1 - self.ini) * self.ss

    label = 1

    def vtoc_pos(self):
        return self.pos(360)

    def sector(self, p):
        """sector that holds position p, including the boot sectors; 0 if p is in the header"""
        v = self.v
        q = p - self.off
        if not self.ini:
            return v.Ite(q < 0, 0, q // self.ss + 1)
        return v.Ite(q < 0, 0, v.Ite(q < self.ini * 128, q // 128 + 1, (q - self.ini * 128) // self.ss + 1 + self.ini))

    def sec(self, p):
        """sector that holds position p, 0 if p is before the first full-size sector"""
        v = self.v
        q = p - self.off - self.ini * 128
        return v.Ite(q < 0, 0, q // self.ss + 1 + self.ini)


def image(v, g, cls=None, name="img"):
    """image object over arbitrary bytes, not parsed; returns it and its original bytes"""
    A = v.mod("ataridos")
    cls = cls or A.AtariDosDiskImage
    b = v.bytes(name, g.total)
    im = cls.__new__(cls)
    im.rawdata = v.mod("segments").SegmentData(v.copy(b))
    im.bytes = im.rawdata.get_data()
    im.style = im.rawdata.get_style()
    im.size = g.total
    im.header = g.h
    im.files = []
    im.segments = []
    im.all_sane = True
    im.filename, im.ext = "", ""
    im.total_sectors = im.unused_sectors = 0
    im.default_filetype = ""
    im.first_vtoc, im.num_vtoc, im.first_data_after_vtoc = 360, 1, 369
    im.vtoc2 = 1024 if g.size == 133120 else 0
    return im, b


class DosGeo:
    """the DOS 3.3 geometry; the VTOC may declare fewer sectors than the image holds"""
    kind, label, ss, off, total = "dos33", 0, 256, 0, 143360

    def __init__(self, v, full=False):
        self.v = v
        h = v.mod("dos33").Dos33Header()
        h.check_size(143360)
        self.h = h
        if full:
            self.max = 560
        else:
            self.max = v.int("sectors", 273, 560)
            h.max_sectors = self.max
        h.ts_pairs = 122
        h.dos_release = 3
        h.last_track_num, h.track_alloc_dir = 18, 1

    def vtoc_pos(self):
        return 272 * 256

    def pos(self, s):
        return 256 * s

    def sector(self, p):
        """sector that holds position p, -1 if the disk has no such sector"""
        return self.v.Ite(p // 256 < self.max, p // 256, -1)


def dosimage(v, g, name="img"):
    cls = v.mod("dos33").Dos33DiskImage
    b = v.bytes(name, g.total)
    im = cls.__new__(cls)
    im.rawdata = v.mod("segments").SegmentData(v.copy(b))
    im.bytes = im.rawdata.get_data()
    im.style = im.rawdata.get_style()
    im.size = g.total
    im.header = g.h
    im.files = []
    im.segments = []
    im.all_sane = True
    im.filename, im.ext = "", ""
    im.total_sectors = im.unused_sectors = 0
    im.default_filetype = "B"
    return im, b
