"""C08: clearing free space."""
from pyvc.api import contract
from pyvc.contracts.disk import Geo, image, DosGeo, dosimage


class Free:
    """ghost: the image while the first sectors are cleared"""
    def __init__(self, v, g, b, fill):
        self.v, self.g, self.b, self.fill = v, g, b, fill
        self.vt = g.vtoc_pos()

    def free(self, s):
        """does the table on the disk mark sector s as free (1 or 0)"""
        v, g = self.v, self.g
        if g.kind == "dos33":
            t, q = s // 16, s % 16
            at, k, ok = self.vt + 0x38 + 4 * t + v.Ite(q >= 8, 0, 1), q % 8, v.And(s >= 0, s < 560)
        else:
            at, k, ok = self.vt + 10 + s // 8, 7 - s % 8, v.And(s >= 1, s < 720)
        x = v.get(self.b, v.Ite(ok, at, self.vt))
        out = 0
        for j in range(8):
            out = v.Ite(k == j, (x // (1 << j)) % 2, out)
        return v.And(ok, out == 1)

    def byte(self, p, below):
        """byte p after the free sectors with numbers under below have been cleared"""
        v = self.v
        s = self.g.sector(p)
        return v.Ite(v.And(s >= self.g.label, s < below, self.free(s)), self.fill, v.get(self.b, p))


def l_sectors(st):
    f = st.run.cache["free"]
    i = f.g.label + st.k
    st.require("sectors so far", st.k <= f.g.max)
    st.local("i", i)
    st.dead("pos", "size")
    st.array(f.im.bytes, lambda p: f.byte(p, i))
    st.decreases(f.g.max - st.k)


def prepare(v):
    if v.choice("format", ["atari", "dos33"]) == "atari":
        g = Geo(v)
        im, b = image(v, g)
    else:
        g = DosGeo(v)
        im, b = dosimage(v, g)
    v.patch(type(im), "get_metadata", lambda self: None)
    f = Free(v, g, b, v.int("fill", 0, 255))
    f.im = im
    if v.symbolic:
        v.run.cache["free"] = f
    return g, im, b, f


@contract("C08", functions=["DiskImageBase.shred", "VTOC.iter_free_sectors", "BaseHeader.iter_sectors", "BaseAtariDosHeader.get_pos", "AtariDosVTOC.parse_segments", "Dos33VTOC.parse_segments",
                            "AtariDosDiskImage.get_vtoc_segments", "Dos33DiskImage.get_vtoc_segments"],
          loops={"diskimages.BaseHeader.iter_sectors#0": l_sectors})
def c08_shred(v):
    """Clearing the free space of any image sets every byte of every sector that the table on the disk marks free to the fill value and changes no
    other byte, for all geometries; short boot sectors are cleared in full and nothing beyond."""
    g, im, b, f = prepare(v)
    im.shred(f.fill)
    v.ensure("same size", v.len(im.bytes) == g.total)

    def want(p):
        s = g.sector(p)
        return v.Ite(v.And(s >= g.label, f.free(s)), f.fill, v.get(b, p))
    v.forall("free sectors are filled and nothing else changes", 0, g.total, lambda p: v.get(im.bytes, p) == want(p))
    p = v.int("p", 0)
    v.assume(p < g.total)
    v.ensure("in the data of the segments too", v.get(im.rawdata.data, p) == want(p))
