"""C16: ATR headers."""
from pyvc.api import contract


def u(v, b, i, w):
    return sum((v.get(b, i + k) * 256 ** k for k in range(w)), 0)


@contract("C16", functions=["AtrHeader.__init__", "AtrHeader.encode", "BaseHeader.to_array"])
def c16_parse_write(v):
    """Every 16-byte block with the magic number parses to the documented fields and is written back byte for byte."""
    b = v.bytes("hdr", 16)
    v.assume(v.And(v.get(b, 0) == 0x96, v.get(b, 1) == 0x02))
    h = v.mod("ataridos").AtrHeader(b)
    v.ensure("image size", h.image_size == (u(v, b, 2, 2) + 65536 * v.get(b, 6)) * 16)
    v.ensure("sector size", h.sector_size == u(v, b, 4, 2))
    v.ensure("checksum", h.crc == u(v, b, 7, 4))
    v.ensure("unused field", h.unused == u(v, b, 11, 4))
    v.ensure("flags", h.flags == v.get(b, 15))
    v.ensure("length of the header", v.len(h) == 16)
    out = h.to_array()
    v.ensure("16 bytes are written", v.len(out) == 16)
    for i in range(16):
        v.ensure("byte %d is written back" % i, v.get(out, i) == v.get(b, i))
    raw = v.np.zeros([16], dtype=v.np.uint8)
    out = h.encode(raw)
    for i in range(16):
        v.ensure("encode: byte %d is written back" % i, v.get(out, i) == v.get(b, i))


@contract("C16", functions=["AtrHeader.__init__"])
def c16_refuse(v):
    """A block without the magic number, or of a length other than 16, is refused as no ATR header; every other block is accepted."""
    n = v.int("n", 0, 100000)
    b = v.bytes("blk", n)
    r = v.call(v.mod("ataridos").AtrHeader, b)
    if r.ok:
        v.cover("accepted")
        v.ensure("only 16 byte blocks are accepted", n == 16)
        v.ensure("only blocks with the magic number are accepted", v.And(v.get(b, 0) == 0x96, v.get(b, 1) == 2))
    else:
        v.cover("refused")
        v.ensure("refused with the header error", r.raised("InvalidAtrHeader"))
        v.ensure("only invalid blocks are refused", v.Or(n != 16, v.get(b, 0) != 0x96, v.get(b, 1) != 2))


@contract("C16", functions=["AtrHeader.__init__", "AtrHeader.encode"])
def c16_write_parse(v):
    """Header values that fit the fields are written and parsed back unchanged."""
    A = v.mod("ataridos").AtrHeader
    h = A(create=True)
    pars = v.int("paragraphs", 0, (1 << 24) - 1)
    h.image_size = pars * 16
    h.sector_size = v.int("sector_size", 0, 65535)
    h.crc = v.int("crc", 0, (1 << 32) - 1)
    h.unused = v.int("unused", 0, (1 << 32) - 1)
    h.flags = v.int("flags", 0, 255)
    b = h.to_array()
    g = A(b)
    v.ensure("image size", g.image_size == h.image_size)
    v.ensure("sector size", g.sector_size == h.sector_size)
    v.ensure("checksum", g.crc == h.crc)
    v.ensure("unused field", g.unused == h.unused)
    v.ensure("flags", g.flags == h.flags)


@contract("C16", functions=["add_atr_header", "AtrHeader.check_size"])
def c16_add_header(v):
    """Adding a header to raw data keeps the data behind it and gives a header that describes its size and density."""
    m = v.mod("ataridos")
    q = v.int("n16", 0, 1 << 20)
    n = q * 16
    v.assume(v.And(n != 92176, n != 184336, n != 183952))
    b = v.bytes("data", n)
    out = m.add_atr_header(b)
    v.ensure("16 bytes longer", v.len(out) == n + 16)
    v.forall("the data is unchanged", 0, n, lambda i: v.get(out, 16 + i) == v.get(b, i))
    h = m.AtrHeader(out[0:16])
    v.ensure("the header gives the size", h.image_size == n)
    v.ensure("the header gives the density", h.sector_size == v.Ite(v.Or(n == 184320, n == 183936), 256, 128))
    h.check_size(n)
    v.ensure("the parsed header agrees with the data size", h.image_size == n)


@contract("C16", functions=["AtariDosDiskImage.as_new_format", "add_atr_header"])
def c16_convert(v):
    """Converting an image without header to the ATR format keeps the data and adds its header."""
    m = v.mod("ataridos")
    n, dens = v.choice("size", [(92160, 128), (133120, 128), (184320, 256), (183936, 256)])
    b = v.bytes("img", n)
    v.assume(v.Not(v.And(v.get(b, 0) == 0x96, v.get(b, 1) == 2)))

    class Image(m.AtariDiskImage):
        check_size = lambda self: None
    im = Image(v.mod("segments").SegmentData(b))
    v.assume(True)
    new = m.AtariDosDiskImage.as_new_format(im, "ATR")
    d = new.bytes
    v.ensure("16 bytes longer", v.len(d) == n + 16)
    v.forall("the data is unchanged", 0, n, lambda i: v.get(d, 16 + i) == v.get(b, i))
    v.ensure("the header is recognised", v.len(new.header) == 16)
    v.ensure("size and density", v.And(new.header.image_size == n, new.header.sector_size == dens))
