"""C17: cartridges."""
import os, sys
from pyvc.api import contract
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "rt"))
from carts import CARTS

def layout(size, lay):
    if lay is None:
        return [(0, size * 1024, 0)]
    out = [(lay[1] * 1024, lay[0] * 1024, lay[2])]
    if len(lay) > 3:
        k = 0
        while k * lay[3] < size - lay[0]:
            out.append(((lay[4] + k * lay[3]) * 1024, lay[3] * 1024, lay[5]))
            k += 1
    return out


def body(v, carts, right):
    m = v.mod("cartridge")
    SD = v.mod("segments").SegmentData
    t, name, size, lay = v.choice("type", carts)
    hdr = v.choice("header", [False, True])
    off = 16 if hdr else 0
    if right:
        n = off + size * 1024
    else:
        n = v.int("n", 16)
        v.assume(n != off + size * 1024)
    b = v.bytes("rom", n)
    if hdr:
        for i, x in enumerate(b"CART" + t.to_bytes(4, "big")):
            v.assume(v.get(b, i) == x)
    else:
        v.assume(v.Not(v.And(*[v.get(b, i) == x for i, x in enumerate(b"CART")])))

    if not right:
        v.stub(m.A8CartHeader, "check_size", lambda self, size: None)      # see c17_possible_types

    def make():
        im = m.AtariCartImage(SD(b), t)
        if hdr:
            im.strict_check()
        im.relaxed_check()
        im.parse_segments()
        return im
    r = v.call(make)
    if not r.ok:
        v.ensure("refused as an invalid image", r.raised("InvalidDiskImage"))
        v.ensure("only images of another size are refused", not right)
        return
    v.ensure("only images of the type's size are accepted", right)
    im = r.value
    segs = list(im.segments)
    if hdr:
        h = segs.pop(0)
        v.ensure("header segment", v.And(v.len(h) == 16, *[v.get(h.data, i) == v.get(b, i) for i in range(16)]))
    exp = layout(size, lay)
    v.ensure("number of segments", len(segs) == len(exp))
    covered = []
    for s, (o, ln, org) in zip(segs, exp):
        v.ensure("segment length", v.len(s) == ln)
        v.ensure("load address", s.origin == org)
        v.forall("segment bytes", 0, ln, lambda i: v.get(s.data, i) == v.get(b, off + o + i))
        covered.append((o, ln))
    covered.sort()
    v.ensure("the segments contain every byte once", [c[0] for c in covered] == [0] + [sum(c[1] for c in covered[:k + 1]) for k in range(len(covered) - 1)] and sum(c[1] for c in covered) == size * 1024)
    boot = im.create_emulator_boot_segment()
    d = boot.data
    v.ensure("emulator image length", v.len(d) == 16 + size * 1024)
    v.forall("emulator image holds the ROM", 0, size * 1024, lambda i: v.get(d, 16 + i) == v.get(b, off + i))
    v.ensure("emulator image starts with the header", v.And(*[v.get(d, i) == x for i, x in enumerate(b"CART" + t.to_bytes(4, "big"))]))
    h = m.A8CartHeader(d[0:16])
    v.ensure("the written header parses back to the type", h.cart_type == t)


F = ["A8CartHeader.set_type", "BaseAtariCartImage.check_size", "BaseAtariCartImage.parse_segments", "BaseAtariCartImage.create_emulator_boot_segment"]


@contract("C17", functions=F)
def c17_split(v):
    """For every known type, with and without header, and any contents: an image of the type's size is accepted, its segments are the type's layout
    with the type's load addresses and contain every byte of the ROM exactly once; the emulator image is a header of the type and the unchanged ROM."""
    body(v, CARTS, True)


@contract("C17", functions=["BaseAtariCartImage.check_size"])
def c17_refuse(v):
    """For every known type, with and without header: images of any other size are refused as invalid.  A8CartHeader.check_size is replaced by its
    contract (c17_possible_types)."""
    body(v, CARTS, False)


@contract("C17", functions=["A8CartHeader.check_size"])
def c17_possible_types(v):
    """A8CartHeader.check_size changes nothing but the set of possible types and raises nothing, for every size."""
    m = v.mod("cartridge")
    h = m.A8CartHeader()
    size = v.int("size", 0)
    before = {k: x for k, x in h.__dict__.items() if k[:4] != "_pv_"}
    r = v.call(h.check_size, size)
    v.ensure("raises nothing", r.ok)
    after = {k: x for k, x in h.__dict__.items() if k[:4] != "_pv_"}
    v.ensure("no attribute is added", sorted(before) == sorted(after))
    v.ensure("no other attribute changes", all(after[k] is before[k] or (k != "banks" and after[k] == before[k]) for k in before if k != "possible_types"))
    v.ensure("the list of banks stays empty", len(h.banks) == 0)


@contract("C17", functions=["A8CartHeader.__init__", "A8CartHeader.to_array"])
def c17_header(v):
    """A header block parses to the type and checksum it holds, and is written back with them; a block of another length or without magic is refused."""
    m = v.mod("cartridge")
    t, name, size, lay = v.choice("type", CARTS)
    n = v.int("n", 0, 1000)
    b = v.bytes("hdr", n)
    for i, x in enumerate(t.to_bytes(4, "big")):
        v.assume(v.Implies(n > 4 + i, v.get(b, 4 + i) == x))
    r = v.call(m.A8CartHeader, b)
    magic = v.And(*[v.get(b, i) == x for i, x in enumerate(b"CART")]) if v.true(n >= 4) else False
    if not r.ok:
        v.cover("refused")
        v.ensure("refused with the header error", r.raised("InvalidCartHeader"))
        v.ensure("only invalid blocks are refused", v.Or(n != 16, v.Not(magic)))
        return
    v.cover("accepted")
    v.ensure("only valid blocks are accepted", v.And(n == 16, magic))
    h = r.value
    v.ensure("type", h.cart_type == t)
    v.ensure("checksum", h.crc == sum((v.get(b, 8 + k) * 256 ** (3 - k) for k in range(4)), 0))
    v.ensure("size of the type", h.cart_size == size)
    out = h.to_array()
    for i in range(12):
        v.ensure("written back", v.get(out, i) == v.get(b, i))
