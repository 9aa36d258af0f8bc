"""C10-C12: executables and boot images."""
from common import *
from atrcopy.segments import ObjSegment
from atrcopy.executables import get_xex, get_bsave, create_executable_file_data
from atrcopy.ataridos import AtariDosFile
from atrcopy.dos33 import Dos33BinFile
from atrcopy.kboot import KBootImage
from atrcopy.standard_delivery import StandardDeliveryImage
from atrcopy.fstbt import fstbt
from atrcopy.parsers import iter_parsers


def mkseg(rng, origin, data):
    """a segment with the given contents, as plain, sliced or indexed view"""
    form = rng.randrange(4)
    if form == 0 or not data:
        return DefaultSegment(SegmentData(arr(data)), origin)
    if form == 1:
        pre, post = rng.randrange(5), rng.randrange(5)
        r = SegmentData(arr(rbytes(rng, pre) + data + rbytes(rng, post)))
        return DefaultSegment(r[pre:pre + len(data)], origin)
    if form == 2:
        r = SegmentData(arr(data[::-1]))
        return DefaultSegment(r.get_indexed(list(range(len(data) - 1, -1, -1))), origin)
    return ObjSegment(SegmentData(arr(data)), 0, 0, origin)


def rsegs(rng, maxaddr=0x10000, maxlen=3000, lo=0, runad=True, maxn=5):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, maxn])):
        n = rng.choice([1, 2, 3, 255, 256, 257, rng.randint(1, maxlen)])
        o = rng.choice([lo, maxaddr - n, rng.randint(lo, maxaddr - n), min(0x2000, maxaddr - n), rng.randrange(lo // 256 + 1, (maxaddr - n) // 256 + 1) * 256 if (maxaddr - n) // 256 > lo // 256 else lo])
        o = max(lo, min(o, maxaddr - n, 0xfffe))
        if o == 0x2e0 and not runad:
            o += 1
        out.append((o, rbytes(rng, n)))
    if runad and rng.random() < .15:
        out.insert(rng.randrange(len(out) + 1), (0x2e0, rbytes(rng, 2)))
    return out


def rrun(rng, segs):
    m = rng.randrange(5)
    if m <= 1:
        return None
    o, d = rng.choice(segs)
    if m == 2:
        return o + rng.randrange(len(d))
    if m == 3:
        return rng.choice([o + len(d), o - 1, o, o + len(d) - 1])
    return rng.randrange(0, 0x10000)


def inside(a, segs):
    return any(o <= a < o + len(d) for o, d in segs)


def w16(v):
    return bytes([v & 255, (v >> 8) & 255])


def model_xex(segs, run):
    """expected file or None when the run address must be refused"""
    out = b"\xff\xff"
    if not any(o == 0x2e0 for o, _ in segs):
        if run:
            if not inside(run, segs):
                return None
        else:
            run = segs[0][0]
        segs = [(0x2e0, w16(run))] + segs
    for o, d in segs:
        out += w16(o) + w16(o + len(d) - 1) + d
    return out


def model_parse(b):
    """[(origin, start, end)] of complete segments, tail start or None; raises ValueError"""
    pos, first, out = 0, True, []
    while pos < len(b):
        if pos + 1 >= len(b):
            return out, (pos, pos + 1)
        h = b[pos] + 256 * b[pos + 1]
        if h == 0xffff:
            pos += 2
            first = False
            continue
        if first:
            raise ValueError("marker")
        if pos + 4 > len(b):
            return out, (pos, len(b))
        e = b[pos + 2] + 256 * b[pos + 3]
        if e < h:
            raise ValueError("order")
        n = e - h + 1
        if pos + 4 + n > len(b):
            return out, (pos + 4, len(b))
        out.append((h, pos + 4, pos + 4 + n))
        pos += 4 + n
    return out, None


def parse_check(b, what):
    try:
        want, tail = model_parse(b)
    except ValueError as e:
        want = None
    f = AtariDosFile(SegmentData(arr(b)))
    try:
        f.parse_segments()
    except errors.InvalidBinaryFile:
        check(want is None, "%s: refused although its headers are consistent", what)
        return
    check(want is not None, "%s: accepted although it must be refused", what)
    got = [(s.origin, s.tobytes()) for s in f.segments]
    exp = [(o, b[x:y]) for o, x, y in want]
    if tail is not None:
        check(len(got) == len(exp) + 1, "%s: %d segments and no incomplete tail, expected %d and a tail", what, len(got), len(exp))
        check(got[-1][1] == b[tail[0]:tail[1]], "%s: incomplete tail holds other bytes", what)
        check("Incomplete" in f.segments[-1].name or "Short" in f.segments[-1].name, "%s: tail is not reported as incomplete", what)
        got = got[:-1]
    check(got == exp, "%s: parsed segments %r, expected %r", what, [(o, len(d)) for o, d in got], [(o, len(d)) for o, d in exp])
    for s, (o, x, y) in zip(f.segments, want):
        check(int(s.data_start) == x and s.rawdata.get_raw_index(0) == x, "%s: segment at %04x is said to start at file position %d, not %d", what, o, s.data_start, x)


def c10(rng):
    if rng.random() < .35:
        m = rng.randrange(4)
        if m == 0:
            b = rbytes(rng, rng.choice([0, 1, 2, 3, 5, 6, 7, rng.randrange(200)]), "rand")
        else:
            segs = rsegs(rng, maxlen=50)
            b = model_xex(segs, None)
            if m == 2:
                b = b[:rng.randrange(len(b) + 1)]
            elif m == 3:
                b = bytearray(b)
                for _ in range(rng.choice([1, 1, 3])):
                    b[rng.randrange(min(len(b), 40))] = rng.choice([0, 255, rng.randrange(256)])
                b = bytes(b) + rng.choice([b"", b"\xff", b"\xff\xff", b"\xff\xff\0", rbytes(rng, 3)])
            else:
                k = rng.randrange(len(segs) + 1)
                b = model_xex(segs[:k] or segs, None) + b"\xff\xff" * rng.randrange(3) + (model_xex(segs[k:], None)[2:] if segs[k:] else b"")
        if rng.random() < .6 and b[:2] != b"\xff\xff":
            b = b"\xff\xff" + b
        parse_check(b, "executable %s" % b[:24].hex())
        return "parse %d bytes %s" % (len(b), b[:12].hex())
    segs = rsegs(rng)
    run = rrun(rng, segs)
    want = model_xex(segs, run)
    what = "executable from %s run %r" % ([(hex(o), len(d)) for o, d in segs], run)
    ss = [mkseg(rng, o, d) for o, d in segs]
    try:
        if rng.random() < .8:
            seg, subs = get_xex(ss, run)
            data = seg.tobytes()
            check(len(subs) == len(segs) + (0 if any(o == 0x2e0 for o, _ in segs) else 1), "%s: number of sub-segments", what)
        else:
            data, ft = create_executable_file_data("OUT.XEX", ss, run)
            data = data.tobytes()
    except errors.InvalidBinaryFile:
        check(want is None, "%s: refused", what)
        return "refused " + what
    check(want is not None, "%s: run address outside the segments was accepted", what)
    check(data == want, "%s: contents differ", what)
    parse_check(data, what)
    check([(s.origin, s.tobytes()) for s in ss] == segs, "%s: source segments changed", what)
    return what


# ------------------------------------------------------------------------ C11

def c11(rng):
    if rng.random() < .25:
        n = rng.choice([0, 1, 3, 4, 5, 100])
        b = bytearray(rbytes(rng, n, "rand"))
        good = rng.random() < .5
        if n >= 4 and good:
            b[2:4] = w16(n - 4)
        ok = n >= 4 and b[2] + 256 * b[3] == n - 4
        f = Dos33BinFile(SegmentData(arr(b)))
        try:
            f.parse_segments()
        except errors.InvalidBinaryFile:
            check(not ok, "consistent BSAVE file refused: %s", bytes(b[:8]).hex())
            return "refused %d bytes" % n
        check(ok, "BSAVE file of %d bytes whose header says %d was accepted", n, b[2] + 256 * b[3] if n >= 4 else -1)
        check(len(f.segments) == 1 and f.segments[0].origin == b[0] + 256 * b[1] and f.segments[0].tobytes() == bytes(b[4:]), "BSAVE file parsed wrongly")
        return "parsed %d bytes" % n
    segs = rsegs(rng, lo=3, runad=False)
    run = rrun(rng, segs)
    lo = min(o for o, _ in segs)
    hi = max(o + len(d) for o, d in segs)
    what = "BSAVE from %s run %r" % ([(hex(o), len(d)) for o, d in segs], run)
    want = True
    mem = bytearray(hi - lo)
    for o, d in segs:
        mem[o - lo:o - lo + len(d)] = d
    if run and run != lo:
        if inside(run, segs):
            mem = bytearray([0x4c]) + w16(run) + mem
            lo -= 3
        else:
            want = False
    ss = [mkseg(rng, o, d) for o, d in segs]
    if len(mem) > 65535:
        return "skip"
    try:
        if rng.random() < .8:
            img = get_bsave(ss, run)
        else:
            img, _ = create_executable_file_data(rng.choice(["X.BIN", "x.bsave"]), ss, run)
    except errors.InvalidBinaryFile:
        check(not want, "%s: refused", what)
        return "refused " + what
    check(want, "%s: run address outside the segments accepted", what)
    got = img.tobytes()
    check(got == w16(lo) + w16(len(mem)) + bytes(mem), "%s: contents differ from the memory image", what)
    f = Dos33BinFile(SegmentData(img))
    f.parse_segments()
    check(len(f.segments) == 1 and f.segments[0].origin == lo and f.segments[0].tobytes() == bytes(mem), "%s: parses back differently", what)
    check([(s.origin, s.tobytes()) for s in ss] == segs, "%s: source segments changed", what)
    return what


# ------------------------------------------------------------------------ C12

ORDER = [0, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 15]


def simulate_loader(img):
    """memory (dict page -> 256 bytes), run address, sectors used"""
    p = len(fstbt)
    check(img[:p] == fstbt, "boot code missing from the boot sector")
    run = img[p] + 256 * img[p + 1]
    mem, used = {}, [0]
    k, last = 1, None
    i = p + 2
    while True:
        check(i < 256, "loader command list has no end")
        c = img[i]
        i += 1
        if c == 0xc0:
            break
        if c in (0xd0, 0xd1, 0xd2):
            continue
        pages = [c] if c < 0xc0 else [last + 1 + j for j in range(c & 0x1f)]
        for g in pages:
            s = 16 * (k // 16) + ORDER[k % 16]
            k += 1
            check(s < 560, "loader reads beyond the disk")
            mem[g] = img[s * 256:s * 256 + 256]
            used.append(s)
            last = g
    return mem, run, used


def c12(rng):
    if rng.random() < .5:
        segs = rsegs(rng, maxlen=rng.choice([50, 3000, 20000]), maxn=4)
        run = rrun(rng, segs)
        want = model_xex(segs, run)
        what = "KBoot image from %s run %r" % ([(hex(o), len(d)) for o, d in segs], run)
        if want is not None and len(want) > 65535:
            return "skip"
        try:
            im = KBootImage.create_boot_image([mkseg(rng, o, d) for o, d in segs], run)
        except errors.InvalidBinaryFile:
            check(want is None, "%s: refused", what)
            return "refused " + what
        check(want is not None, "%s: accepted a run address outside the segments", what)
        b = im.bytes.tobytes()
        im2 = KBootImage(SegmentData(arr(b)))
        im2.strict_check()
        check(len(im2.files) == 1, "%s: %d files found", what, len(im2.files))
        got = im2.get_file(im2.files[0])
        check(got == want, "%s: embedded executable differs (%d bytes, %d expected)", what, len(got), len(want))
        if rng.random() < .1:
            mime, p = iter_parsers(SegmentData(arr(b)))
            check(isinstance(p.image, KBootImage), "%s: not recognised as KBoot image but as %r", what, p)
        return what
    segs = rsegs(rng, maxaddr=0xc000, maxlen=rng.choice([50, 3000, 12000]), lo=0x300, maxn=rng.choice([2, 4, 12]))
    segs = [(o if o not in (0x2001, 0x4001) else o + 1, d) for o, d in segs]
    segs = [(o, d) for o, d in segs if o + len(d) <= 0xc000] or [(0x2000, rbytes(rng, 0x2000))]
    if rng.random() < .15:
        segs.insert(rng.randrange(len(segs) + 1), (rng.choice([0x2000, 0x4000]), rbytes(rng, 0x2000)))
    run = rng.choice([None, segs[0][0], rng.randrange(65536)])
    what = "Apple boot image from %s run %r" % ([(hex(o), len(d)) for o, d in segs], run)
    pages = sum((o % 256 + len(d) + 255) // 256 for o, d in segs)
    if pages > 559:
        return "skip"
    with quiet():
        im = StandardDeliveryImage.create_boot_image([mkseg(rng, o, d) for o, d in segs], run)
    b = im.bytes.tobytes()
    check(len(b) == 143360, "%s: image size", what)
    mem, r, used = simulate_loader(b)
    check(r == (segs[0][0] if run is None else run), "%s: run address is %04x", what, r)
    check(len(set(used)) == len(used), "%s: a sector is used twice", what)
    check(len(used) == pages + 1, "%s: loader reads %d sectors for %d pages", what, len(used) - 1, pages)
    want = {}
    for o, d in segs:
        for i, v in enumerate(d):
            want[o + i] = v
    for a, v in want.items():
        check(a >> 8 in mem, "%s: page %02x is not loaded", what, a >> 8)
        check(mem[a >> 8][a & 255] == v, "%s: byte at %04x is %02x instead of %02x", what, a, mem[a >> 8][a & 255], v)
    return what
