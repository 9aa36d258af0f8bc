"""C07-C09: geometry, clearing free space, damaged images."""
from common import *
import atari, apple, fs as fsmod
from atrcopy.ataridos import AtrHeader, XfdHeader, AtariDiskImage
from atrcopy.dos33 import Dos33Header
from atrcopy.standard_delivery import StandardDeliveryImage, StandardDeliveryHeader
from atrcopy.spartados import SpartaDosDiskImage
from atrcopy.parsers import AtariDosSegmentParser, Dos33SegmentParser


# ------------------------------------------------------------------------ C07

def model_geom(kind, rng):
    """-> (description, image object, header offset, first label, [sizes])"""
    if kind == "dos33":
        img, _ = apple.gen(rng, nfiles=0)
        return "DOS 3.3", apple.open_image(img), img, 0, 0, [256] * 560
    if kind == "sd2":
        img = bytearray(rbytes(rng, 143360, "rand"))
        im = StandardDeliveryImage(SegmentData(arr(img)), create=True)
        return "Standard Delivery", im, img, 0, 0, [256] * 560
    if kind == "atari":
        g, img, _ = atari.gen(rng, maxfiles=2)
        im = atari.open_image(img)
        return "Atari %s%s" % (g.name, " ATR" if g.hdr else " XFD"), im, img, g.hdr, 1, [g.bootsize] * g.nboot + [g.size] * (g.n - g.nboot)
    # odd sizes, no file system
    size = rng.choice([128, 256])
    n = rng.choice([1, 3, 4, 100, 368, 719, 721, 1040, 2000])
    hdr = rng.random() < .8
    if not hdr:
        size = 128
    total = n * size
    if total in (92160, 92176, 184320, 184336, 183936, 183952):
        total += size
        n += 1
    img = bytearray(rbytes(rng, total, "rand"))
    if hdr:
        par = total // 16
        img = bytearray(bytes([0x96, 2, par & 255, (par >> 8) & 255, size & 255, size >> 8, par >> 16] + [0] * 9)) + img
    elif img[0:2] == b"\x96\x02":
        img[0] = 0
    im = AtariDiskImage(SegmentData(arr(img)))
    return "Atari odd size %dx%d%s" % (n, size, " ATR" if hdr else " XFD"), im, img, 16 if hdr else 0, 1, [size] * n


def sector_error(f, what):
    try:
        r = f()
    except errors.ByteNotInFile166:
        return
    except Exception as e:
        raise Fail("%s raised %r instead of the sector error" % (what, e))
    raise Fail("%s returned %r" % (what, r))


def c07(rng):
    d, im, img, off, lab, sizes = model_geom(rng.choice(["atari", "atari", "odd", "odd", "dos33", "sd2"]), rng)
    h = im.header
    pos, p = [], off
    for z in sizes:
        pos.append((p, z))
        p += z
    check(p == len(img), "model error")
    n = len(sizes)
    for k in range(n):
        got = tuple(int(x) for x in h.get_pos(k + lab))
        check(got == pos[k], "%s: sector %d is at %r, expected %r", d, k + lab, got, pos[k])
    it = [(int(a), int(b), int(c)) for a, b, c in h.iter_sectors()]
    check(it == [(k + lab, pos[k][0], pos[k][1]) for k in range(n)], "%s: iter_sectors does not enumerate the sectors in order", d)
    for _ in range(4):
        k = rng.randrange(n)
        raw, rp, rz = im.get_raw_bytes(k + lab)
        check(raw.tobytes() == bytes(img[pos[k][0]:pos[k][0] + pos[k][1]]), "%s: get_raw_bytes(%d) returns other bytes", d, k + lab)
        check((int(rp), int(rz)) == pos[k], "%s: get_raw_bytes(%d) position", d, k + lab)
    for _ in range(4):
        a = rng.randrange(n)
        b = min(n - 1, a + rng.choice([0, 0, 1, 2, 7, 300]))
        want = bytes(img[pos[a][0]:pos[b][0] + pos[b][1]])
        args = (a + lab, b + lab) if b > a or rng.random() < .5 else (a + lab,)
        data, style = im.get_sectors(*args)
        check(data.tobytes() == want and len(style) == len(data), "%s: get_sectors%r returns other bytes", d, args)
        st, ct = im.get_contiguous_sectors(a + lab, b - a + 1)
        check((int(st), int(ct)) == (pos[a][0], len(want)), "%s: get_contiguous_sectors(%d, %d) is %r, expected %r", d, a + lab, b - a + 1, (st, ct), (pos[a][0], len(want)))
    for bad in (lab - 1, lab - 2, n + lab, n + lab + 1, -rng.randrange(1, 5000), n + lab + rng.randrange(70000)):
        sector_error(lambda: h.get_pos(bad), "%s: get_pos(%d)" % (d, bad))
        sector_error(lambda: im.get_raw_bytes(bad), "%s: get_raw_bytes(%d)" % (d, bad))
        sector_error(lambda: im.get_sectors(bad), "%s: get_sectors(%d)" % (d, bad))
    last = n - 1 + lab
    sector_error(lambda: im.get_sectors(max(lab, last - 2), last + 1), "%s: get_sectors past the end" % d)
    sector_error(lambda: im.get_contiguous_sectors(last, 2), "%s: get_contiguous_sectors past the end" % d)
    if h.sectors_per_track:
        spt = h.sectors_per_track
        for _ in range(20):
            s = rng.randrange(0, 5000)
            t, q = h.track_from_sector(s)
            check(0 <= q < spt and h.sector_from_track(t, q) == s, "%s: track/sector of %d is %r", d, s, (t, q))
            t, q = rng.randrange(0, 300), rng.randrange(0, spt)
            check(tuple(h.track_from_sector(h.sector_from_track(t, q))) == (t, q), "%s: track/sector %d/%d does not convert back", d, t, q)
    return "%s: %d sectors" % (d, n)


# ------------------------------------------------------------------------ C08

def c08(rng):
    v = rng.choice([0, 0, 0xff, rng.randrange(256)])
    if rng.random() < .6:
        fs = fsmod.AtariFS(rng)
        lab, n = 1, fs.g.n
        pos = fs.g.pos
    else:
        fs = fsmod.AppleFS(rng)
        lab, n = 0, 560
        pos = lambda s: (s * 256, 256)
    for i in range(rng.choice([0, 0, 2])):
        fsmod.step(rng, fs)
    b0 = fs.bytes()
    free = {s for s in fs.free(b0) if lab <= s < n + lab}
    m0 = fs.model(b0)
    want = bytearray(b0)
    for s in free:
        p, z = pos(s)
        want[p:p + z] = bytes([v]) * z
    fs.im.shred(v) if v or rng.random() < .5 else fs.im.shred()
    d = diff_positions(bytes(want), fs.bytes())
    check(len(d) == 0, "%s: clearing with %d: %d bytes wrong (first in sector %r, free sectors %r...)", fs.desc(), v, len(d), sorted(fs.sectors_of(b0, d))[:4], sorted(free)[:10])
    check(fs.free(fs.bytes()) == fs.free(b0), "allocation table changed")
    check({k: f["data"] for k, f in fs.model(fs.bytes()).items()} == {k: f["data"] for k, f in m0.items()}, "a file changed")
    for nme in sorted(m0)[:3]:
        check(fs.im.find_file(nme) == m0[nme]["data"], "file %r changed", nme)
    return "%s, fill %d, %d free sectors, %d files" % (fs.desc(), v, len(free), len(m0))


# ------------------------------------------------------------------------ C09

def allowed(f, what, strict=True):
    try:
        return f()
    except errors.AtrError:
        return None
    except Exception as e:
        if strict:
            import traceback
            raise Fail("%s raised %r at %s" % (what, e, "; ".join("%s:%d" % (x.name, x.lineno) for x in traceback.extract_tb(e.__traceback__)[-3:])))
        return None


def use(im, rng, d, strict=True):
    allowed(lambda: str(im), d + ": summary", strict)
    files = list(im.files)
    total = len(im.bytes)
    for f in files[:80]:
        allowed(lambda: str(f), d + ": listing", strict)
        r = allowed(lambda: im.get_file(f), d + ": reading %r" % f.filename, strict)
        if strict and r is not None:
            check(isinstance(r, bytes), "%s: reading %r returned %r", d, f.filename, type(r))
    allowed(lambda: im.parse_segments(), d + ": segments", strict)
    if strict and files:
        for f in rng.sample(files, min(3, len(files))):
            allowed(lambda: im.delete_file(f.filename if rng.random() < .5 else f), d + ": deleting %r" % f.filename)


def c09(rng):
    kind = rng.choice(["atari", "atari", "apple", "apple", "sparta"])
    notes = []
    if kind == "atari":
        g, img, files = atari.gen(rng, fill=rng.choice([.1, .5, .9]))
        d = "damaged Atari %s image" % g.name
        for _ in range(rng.choice([1, 1, 2, 4])):
            m = rng.randrange(8)
            notes.append(m)
            if m <= 3 and files:    # cyclic or misdirected chain
                f = files[rng.choice(sorted(files))]
                s = rng.choice(f["secs"])
                p, z = g.pos(s)
                t = rng.choice([rng.choice(f["secs"]), f["secs"][0], rng.randrange(0, 1024), s])
                if f["flag"] & 4:
                    if rng.random() < .2:
                        t = rng.randrange(65536)
                    img[p + z - 3], img[p + z - 2] = t >> 8, t & 255
                else:
                    img[p + z - 3] = f["num"] << 2 | (t >> 8) & 3
                    img[p + z - 2] = t & 255
                img[p + z - 1] = rng.choice([img[p + z - 1], rng.randrange(256), 255])
            elif m == 4:
                e = g.pos(361)[0] + 16 * rng.randrange(64)
                img[e + rng.randrange(5)] = rng.randrange(256)
            elif m == 5:
                e = g.pos(361)[0]
                img[e + rng.randrange(8 * g.size)] = rng.randrange(256)
            elif m == 6:
                p, z = g.pos(360)
                img[p + rng.choice([0, 1, 2, 3, 4, rng.randrange(z)])] = rng.randrange(256)
            else:
                p, z = g.pos(rng.choice([360, 361, 362, 368]))
                img[p:p + z] = rbytes(rng, z, "rand")
        mk = lambda: atari.open_image(img)
        pk = lambda: AtariDosSegmentParser(SegmentData(arr(img)), rng.random() < .5)
    elif kind == "apple":
        img, files = apple.gen(rng, fill=rng.choice([.1, .5, .9]))
        d = "damaged DOS 3.3 image"
        S, V = 256, apple.VT
        for _ in range(rng.choice([1, 1, 2, 4])):
            m = rng.randrange(9)
            notes.append(m)
            if m <= 2 and files:   # track/sector list link
                f = files[rng.choice(sorted(files))]
                s = rng.choice(f["ts"])
                t = rng.choice([s, f["ts"][0], rng.randrange(560), rng.randrange(65536)])
                img[s * S + 1], img[s * S + 2] = (t >> 4) & 255, t & 15 if rng.random() < .8 else rng.randrange(256)
            elif m == 3 and files:
                f = files[rng.choice(sorted(files))]
                s = rng.choice(f["ts"])
                img[s * S + 12 + rng.randrange(244)] = rng.choice([0, 255, 34, 35, rng.randrange(256)])
            elif m == 4:           # catalog link
                c = V + rng.randrange(1, 16)
                t = rng.choice([c, V + 15, V, rng.randrange(560), 0])
                img[c * S + 1], img[c * S + 2] = t >> 4, t & 15
            elif m == 5:
                c = V + rng.choice([15, 15, 14, 1])
                img[c * S + 11 + rng.randrange(245)] = rng.randrange(256)
            elif m == 6:
                img[V * S + rng.choice([1, 2, 3, 0x27, 0x34, 0x35, 0x36, 0x37, rng.randrange(256)])] = rng.choice([0, 1, 255, rng.randrange(256)])
            elif m == 7 and files:
                c = V + 15
                e = c * S + 11 + 35 * rng.randrange(7)
                img[e + 33], img[e + 34] = rng.choice([(0, 0), (1, 0), (255, 0), (0, 1), (255, 255), (48, 2)])
            else:
                c = V + rng.choice([0, 15, 14])
                img[c * S:c * S + S] = rbytes(rng, S, "rand")
        mk = lambda: apple.open_image(img)
        pk = lambda: Dos33SegmentParser(SegmentData(arr(img)), rng.random() < .5)
    else:
        img = sparta(rng)
        d = "damaged SpartaDOS image"
        mk = lambda: SpartaDosDiskImage(SegmentData(arr(img)))
        pk = None
    strict = kind != "sparta"
    im = allowed(mk, d + ": opening", strict)
    if im is not None:
        use(im, rng, d, strict)
    if pk is not None:
        allowed(pk, d + ": parsing", strict)
    return "%s, mutations %r, %s" % (d, notes, "opened, %d files" % len(im.files) if im else "refused")


def sparta(rng):
    n = 720
    img = bytearray(16 + n * 128)
    img[0:16] = bytes([0x96, 2, 0x80, 0x16, 0x80, 0] + [0] * 10)
    P = lambda s: 16 + (s - 1) * 128
    b = bytearray(128)
    w = lambda o, v: b.__setitem__(slice(o, o + 2), bytes([v & 255, v >> 8]))
    b[1] = 3
    w(2, 0x3000)
    w(9, 6); w(11, n); w(13, 100); b[15] = 1; w(16, 4); w(18, 10); w(20, 10)
    b[30], b[31], b[32] = 40, 0x80, rng.choice([0x11, 0x20, 0x21])
    img[P(1):P(2)] = b
    def setw(s, o, v):
        img[P(s) + o:P(s) + o + 2] = bytes([v & 255, v >> 8])
    nfile = rng.randrange(1, 4)
    # directory: sector map at 6, data at 7,8
    setw(6, 4, 7)
    setw(6, 6, 8)
    dirlen = 23 * (nfile + 1)
    dd = bytearray(23)
    dd[0] = 0x28
    dd[3:5] = bytes([dirlen & 255, dirlen >> 8])
    dd[6:14] = b"MAIN    "
    out = bytearray(dd)
    nxt = 20
    for k in range(nfile):
        nmap = rng.randrange(1, 4)
        maps = list(range(nxt, nxt + nmap))
        nxt += nmap
        ndata = rng.randrange(1, 20)
        data = list(range(nxt, nxt + ndata))
        nxt += ndata
        for j, m in enumerate(maps):
            setw(m, 0, maps[j + 1] if j + 1 < nmap else 0)
            for q in range(62):
                i = j * 62 + q
                setw(m, 4 + 2 * q, data[i] if i < ndata else 0)
        if rng.random() < .6:
            setw(rng.choice(maps), 0, rng.choice(maps + [6, 7, 700, 721, 65535]))
        if rng.random() < .4:
            setw(rng.choice(maps), 4 + 2 * rng.randrange(62), rng.choice([1, 720, 721, 65535]))
        L = rng.choice([ndata * 128, rng.randrange(65536), 0])
        e = bytearray(23)
        e[0] = 0x08
        e[1:3] = bytes([maps[0] & 255, maps[0] >> 8])
        e[3:5] = bytes([L & 255, L >> 8])
        e[5] = rng.choice([0, 0, 1])
        e[6:17] = b"FILE%d   COM" % k
        out += e
    img[P(7):P(7) + len(out[:128])] = out[:128]
    for _ in range(rng.choice([0, 0, 1, 3])):
        img[P(rng.choice([1, 6, 7, 8])) + rng.randrange(128)] = rng.randrange(256)
    if rng.random() < .3:
        setw(6, 0, rng.choice([6, 7, 20]))
    return img
