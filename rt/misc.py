"""C16-C19: ATR headers, cartridges, command line, compressed images."""
import os, sys, gzip, bz2, lzma, io, shutil, tempfile
from common import *
import atari, apple
from carts import CARTS
from atrcopy.ataridos import AtrHeader, add_atr_header, AtariDiskImage
from atrcopy.cartridge import AtariCartImage, Atari8bitCartImage, Atari5200CartImage, A8CartHeader, known_cart_types
from atrcopy.parsers import guess_container, iter_parsers
from atrcopy import find_diskimage_from_data


# ------------------------------------------------------------------------ C16

def fields(h):
    return dict(image_size=int(h.image_size), sector_size=int(h.sector_size), crc=int(h.crc), unused=int(h.unused), flags=int(h.flags))


def decode(b):
    le = lambda i, n: int.from_bytes(b[i:i + n], "little")
    return dict(image_size=(le(2, 2) + 65536 * b[6]) * 16, sector_size=le(4, 2), crc=le(7, 4), unused=le(11, 4), flags=b[15])


def c16(rng):
    m = rng.randrange(4)
    if m == 0:
        b = b"\x96\x02" + rbytes(rng, 14, rng.choice(["rand", "rand", "ff", "zero"]))
        if rng.random() < .3:
            b = b[:rng.randrange(2, 16)].ljust(16, rng.choice([b"\0", b"\xff"]))
        h = AtrHeader(arr(b))
        check(fields(h) == decode(b), "header %s parsed as %r, expected %r", b.hex(), fields(h), decode(b))
        out = h.encode(np.zeros([16], dtype=np.uint8)).tobytes()
        check(out == b, "header %s written back as %s", b.hex(), out.hex())
        check(h.to_array().tobytes() == b, "header %s: to_array gives %s", b.hex(), h.to_array().tobytes().hex())
        check(len(h) == 16, "header length is %d", len(h))
        return "parse " + b.hex()
    if m == 1:
        h = AtrHeader(create=True)
        vals = dict(image_size=16 * rng.choice([0, 1, 0xffff, 0x10000, 0xffffff, rng.randrange(1 << 24)]), sector_size=rng.choice([128, 256, 512, rng.randrange(65536)]),
                    crc=rng.choice([0, 0xffffffff, rng.getrandbits(32)]), unused=rng.choice([0, rng.getrandbits(32)]), flags=rng.randrange(256))
        for k, v in vals.items():
            setattr(h, k, v)
        b = h.to_array()
        check(decode(b.tobytes()) == vals, "header %r written as %s", vals, b.tobytes().hex())
        check(fields(AtrHeader(b)) == vals, "header %r read back as %r", vals, fields(AtrHeader(b)))
        return "write %r" % vals
    if m == 2:
        n = rng.choice([0, 1, 2, 15, 17, 16, 16, 16, 100])
        b = bytearray(rbytes(rng, n, "rand"))
        if n == 16:
            b[0:2] = rng.choice([b"\x96\x03", b"\x02\x96", b"\x95\x02", b"\x96\0", b"\0\2"])
        elif n >= 2:
            b[0:2] = b"\x96\x02"
        try:
            AtrHeader(arr(b))
        except errors.InvalidAtrHeader:
            return "refuse %d bytes %s" % (n, bytes(b[:4]).hex())
        raise Fail("block %s accepted as ATR header" % bytes(b).hex())
    n = rng.choice([92160, 133120, 184320, 183936, 128 * rng.randrange(1, 2000)])
    d = rbytes(rng, n)
    out = add_atr_header(arr(d) if rng.random() < .7 else arr(d)).tobytes()
    check(out[16:] == d, "adding a header changed the data (%d bytes)", n)
    f = decode(out[:16])
    check(out[:2] == b"\x96\2" and f["image_size"] == n, "header for %d bytes says %d", n, f["image_size"])
    check(f["sector_size"] == (256 if n in (184320, 183936) else 128), "header for %d bytes says sector size %d", n, f["sector_size"])
    h = AtrHeader(arr(out[:16]))
    h.check_size(n)
    check(int(h.image_size) == n, "size %d not kept", n)
    if rng.random() < .3:
        g, img, _ = atari.gen(rng)
        im = atari.open_image(img)
        new = im.as_new_format("ATR")
        check(new.bytes.tobytes()[16:] == bytes(img[g.hdr:]), "converting %s image changed the data", g.name)
        f = decode(new.bytes.tobytes()[:16])
        check(f["image_size"] == g.total and f["sector_size"] == g.size, "converting %s image: header %r", g.name, f)
        check([x.filename for x in new.files] == [x.filename for x in im.files], "converting changed the listing")
    return "add header to %d bytes" % n


# ------------------------------------------------------------------------ C17

def c17(rng):
    t, name, size, lay = rng.choice(CARTS)
    if size > 2048 and rng.random() < .9:
        t, name, size, lay = rng.choice([c for c in CARTS if c[2] <= 256])
    if size > 4096:
        return "skip"
    rom = rbytes(rng, size * 1024, "count") if size > 64 else rbytes(rng, size * 1024, "rand")
    if rom[:4] == b"CART":
        return "skip"
    hdr = rng.random() < .5
    hb = b"CART" + t.to_bytes(4, "big") + rng.getrandbits(32).to_bytes(4, "big") + b"\0\0\0\0"
    what = "cartridge type %d (%s)%s" % (t, name, " with header" if hdr else "")
    delta = rng.choice([0, 0, 0, 0, 1, -1, 16, -16, 1024, -1024, 512])
    raw = (hb if hdr else b"") + (rom + b"\x55" * delta if delta >= 0 else rom[:delta])
    cls = rng.choice([AtariCartImage, Atari5200CartImage if "5200" in name else Atari8bitCartImage])
    try:
        im = cls(SegmentData(arr(raw)), t)
        if hdr and rng.random() < .7:
            im.strict_check()
        else:
            im.relaxed_check()
        im.parse_segments()
    except errors.InvalidDiskImage:
        check(delta != 0, "%s: image of the right size refused", what)
        return "%s refused with %+d bytes" % (what, delta)
    check(delta == 0, "%s: image of %d bytes accepted, type has %d", what, len(rom) + delta, len(rom))
    off = 16 if hdr else 0
    segs = list(im.segments)
    if hdr:
        check(segs[0].tobytes() == hb, "%s: header segment", what)
        segs = segs[1:]
    exp = []
    if lay is None:
        exp = [(0, size * 1024, 0)]
    else:
        exp = [(lay[1] * 1024, lay[0] * 1024, lay[2])]
        if len(lay) > 3:
            k = 0
            while k * lay[3] < size - lay[0]:
                exp.append(((lay[4] + k * lay[3]) * 1024, lay[3] * 1024, lay[5]))
                k += 1
    check(len(segs) == len(exp), "%s: %d segments, expected %d", what, len(segs), len(exp))
    cover = np.zeros(size * 1024, dtype=np.uint8)
    for s, (o, n, org) in zip(segs, exp):
        check(s.tobytes() == rom[o:o + n], "%s: segment %s does not hold the %d bytes at %d", what, s.name, n, o)
        check(s.rawdata.get_raw_index(0) == o + off, "%s: segment %s starts at %d", what, s.name, s.rawdata.get_raw_index(0))
        check(s.origin == org, "%s: segment %s loads at %04x instead of %04x", what, s.name, s.origin, org)
        cover[o:o + n] += 1
    check((cover == 1).all(), "%s: segments do not cover the ROM exactly once", what)
    boot = im.create_emulator_boot_segment()
    got = boot.tobytes()
    check(got[16:] == rom and len(got) == len(rom) + 16, "%s: emulator image does not hold the ROM", what)
    check(got[:4] == b"CART" and int.from_bytes(got[4:8], "big") == t, "%s: emulator image has header %s", what, got[:16].hex())
    h = A8CartHeader(arr(got[:16]))
    check(h.cart_type == t and len(h) == 16, "%s: written header parses to type %r", what, h.cart_type)
    h2 = A8CartHeader(h.to_array())
    check((h2.cart_type, h2.crc) == (h.cart_type, h.crc), "%s: header does not survive writing", what)
    return what


# ------------------------------------------------------------------------ C18

def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        rel = os.path.relpath(root, d)
        for x in dirs:
            out[os.path.join(rel, x) + "/"] = None
        for x in files:
            with open(os.path.join(root, x), "rb") as fh:
                out[os.path.normpath(os.path.join(rel, x))] = fh.read()
    return out


def cli(args):
    """run the command line tool in-process; returns (stdout, exception)"""
    old = sys.argv
    sys.argv = ["atrcopy"] + args
    try:
        with quiet() as buf:
            try:
                atrcopy.run()
                err = None
            except SystemExit as e:
                err = None if not e.code else e
            except Exception as e:
                err = e
        return buf.getvalue(), err
    finally:
        sys.argv = old


def c18(rng):
    tmp = tempfile.mkdtemp(prefix="c18_")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        return _c18(rng, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def put(name, data):
    with open(name, "wb") as fh:
        fh.write(data)


def _c18(rng, tmp):
    kind = rng.choice(["atari", "apple"])
    if kind == "atari":
        g, img, _ = atari.gen(rng, maxfiles=rng.choice([0, 1, 3, 6]), fill=.1, mydos=False)
        if img[g.hdr] == 0xff:
            img[g.hdr] = 0
        model = lambda b: {k: v["data"] for k, v in atari.read_all(g, b).items()}
        names = lambda: atari.rname(rng)
        pad = lambda d: d
        iname = rng.choice(["disk.atr", "disk.atr", "Disk.ATR", "disk", "my.disk.xfd", "imgs/disk.atr"])
    else:
        img, _ = apple.gen(rng, nfiles=rng.choice([0, 1, 3, 6]), fill=.1)
        model = lambda b: {k: v["data"] for k, v in apple.read_all(b).items()}
        def names():
            while True:
                n = apple.rname(rng).replace("/", "_")
                if "." != n[0] and "-" != n[0]:
                    return n
        pad = lambda d: d + b"\0" * (-len(d) % 256 if d else 256)
        iname = rng.choice(["disk.dsk", "disk.dsk", "Disk.DSK", "disk", "my.disk.do", "imgs/disk.dsk"])
    if "/" in iname:
        os.makedirs("imgs")
    put(iname, bytes(img))
    m0 = model(bytes(img))
    safe = lambda n: n[0] not in "-." and "/" not in n
    have = sorted(n for n in m0 if safe(n))
    # some local files, partly with the names of files in the image
    local, where = {}, {}
    os.makedirs("src")
    for _ in range(rng.choice([1, 2, 3, 5])):
        n = rng.choice(have) if have and rng.random() < .5 else names()
        if not safe(n) or n == iname:
            continue
        local[n] = rbytes(rng, rng.choice([0, 1, 125, 126, 256, 300, 1000]))
        where[n] = n if rng.random() < .6 else "src/" + n
        put(where[n], local[n])
    dry, force = rng.random() < .35, rng.random() < .35
    cmd = rng.choice(["add", "add", "add", "delete", "delete", "extract", "extract", "extract", "list", "crc", "vtoc", "vtoc", "segments", "create", "boot", "assemble"])
    alias = {"add": "a", "extract": "x", "delete": "rm", "list": "ls"}
    args = [iname]
    if dry:
        args = rng.choice([["--dry-run", iname], [iname, "--dry-run"]])
    files = []
    tail = []
    target = iname
    if cmd == "add":
        files = rng.sample(sorted(local), rng.randint(1, len(local))) if local else []
        if files and rng.random() < .2:
            files.append(rng.choice(files))
        if not files:
            return "skip"
        tail = [where[n] for n in files]
    elif cmd == "delete":
        files = rng.sample(have, rng.randint(0, len(have)))
        if rng.random() < .4 or not files:
            files.insert(rng.randrange(len(files) + 1), "NOSUCH.FIL")
        tail = files
    elif cmd == "extract":
        files = rng.sample(have, rng.randint(0, len(have)))
        if rng.random() < .3:
            files.append("NOSUCH.FIL")
        opts = []
        alle = rng.random() < .3 and len(have) == len(m0)
        if alle:
            opts.append("-a")
            files = []
        elif not files:
            return "skip"
        lower, text = rng.random() < .3, rng.random() < .2
        if lower:
            opts.append("-l")
        if text:
            opts.append("-t")
        outd = rng.choice([None, None, "out", "sub/out"])
        if outd:
            opts += ["-d", outd]
            if rng.random() < .4:
                os.makedirs(outd)
                if have:
                    put(os.path.join(outd, rng.choice(have)), rng.choice([b"old contents", b""]))
        tail = opts + files
    elif cmd == "vtoc":
        tail = rng.choice([[], ["-e"]])
    elif cmd == "create":
        target = rng.choice([iname, "new.atr", "NEW.DSK", "old.atr"])
        put("old.atr", rng.choice([b"", b"old"]))
        args = [target] + (["--dry-run"] if dry else [])
        tail = [rng.choice(["dos2sd", "dos33autobrun", "nosuchtemplate", "dos2ed"])]
    elif cmd == "boot":
        target = rng.choice([iname] * (iname.lower()[-4:] in (".atr", ".dsk")) + ["boot.atr", "boot.dsk", "old.atr"])
        put("old.atr", rng.choice([b"", b"old"]))
        args = [target] + (["--dry-run"] if dry else [])
        put("prog.bin", rbytes(rng, rng.choice([1, 200, 700])))
        tail = ["-d", "prog.bin@%x" % rng.choice([0x2000, 0x4000, 0x6000])]
    elif cmd == "assemble":
        put("prog.bin", rbytes(rng, rng.choice([1, 200, 700])))
        out = rng.choice([n for n in have] + ["TEST.XEX"]) if kind == "atari" else rng.choice(have + ["HELLO BIN"])
        tail = ["-d", "prog.bin@2000", "-o", out]
        files = [out]
        if rng.random() < .3:
            return assemble_local(rng, tmp, dry, force, have)
    args.append(alias.get(cmd, cmd) if rng.random() < .3 else cmd)
    if force and cmd in ("add", "extract", "create", "boot", "assemble", "delete"):
        args.append("-f")
    force = force and "-f" in args
    args += tail
    if rng.random() < .25:
        args.insert(rng.randrange(2) if args[0] != "--dry-run" else 0, rng.choice(["-v", "--verbose"]))
    what = "%s image with %d files: atrcopy %s" % (kind, len(m0), " ".join(args))
    s0 = snapshot(tmp)
    out, err = cli(args)
    s1 = snapshot(tmp)
    if isinstance(err, SystemExit):
        raise Fail("%s: exited with %r" % (what, err.code))
    changed = {k for k in set(s0) | set(s1) if s0.get(k, 0) != s1.get(k, 0)}
    if dry:
        check(not changed, "%s: dry run changed %r", what, sorted(changed))
        return what
    gone = [k for k in s0 if k not in s1]
    check(not gone, "%s: deleted local files %r", what, gone)
    if not force or cmd in ("add", "delete", "vtoc", "assemble", "list", "crc", "segments"):
        over = [k for k in changed if k in s0 and k != iname and not k.endswith("/")]
        check(not over, "%s: replaced local files %r", what, over)
    m1 = model(s1[iname]) if cmd not in ("create", "boot") or iname not in changed else None
    if cmd in ("list", "crc", "segments") or (cmd == "vtoc" and not tail):
        check(not changed, "%s: changed %r", what, sorted(changed))
    elif cmd == "vtoc":
        check(m1 == m0, "%s: files changed", what)
        check(changed <= {iname}, "%s: changed %r", what, sorted(changed))
    elif cmd == "add":
        want = dict(m0)
        for n in files:
            if n not in want or force:
                want[n] = pad(local[n])
        if err is None:
            check(m1 == want, "%s: image does not hold the added files: missing or wrong %r, unexpected %r", what, [k for k in want if m1.get(k) != want[k]], [k for k in m1 if k not in want])
        else:
            check(all(m1.get(k) == v for k, v in m0.items() if k not in files or not force), "%s: failed with %r and changed other files", what, err)
        check(changed <= {iname}, "%s: changed %r", what, sorted(changed))
    elif cmd == "assemble":
        check(changed <= {iname}, "%s: changed %r", what, sorted(changed))
        check(all(m1.get(k) == v for k, v in m0.items() if k not in files or not force), "%s: changed existing files", what)
        if err is None:
            check(files[0] in m1, "%s: file missing from the image", what)
            if files[0] in m0 and not force:
                check(m1 == m0, "%s: existing file was replaced", what)
    elif cmd == "delete":
        if err is not None:
            raise Fail("%s: failed with %r" % (what, err))
        want = {k: v for k, v in m0.items() if k not in files}
        check(m1 == want, "%s: image holds %r, expected %r", what, sorted(m1), sorted(want))
        check(changed <= {iname}, "%s: changed %r", what, sorted(changed))
    elif cmd == "extract":
        if err is not None:
            raise Fail("%s: failed with %r" % (what, err))
        check(iname not in changed, "%s: changed the image", what)
        want = dict(s0)
        for n in (list(m0) if alle else files):
            if n not in m0:
                continue
            p = n.lower() if lower else n
            p = os.path.join(outd, p) if outd else p
            d = m0[n]
            if text:
                d = d.replace(b"\x7f", b"\t").replace(b"\x9b", b"\n")
            if force or p not in want:
                want[p] = d
        a = {k: v for k, v in s1.items() if not k.endswith("/")}
        b = {k: v for k, v in want.items() if not k.endswith("/")}
        if alle and (lower or force):
            # files may map to one name; order of the directory decides
            check(set(a) == set(b), "%s: files %r, expected %r", what, sorted(set(a) ^ set(b)), "")
            vals = set(m0.values()) | set(s0.values()) | {d.replace(b"\x7f", b"\t").replace(b"\x9b", b"\n") for d in m0.values()}
            check(all(v in vals for v in a.values()), "%s: extracted contents differ", what)
        else:
            check(a == b, "%s: wrong files %r", what, [k for k in set(a) | set(b) if a.get(k) != b.get(k)])
    elif cmd == "create":
        if err is not None:
            raise Fail("%s: failed with %r" % (what, err))
        check(changed <= {target}, "%s: changed %r", what, sorted(changed))
        if tail == ["nosuchtemplate"] or (target in s0 and not force):
            check(not changed, "%s: changed %r", what, sorted(changed))
        else:
            tp = [f for f in os.listdir(os.path.join(REPO, "atrcopy", "templates")) if tail[0] in f and not f.endswith(".inf")]
            if len(tp) == 1:
                with open(os.path.join(REPO, "atrcopy", "templates", tp[0]), "rb") as fh:
                    check(s1.get(target) == fh.read(), "%s: not a copy of the template", what)
    elif cmd == "boot":
        if err is not None:
            raise Fail("%s: failed with %r" % (what, err))
        check(changed <= {target}, "%s: changed %r", what, sorted(changed))
        if target in s0 and not force:
            check(not changed, "%s: replaced the image", what)
        else:
            check(target in s1, "%s: no image written", what)
    return what


def assemble_local(rng, tmp, dry, force, have):
    """assembling into a file on the local disk"""
    out = rng.choice(["prog.xex", "OUT.XEX", "old.xex", "src/out.xex"])
    put("old.xex", rng.choice([b"", b"old"]))
    args = ["."] + ["--dry-run"] * dry + ["assemble"] + ["-f"] * force + ["-d", "prog.bin@2000", "-o", out]
    what = "atrcopy " + " ".join(args)
    with open("prog.bin", "rb") as fh:
        d = fh.read()
    xex = bytes([255, 255, 0xe0, 2, 0xe1, 2, 0, 0x20, 0, 0x20, (0x2000 + len(d) - 1) & 255, (0x2000 + len(d) - 1) >> 8]) + d
    s0 = snapshot(tmp)
    o, err = cli(args)
    s1 = snapshot(tmp)
    if err is not None:
        raise Fail("%s: failed with %r" % (what, err))
    want = dict(s0)
    if not dry and (force or out not in s0):
        want[out] = xex
    check(s1 == want, "%s: wrong files %r", what, [k for k in set(s1) | set(want) if s1.get(k) != want.get(k)])
    return what


# ------------------------------------------------------------------------ C19

REF = {"gz": gzip.decompress, "bz2": bz2.decompress, "xz": lzma.decompress}


def c19(rng):
    fmt = rng.choice(["gz", "gz", "bz2", "xz", "lzma", "dcm", "plain", "image"])
    if fmt == "image":
        if rng.random() < .5:
            g, img, _ = atari.gen(rng, maxfiles=3, fill=.1)
        else:
            img, _ = apple.gen(rng, nfiles=3, fill=.1)
        img = bytes(img)
        c = rng.choice([gzip.compress, bz2.compress, lzma.compress])(img)
        p0, m0 = find_diskimage_from_data(img)
        p1, m1 = find_diskimage_from_data(c)
        check(type(p0) is type(p1) and m0 == m1, "compressed image parsed as %r, plain as %r", p1, p0)
        check(p1.image.bytes.tobytes() == img, "compressed image unpacked differently")
        check([s.tobytes() for s in p0.segments] == [s.tobytes() for s in p1.segments], "segments of the compressed image differ")
        return "compressed disk image of %d bytes as %s" % (len(img), m0)
    if fmt == "dcm":
        t = rng.choice([0xf9, 0xfa])
        fl = rng.choice([1, 0x21, 0x41, 0x81, 0x61, rng.randrange(256)])
        b = bytes([t, fl]) + rbytes(rng, rng.choice([0, 1, 50]))
        b = b[:rng.choice([1, 2, len(b)])]
        ok = len(b) >= 2 and fl & 0x1f == 1 and (fl >> 5) & 3 in (0, 1, 2)
        try:
            r = guess_container(arr(b))
        except errors.UnsupportedContainer:
            check(ok, "%s reported as unsupported archive", b[:4].hex())
            return "dcm %s" % b[:2].hex()
        except Exception as e:
            raise Fail("%s raised %r" % (b[:4].hex(), e))
        check(not ok, "DCM archive %s not recognised", b[:4].hex())
        check(r is None, "%s unpacked as %r", b[:4].hex(), r)
        return "no dcm %s" % b[:2].hex()
    d = rbytes(rng, rng.choice([1, 2, 100, 5000, 92176]))
    if fmt == "plain":
        c = d[:4000]
        if rng.random() < .5:
            c = rng.choice([b"\x1f\x8b", b"BZh9", b"\xfd7zXZ\0", b"\x5d\0\0", b"\x1f\x8b\x08", b"BZh91AY&SY"]) + c
    else:
        c = {"gz": gzip.compress, "bz2": bz2.compress, "xz": lzma.compress, "lzma": lambda x: lzma.compress(x, format=lzma.FORMAT_ALONE)}[fmt](d)
        k = rng.randrange(5)
        if k == 4 and fmt != "lzma":
            # several members one after the other, as parallel compressors write them
            f, n = {"gz": gzip.compress, "bz2": bz2.compress, "xz": lzma.compress}[fmt], rng.randrange(len(d) + 1)
            r = guess_container(arr(f(d[:n]) + f(d[n:])))
            check(r is not None, "%s data of two members not recognised", fmt)
            check(r.unpacked.tobytes() == d, "%s data of two members (%d bytes) unpacked to %d other bytes", fmt, len(d), len(r.unpacked))
            return "%s two members %d bytes" % (fmt, len(d))
        if k == 1:
            c = c[:rng.randrange(1, len(c))]
        elif k == 2:
            c = bytearray(c)
            for _ in range(rng.choice([1, 1, 4])):
                c[rng.choice([rng.randrange(len(c)), min(rng.randrange(20), len(c) - 1), len(c) - 1 - rng.randrange(min(12, len(c)))])] ^= 1 << rng.randrange(8)
            c = bytes(c)
        elif k == 3:
            c = c + rng.choice([b"\0" * 10, b"junk", c])
        else:
            r = guess_container(arr(c))
            check(r is not None, "%s data not recognised", fmt)
            check(r.unpacked.tobytes() == d, "%s data of %d bytes unpacked to %d other bytes", fmt, len(d), len(r.unpacked))
            return "%s %d bytes" % (fmt, len(d))
    try:
        r = guess_container(arr(c))
    except errors.UnsupportedContainer:
        check(c[0] in (0xf9, 0xfa), "%s reported as unsupported", c[:8].hex())
        return "dcm?"
    except Exception as e:
        raise Fail("damaged %s data (%d bytes, %s...) raised %r" % (fmt, len(c), c[:16].hex(), e))
    if r is not None:
        check(len(r.unpacked) > 0, "%s... unpacked to nothing", c[:16].hex())
        refs = []
        for f in (gzip.decompress, bz2.decompress, lzma.decompress):
            try:
                refs.append(f(c))
            except Exception:
                pass
        check(r.unpacked.tobytes() in refs or (fmt == "bz2" and r.unpacked.tobytes() == d), "damaged %s data unpacked to %d bytes that no decompressor yields", fmt, len(r.unpacked))
    return "damaged %s %d bytes -> %s" % (fmt, len(c), r is not None)
