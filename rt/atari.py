"""Independent model of Atari DOS 2 images: generator and reader.

Written from the on-disk format, not from the library."""
from common import *

GEOMS = {  # name: (nsect, secsize, nboot, bootsize)
    "sd": (720, 128, 0, 128), "ed": (1040, 128, 0, 128),
    "dd": (720, 256, 3, 128), "ddf": (720, 256, 0, 256),
}


class Geom:
    def __init__(self, name, header):
        self.name = name
        self.n, self.size, self.nboot, self.bootsize = GEOMS[name]
        self.hdr = 16 if header else 0
        self.payload = self.size - 3
        self.total = self.nboot * self.bootsize + (self.n - self.nboot) * self.size

    def pos(self, s):
        assert 1 <= s <= self.n
        if s <= self.nboot:
            return self.hdr + (s - 1) * self.bootsize, self.bootsize
        return self.hdr + self.nboot * self.bootsize + (s - 1 - self.nboot) * self.size, self.size

    def header_bytes(self):
        if not self.hdr:
            return b""
        par = self.total // 16
        return bytes([0x96, 2, par & 255, (par >> 8) & 255, self.size & 255, self.size >> 8, par >> 16] + [0] * 9)


CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@abcxyz"


def near(rng, name, chars):
    """a name that differs from an existing one only slightly"""
    m = rng.randrange(5)
    if m == 0:
        return name.swapcase()
    if m == 1:
        return name.upper() if name != name.upper() else name.lower()
    k = rng.randrange(len(name))
    if m == 2 and name[k] != ".":
        return name[:k] + rng.choice(chars) + name[k + 1:]
    if m == 3:
        return name[:-1].rstrip(".") or name
    return name.partition(".")[0]


def rname(rng, used=()):
    while True:
        if used and rng.random() < .3:
            n = near(rng, rng.choice(sorted(used)), CHARS)
            if n and n not in used:
                return n
        b = "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 2, 7, 8, 8, rng.randint(1, 8)])))
        e = "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 2, 3, 3])))
        if rng.random() < .15:
            e = rng.choice(["TXT", "BAS", "COM", "EXE", "SYS", "ASM", "LST", "DAT", "ATR", "XEX", "BAK"])
        n = b + "." + e if e else b
        if n not in used:
            return n


def gen(rng, geom=None, header=None, fill=None, maxfiles=None, mydos=True, full_dir=None):
    """A random consistent image.  Returns (Geom, bytearray, dict)."""
    g = Geom(geom or rng.choice(["sd", "sd", "ed", "dd", "ddf"]), rng.random() < .7 if header is None else header)
    junk = rng.choice(["zero", "rand", "ff"])
    img = bytearray(g.header_bytes() + rbytes(rng, g.total, junk))
    if not g.hdr and img[0:2] == b"\x96\x02":
        img[0] = 0
    if g.hdr == 0 or rng.random() < .5:
        img[g.hdr:g.hdr + 1] = b"\0"
    lim = 720
    hi = 720 if g.name != "ed" else 1024
    sysused = {0, 1, 2, 3} | set(range(360, 369)) | {720}
    avail = [s for s in range(4, 720) if s not in sysused]
    high = list(range(721, 1024)) if g.name == "ed" else []
    ratio = rng.choice([0, .05, .3, .8, 1]) if fill is None else fill
    nf = rng.choice([0, 1, 2, 5, 9, 20, 40, 63, 64]) if maxfiles is None else maxfiles
    pool = avail + (high if rng.random() < .3 else [])
    if rng.random() < .6:
        rng.shuffle(pool)
    budget = int(len(pool) * ratio)
    files, used, ents = {}, set(), []
    slots = nf if full_dir is None else full_dir
    for num in range(min(slots, 64)):
        kind = rng.random()
        name = rname(rng, files)
        base, _, ext = name.partition(".")
        nm = base.encode().ljust(8) + ext.encode().ljust(3)
        if kind < .2 and full_dir is None:
            ents.append((bytes([0x80]) + bytes([rng.randrange(256), 0, rng.randrange(256), rng.randrange(3)]) + nm, None))
            continue
        nsec = max(1, min(rng.choice([1, 1, 2, 3, 10, 40] if full_dir is None else [1, 1, 2, 3]), budget))
        if budget < 1 or len(pool) < nsec:
            ents.append((bytes([0x80, 1, 0, 4, 0]) + nm, None))
            continue
        budget -= nsec
        secs = [pool.pop() for _ in range(nsec)]
        my = mydos and rng.random() < .1
        content = bytearray()
        for k, s in enumerate(secs):
            p, z = g.pos(s)
            nxt = secs[k + 1] if k + 1 < nsec else 0
            cnt = g.payload if k + 1 < nsec and rng.random() < .8 else rng.randint(0, g.payload)
            d = rbytes(rng, g.payload, "rand")
            img[p:p + z] = d + bytes([(nxt >> 8) if my else (num << 2) | (nxt >> 8), nxt & 255, cnt])
            content += d[:cnt]
        flag = 0x42 | (0x20 if rng.random() < .2 else 0) | (4 if my else 0)
        ents.append((bytes([flag, nsec & 255, nsec >> 8, secs[0] & 255, secs[0] >> 8]) + nm, name))
        files[name] = dict(data=bytes(content), secs=secs, num=num, flag=flag)
        used |= set(secs)
    # directory
    dirb = b"".join(e for e, _ in ents)
    start = g.pos(361)[0]
    end = start + 8 * g.size
    img[start:end] = dirb + b"\0" * (end - start - len(dirb))
    # vtoc
    p, z = g.pos(360)
    free = [s for s in avail if s not in used]
    if rng.random() < .3 and free:   # some sectors marked used that no file owns
        for s in rng.sample(free, min(len(free), rng.choice([1, 20, 300, 650]))):
            used.add(s)
        free = [s for s in avail if s not in used]
    bits = 0
    v = bytearray(z)
    tot = {"sd": 707, "dd": 707, "ddf": 707, "ed": 1010}[g.name]
    v[0:5] = bytes([2, tot & 255, tot >> 8, len(free) & 255, len(free) >> 8])
    for s in free:
        v[10 + s // 8] |= 0x80 >> (s % 8)
    img[p:p + z] = v
    if g.name == "ed":
        p2, _ = g.pos(1024)
        img[p2 + 122:p2 + 124] = b"\x10\x00"
    return g, img, files


def vtoc_free(g, img):
    p, _ = g.pos(360)
    return {s for s in range(720) if img[p + 10 + s // 8] & (0x80 >> (s % 8))}


def vtoc_count(g, img):
    p, _ = g.pos(360)
    return img[p + 3] + 256 * img[p + 4]


def entries(g, img):
    start = g.pos(361)[0]
    return [bytes(img[start + 16 * i:start + 16 * i + 16]) for i in range(64)]


def read_all(g, img):
    """name -> dict(data, secs, num, entry) following the on-disk format"""
    out = {}
    for num, e in enumerate(entries(g, img)):
        if e[0] == 0:
            break
        if not e[0] & 0x40:
            continue
        name = e[5:13].rstrip(b" \0").decode("latin1")
        ext = e[13:16].rstrip(b" \0").decode("latin1")
        if ext:
            name += "." + ext
        s, secs, data = e[3] + 256 * e[4], [], bytearray()
        while s:
            check(1 <= s <= g.n and s not in secs, "file %s: bad sector link %d", name, s)
            secs.append(s)
            p, z = g.pos(s)
            a, b, c = img[p + z - 3:p + z]
            if not e[0] & 4:
                check(a >> 2 == num, "file %s: sector %d carries file number %d, not %d", name, s, a >> 2, num)
                a &= 3
            data += img[p:p + c]
            s = a * 256 + b
        check(name not in out, "file %s listed twice", name)
        out[name] = dict(data=bytes(data), secs=secs, num=num, entry=e)
    return out


def open_image(img):
    return AtariDosDiskImage(SegmentData(arr(img)))
