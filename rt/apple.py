"""Independent model of DOS 3.3 images: generator and reader."""
from common import *

SEC = 256
N = 560
VT = 17 * 16
TYPES = {"T": 0, "I": 1, "A": 2, "B": 4, "S": 8, "R": 16}
CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-&$ _"


def rname(rng, used=()):
    while True:
        if used and rng.random() < .3:
            # differs from an existing name only slightly
            o = rng.choice(sorted(used))
            k = rng.randrange(len(o))
            n = rng.choice([o[:-1], o + rng.choice(CHARS), o[:k] + rng.choice(CHARS) + o[k + 1:], o.swapcase()])[:30].strip()
            if n and n not in used:
                return n
        n = "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 5, 29, 30, rng.randint(1, 30)]))).strip()
        if n and n not in used:
            return n


def gen(rng, ncat=None, nfiles=None, fill=None):
    img = bytearray(rbytes(rng, N * SEC, rng.choice(["zero", "rand", "ff"])))
    img[0:4] = b"\x01\xa5\x27\xc9"
    v = bytearray(256)
    v[1], v[2], v[3], v[6] = 17, 15, 3, 254
    pairs = 122
    v[0x27], v[0x30], v[0x31], v[0x34], v[0x35], v[0x37] = pairs, 17, 1, 35, 16, 1
    sysused = set(range(48)) | set(range(VT, VT + 16))
    avail = [s for s in range(N) if s not in sysused]
    pool = list(avail)
    if rng.random() < .6:
        rng.shuffle(pool)
    ncat = ncat or 15
    cats = [VT + 15 - i for i in range(ncat)]
    nf = rng.choice([0, 1, 3, 6, 7, 8, 20, 50, 90]) if nfiles is None else nfiles
    ratio = rng.choice([0, .1, .4, .9]) if fill is None else fill
    budget = int(len(pool) * ratio)
    files, used, ents = {}, set(), []
    for i in range(min(nf, ncat * 7)):
        name = rname(rng, files)
        if (rng.random() < .2 and nfiles != 105) or budget < 2 or len(pool) < 3:
            nb = bytes(ord(c) | 0x80 for c in name.ljust(30))
            ents.append(bytes([0xff, rng.randrange(16), 4]) + nb[:29] + bytes([rng.randrange(1, 35)]) + b"\2\0")
            continue
        nsec = max(1, min(rng.choice([1, 1, 2, 5, 20, 121, 122, 123, 130] if nfiles != 105 else [1, 1, 1, 2]), budget - 2, len(pool) - 3))
        nts = (nsec + pairs - 1) // pairs
        secs = [pool.pop() for _ in range(nsec)]
        ts = [pool.pop() for _ in range(nts)]
        budget -= nsec + nts
        content = bytearray()
        for s in secs:
            d = rbytes(rng, SEC, "rand")
            img[s * SEC:s * SEC + SEC] = d
            content += d
        for k, s in enumerate(ts):
            d = bytearray(SEC)
            if k + 1 < nts:
                d[1], d[2] = divmod(ts[k + 1], 16)
            d[5], d[6] = (k * pairs) & 255, (k * pairs) >> 8
            for j, q in enumerate(secs[k * pairs:(k + 1) * pairs]):
                d[12 + 2 * j], d[13 + 2 * j] = divmod(q, 16)
            img[s * SEC:s * SEC + SEC] = d
        ty = rng.choice(list(TYPES))
        lock = rng.random() < .4
        t, s = divmod(ts[0], 16)
        n = nsec + nts
        nb = bytes(ord(c) | 0x80 for c in name.ljust(30))
        ents.append(bytes([t, s, TYPES[ty] | (0x80 if lock else 0)]) + nb + bytes([n & 255, n >> 8]))
        files[name] = dict(data=bytes(content), secs=secs, ts=ts, type=ty, lock=lock)
        used |= set(secs) | set(ts)
    for k, c in enumerate(cats):
        d = bytearray(SEC)
        if k + 1 < ncat:
            d[1], d[2] = divmod(cats[k + 1], 16)
        for j, e in enumerate(ents[k * 7:k * 7 + 7]):
            d[11 + 35 * j:46 + 35 * j] = e
        img[c * SEC:c * SEC + SEC] = d
    free = [s for s in avail if s not in used]
    if rng.random() < .3 and free:
        for s in rng.sample(free, min(len(free), rng.choice([1, 20, 300, 480]))):
            used.add(s)
        free = [s for s in avail if s not in used]
    for s in free:
        t, q = divmod(s, 16)
        o = 0x38 + 4 * t
        if q >= 8:
            v[o] |= 1 << (q - 8)
        else:
            v[o + 1] |= 1 << q
    img[VT * SEC:VT * SEC + SEC] = v
    return img, files


def vtoc_free(img):
    o0 = VT * SEC
    out = set()
    for s in range(50 * 16):
        t, q = divmod(s, 16)
        o = o0 + 0x38 + 4 * t
        if (img[o] >> (q - 8)) & 1 if q >= 8 else (img[o + 1] >> q) & 1:
            out.add(s)
    return out


def catalog(img):
    """list of (catalog sector, index, 35-byte entry)"""
    out, s, seen = [], img[VT * SEC + 1] * 16 + img[VT * SEC + 2], set()
    while s:
        check(s < N and s not in seen, "bad catalog link %d", s)
        seen.add(s)
        d = img[s * SEC:s * SEC + SEC]
        for j in range(7):
            out.append((s, j, bytes(d[11 + 35 * j:46 + 35 * j])))
        s = d[1] * 16 + d[2]
    return out


def read_all(img):
    out = {}
    for cs, j, e in catalog(img):
        if e[0] == 0 or e[0] == 0xff:
            continue
        name = bytes(c & 0x7f for c in e[3:33]).rstrip().decode("ascii")
        n = e[33] + 256 * e[34]
        s, ts, secs = e[0] * 16 + e[1], [], []
        while s:
            check(s < N and s not in ts, "file %s: bad track/sector list link %d", name, s)
            ts.append(s)
            d = img[s * SEC:s * SEC + SEC]
            secs += [d[i] * 16 + d[i + 1] for i in range(12, 256, 2)]
            s = d[1] * 16 + d[2]
        secs = secs[:max(0, n - len(ts))]
        check(all(0 < q < N for q in secs), "file %s: sector out of range in list %r", name, secs)
        check(len(set(secs + ts)) == len(secs) + len(ts), "file %s: sector listed twice", name)
        check(name not in out, "file %s listed twice", name)
        out[name] = dict(data=b"".join(bytes(img[q * SEC:q * SEC + SEC]) for q in secs), secs=secs, ts=ts,
                         type=e[2] & 0x7f, lock=e[2] >> 7, entry=e)
    return out


def open_image(img):
    return Dos33DiskImage(SegmentData(arr(img)))
