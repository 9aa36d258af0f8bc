"""C01-C06: histories of additions and deletions on generated images."""
from common import *
import atari, apple


class AtariFS:
    kind = "atari"

    def __init__(self, rng, **kw):
        self.g, img, self.files = atari.gen(rng, **kw)
        self.img0 = bytes(img)
        self.im = atari.open_image(img)
        self.payload = self.g.payload

    def desc(self):
        return "Atari DOS %s%s image" % (self.g.name, " with header" if self.g.hdr else "")

    def bytes(self):
        return self.im.bytes.tobytes()

    def model(self, b):
        return atari.read_all(self.g, b)

    def free(self, b):
        return atari.vtoc_free(self.g, b)

    def lib_free(self, im):
        m = im.get_vtoc_object().sector_map
        return {int(i) for i in np.nonzero(m[0:720])[0]}

    def reopen(self):
        return atari.open_image(self.bytes())

    def rname(self, rng, used):
        return atari.rname(rng, used)

    def secs(self, f):
        return set(f["secs"])

    def sectors_of(self, b, positions):
        g, out = self.g, set()
        for p in positions:
            p = int(p) - g.hdr
            if p < 0:
                out.add(-1)
            elif p < g.nboot * g.bootsize:
                out.add(p // g.bootsize + 1)
            else:
                out.add((p - g.nboot * g.bootsize) // g.size + 1 + g.nboot)
        return out

    META = set(range(360, 369))

    def need(self, n):
        return max(1, -(-n // self.payload))

    def slots_left(self, b):
        ents = atari.entries(self.g, b)
        for e in ents:
            if not e[0] & 0x40:
                return True
        return False

    def padded(self, data):
        return data

    def types(self, rng):
        return rng.choice(["", "XEX", "B"])

    def badname(self):
        return "\u0100BAD.X"

    def entries(self, b):
        return {i: e for i, e in enumerate(atari.entries(self.g, b))}

    def other_entry_ok(self, b0, b1, names):
        m0, m1 = atari.read_all(self.g, b0), atari.read_all(self.g, b1)
        for n in names:
            check(n in m1, "file %s disappeared", n)
            check(m0[n]["entry"] == m1[n]["entry"] and m0[n]["num"] == m1[n]["num"], "directory entry of other file %s changed: %r -> %r", n, m0[n]["entry"], m1[n]["entry"])

    def corrupt_chain(self, rng, name):
        """damage the link of one sector of a file so that deleting it must fail"""
        f = self.model(self.bytes()).get(name)
        s = rng.choice(f["secs"])
        p, z = self.g.pos(s)
        b = self.im.bytes
        if f["entry"][0] & 4:
            b[p + z - 3], b[p + z - 2] = 0xff, 0xff
        elif rng.random() < .5:
            b[p + z - 3] ^= 0x80          # other file number
        elif self.g.n < 1023:
            b[p + z - 3] |= 3             # beyond the disk
            b[p + z - 2] = 0xff
        else:
            b[p + z - 3] ^= 0x40

    def count_ok(self, b):
        n = atari.vtoc_count(self.g, b)
        check(n == len(self.free(b)), "stored free-sector count is %d but the bit map has %d free sectors", n, len(self.free(b)))
        extra = 16 if self.g.name == "ed" else 0
        check(int(self.im.unused_sectors) == n + extra, "image reports %d free sectors, bit map has %d", int(self.im.unused_sectors), n + extra)


class AppleFS:
    kind = "apple"

    def __init__(self, rng, **kw):
        img, self.files = apple.gen(rng, **kw)
        self.img0 = bytes(img)
        self.im = apple.open_image(img)
        self.payload = 256

    def desc(self):
        return "DOS 3.3 image"

    def bytes(self):
        return self.im.bytes.tobytes()

    def model(self, b):
        return apple.read_all(b)

    def free(self, b):
        return apple.vtoc_free(b)

    def lib_free(self, im):
        m = im.get_vtoc_object().sector_map
        return {int(i) for i in np.nonzero(m)[0]}

    def reopen(self):
        return apple.open_image(self.bytes())

    def rname(self, rng, used):
        return apple.rname(rng, used)

    def secs(self, f):
        return set(f["secs"]) | set(f["ts"])

    def sectors_of(self, b, positions):
        return {int(p) // 256 for p in positions}

    META = set(range(apple.VT, apple.VT + 16))

    def need(self, n):
        d = max(1, -(-n // 256))
        return d + -(-d // 122)

    def slots_left(self, b):
        return any(e[0] in (0, 255) for _, _, e in apple.catalog(b))

    def padded(self, data):
        n = max(1, -(-len(data) // 256)) * 256
        return data + b"\0" * (n - len(data))

    def types(self, rng):
        return rng.choice(list(apple.TYPES) + [""])

    def badname(self):
        return "\u00e9BAD"

    def other_entry_ok(self, b0, b1, names):
        m0, m1 = self.model(b0), self.model(b1)
        for n in names:
            check(n in m1, "file %s disappeared", n)
            check(m0[n]["entry"] == m1[n]["entry"], "catalog entry of other file %s changed: %r -> %r", n, m0[n]["entry"], m1[n]["entry"])

    def corrupt_chain(self, rng, name):
        f = self.model(self.bytes()).get(name)
        s = rng.choice(f["ts"])
        b = self.im.bytes
        b[s * 256 + 1] = rng.choice([35, 100, 255])

    def count_ok(self, b):
        pass


def make(rng, kinds=("atari", "atari", "apple"), **kw):
    k = rng.choice(kinds)
    return AtariFS(rng, **kw) if k == "atari" else AppleFS(rng, **kw)


def rlen(rng, fs, nfree):
    P = fs.payload
    m = rng.randrange(10)
    if m == 0:
        return rng.choice([0, 0, 1, 2])
    if m <= 2:
        return rng.choice([1, 2, 3, 10]) * P + rng.choice([-1, 0, 1])
    if m == 3 and fs.kind == "apple":
        return max(0, rng.choice([121, 122, 123, 244, 245]) * 256 + rng.choice([-1, 0, 1]))
    if m == 4:   # around the free space
        n = nfree
        if fs.kind == "apple":
            n = rng.choice([n, n - 1, n - (n // 122) - 1, n - (n // 122)])
        return max(0, n * P + rng.choice([-P, -1, 0, 1, P]))
    if m == 5:
        return rng.randrange(0, 40 * P)
    return rng.randrange(0, 4 * P)


def step(rng, fs, want=None):
    """One operation; returns a dict describing it."""
    b0 = fs.bytes()
    m0 = fs.model(b0)
    free0 = fs.free(b0)
    r = rng.random()
    op = want or ("add" if r < .6 else "del" if r < .9 else "delmissing" if r < .95 else "delobj")
    small, which = op == "addsmall", op
    op = "add" if small else "del" if op in ("delfirst", "dellast") else op
    rec = dict(op=op, b0=b0, m0=m0, free0=free0, err=None)
    if op in ("del", "delobj") and not m0:
        rec["op"] = op = "add"
    try:
        if op == "add":
            rec["name"] = fs.rname(rng, m0)
            n = rng.choice([0, 1, 5, 300]) if small else rlen(rng, fs, len(free0))
            rec["data"] = rbytes(rng, n)
            rec["type"] = fs.types(rng)
            payload = rec["data"]
            form = rng.randrange(3)
            if form == 1:
                payload = arr(payload)
            elif form == 2 and n < 3000:
                payload = list(payload)
            rec["fits"] = fs.need(n) <= len(free0)
            rec["slots"] = fs.slots_left(b0)
            with quiet():
                fs.im.write_file(rec["name"], rec["type"], payload)
        elif op == "del":
            rec["name"] = rng.choice(sorted(m0)) if which == "del" else list(m0)[0 if which == "delfirst" else -1]
            fs.im.delete_file(rec["name"])
        elif op == "delobj":
            rec["name"] = rng.choice(sorted(m0))
            fs.im.delete_file(fs.im.find_dirent(rec["name"]))
        elif op == "delmissing":
            rec["name"] = fs.rname(rng, m0)
            fs.im.delete_file(rec["name"])
    except Exception as e:
        rec["err"] = e
    rec["b1"] = fs.bytes()
    return rec


def describe(fs, log):
    out = [fs.desc() + ", initially %d files, %d free sectors" % (len(fs.model(fs.img0)), len(fs.free(fs.img0)))]
    for r in log:
        if r["op"] == "add":
            out.append("add %r (%d bytes, type %r)%s" % (r["name"], len(r["data"]), r["type"], " -> %r" % r["err"] if r["err"] else ""))
        else:
            out.append("%s %r%s" % (r["op"], r.get("name"), " -> %r" % r["err"] if r["err"] else ""))
    return "; ".join(out)


def fullops(rng):
    """operations on a full directory: entries anywhere, also the first and the last one, are deleted and used again"""
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice([1, 1, 2])
        out += [rng.choice(["del", "delfirst", "dellast"]) for _ in range(k)]
        out += ["addsmall"] * (k + rng.randrange(2))
    return out


def history(rng, kinds, checker, nsteps=None, ops=None, **kw):
    fs = make(rng, kinds, **kw)
    log = []
    ops = ops or [None] * (nsteps or rng.choice([1, 2, 4, 8]))
    try:
        for op in ops:
            r = step(rng, fs, op)
            log.append(r)
            checker(fs, r, rng)
    except Fail as e:
        raise Fail("%s  [%s]" % (e, describe(fs, log)))
    except Exception as e:
        import traceback
        raise Fail("unexpected %r at %s [%s]" % (e, traceback.extract_tb(e.__traceback__)[-1], describe(fs, log)))
    return describe(fs, log)


# --------------------------------------------------------------------- C01/C02

def _roundtrip(fs, r, rng):
    if r["op"] != "add" or r["err"]:
        return
    want = fs.padded(r["data"])
    got = fs.im.find_file(r["name"])
    check(got == want, "%r read back %d bytes differing from the %d written", r["name"], len(got), len(want))
    got = fs.reopen().find_file(r["name"])
    check(got == want, "%r read back from the re-parsed image differs (%d bytes, %d written)", r["name"], len(got), len(want))
    m = fs.model(r["b1"])
    check(r["name"] in m and m[r["name"]]["data"] == want, "%r as stored on the disk differs from what was written", r["name"])


def c01(rng):
    return history(rng, ("atari",), _roundtrip)


def c02(rng):
    return history(rng, ("apple",), _roundtrip)


# ------------------------------------------------------------------------ C03

def _isolation(fs, r, rng):
    b0, b1 = r["b0"], r["b1"]
    check(len(b0) == len(b1), "image size changed")
    if r["err"]:
        return
    d = diff_positions(b0, b1)
    secs = fs.sectors_of(b0, d)
    allowed = set(fs.META)
    if r["op"] == "add":
        allowed |= r["free0"]
    bad = secs - allowed
    check(not bad, "%s changed sectors that were not free: %r", r["op"], sorted(bad)[:8])
    others = set(r["m0"]) - {r["name"]}
    fs.other_entry_ok(b0, b1, others)
    m1 = fs.model(b1)
    for n in others:
        check(m1[n]["data"] == r["m0"][n]["data"], "contents of other file %r changed", n)
    if others:
        n = rng.choice(sorted(others))
        check(fs.im.find_file(n) == r["m0"][n]["data"], "other file %r reads back differently", n)


def c03(rng):
    return history(rng, ("atari", "apple"), _isolation)


# ------------------------------------------------------------------------ C04

def _alloc(fs, r, rng):
    if r["err"]:
        return
    free1 = fs.free(r["b1"])
    m1 = fs.model(r["b1"])
    lim = set(range(720)) if fs.kind == "atari" else set(range(800))
    if r["op"] == "add":
        used = fs.secs(m1[r["name"]])
        check(used <= r["free0"], "new file occupies sectors that were not free: %r", sorted(used - r["free0"])[:8])
        check(free1 == r["free0"] - used, "allocation table after adding is wrong: newly used %r, file occupies %r", sorted(r["free0"] - free1)[:10], sorted(used)[:10])
    else:
        freed = fs.secs(r["m0"][r["name"]])
        want = r["free0"] | (freed & lim)
        check(free1 == want, "allocation table after deleting is wrong: newly free %r, file occupied %r, no longer free %r", sorted(free1 - r["free0"])[:10], sorted(freed)[:10], sorted(r["free0"] - free1)[:10])
    check(fs.lib_free(fs.im) == free1, "library's own view of the allocation table differs from the bytes on disk")
    seen = {}
    for n, f in m1.items():
        for s in fs.secs(f):
            check(s not in seen, "files %r and %r share sector %d", n, seen.get(s), s)
            seen[s] = n
    fs.count_ok(r["b1"])


def c04(rng):
    return history(rng, ("atari", "apple"), _alloc)


# ------------------------------------------------------------------------ C05

class Boom(Exception):
    pass


def c05(rng):
    mode = rng.choice(["full", "dirfull", "name", "chain", "fault", "missing", "history"])
    kw = {}
    kinds = ("atari", "apple")
    if mode == "dirfull":
        kinds = ("atari",) if rng.random() < .5 else ("apple",)
        kw = dict(full_dir=64, fill=.5) if kinds == ("atari",) else dict(nfiles=105, fill=.9)
    if mode == "full":
        kw = dict(fill=rng.choice([.9, 1]))
    if mode in ("chain", "fault"):
        kw = dict(fill=.4)
    fs = make(rng, kinds, **kw)
    for i in range(rng.choice([0, 0, 1, 3])):
        step(rng, fs)
    b0 = fs.bytes()
    m0 = fs.model(b0)
    nfree = len(fs.free(b0))
    what = mode
    err = None
    try:
        if mode == "full":
            n = nfree * fs.payload + rng.choice([1, fs.payload, 5 * fs.payload])
            if fs.kind == "apple":
                n = max(0, nfree * 256 - rng.choice([0, 0, 1, 256, 300, 700]))
            what = "add %d bytes with %d sectors free" % (n, nfree)
            fs.im.write_file(fs.rname(rng, m0), fs.types(rng), rbytes(rng, n))
        elif mode == "dirfull":
            what = "add to full directory"
            fs.im.write_file(fs.rname(rng, m0), fs.types(rng), rbytes(rng, rng.choice([0, 10, 1000])))
        elif mode == "name":
            what = "add with unusable name"
            fs.im.write_file(fs.badname(), fs.types(rng), rbytes(rng, rng.choice([0, 10, 1000])))
        elif mode == "missing":
            fs.im.delete_file(fs.rname(rng, m0))
        elif mode == "chain":
            if not m0:
                return "skip"
            name = rng.choice(sorted(m0))
            fs.corrupt_chain(rng, name)
            b0 = fs.bytes()
            what = "delete %r whose sector chain is damaged" % name
            fs.im.delete_file(name)
        elif mode == "fault":
            im = fs.im
            op = rng.choice(["add", "add", "del", "shred"])
            exc = rng.choice([Boom, errors.AtrError, errors.InvalidFile])
            at = rng.randrange(0, 4)
            site = rng.choice(["write_sector_list", "get_pos"]) if op != "shred" else "get_pos"
            cnt = [0]
            tgt = im if site == "write_sector_list" else im.header
            orig = getattr(tgt, site)
            at = rng.randrange(0, 3) if site == "write_sector_list" else rng.randrange(0, 60)
            def hook(*a, **k):
                cnt[0] += 1
                if cnt[0] == at + 1:
                    raise exc("injected")
                return orig(*a, **k)
            setattr(tgt, site, hook)
            meta = im.get_metadata

            def get_metadata():
                # re-reading the directory afterwards is not part of the
                # operation; no faults there
                setattr(tgt, site, orig)
                return meta()
            im.get_metadata = get_metadata
            what = "%s interrupted by %s in call %d of %s" % (op, exc.__name__, at + 1, site)
            try:
                if op == "add":
                    im.write_file(fs.rname(rng, m0), fs.types(rng), rbytes(rng, rng.choice([10, 500, 3000])))
                elif op == "del":
                    if not m0:
                        return "skip"
                    im.delete_file(rng.choice(sorted(m0)))
                else:
                    im.shred(rng.randrange(256))
            finally:
                setattr(tgt, site, orig)
                im.get_metadata = meta
        else:
            r = step(rng, fs)
            err = r["err"]
            b0 = r["b0"]
            what = r["op"]
    except Exception as e:
        err = e
    if err is None:
        return "skip (succeeded)"
    d = diff_positions(b0, fs.bytes())
    check(len(d) == 0, "%s: %s raised %r but changed %d bytes of the image (first at %d)", fs.desc(), what, err, len(d), int(d[0]) if len(d) else 0)
    if mode in ("full", "dirfull", "missing", "history", "chain"):
        check(isinstance(err, errors.AtrError), "%s: %s raised %r, not one of the library's errors", fs.desc(), what, err)
    return "%s: %s -> %r" % (fs.desc(), what, err)


# ------------------------------------------------------------------------ C06

def _listing(fs, r, rng):
    names0 = set(r["m0"])
    if r["op"] == "add":
        possible = r["fits"] and r["slots"]
        if r["err"]:
            check(not possible, "adding %r (%d bytes) was refused with %r although %d sectors and a directory entry are free", r["name"], len(r["data"]), r["err"], len(r["free0"]))
            why = ([] if r["slots"] else [errors.NoSpaceInDirectory]) + ([] if r["fits"] else [errors.NotEnoughSpaceOnDisk])
            check(isinstance(r["err"], tuple(why)), "adding was refused with %r", r["err"])
            want = names0
        else:
            check(possible, "adding %r succeeded although it cannot fit", r["name"])
            want = names0 | {r["name"]}
    elif r["op"] == "delmissing":
        check(isinstance(r["err"], errors.FileNotFound), "deleting a missing file gave %r", r["err"])
        want = names0
    else:
        check(r["err"] is None, "deleting %r failed with %r", r["name"], r["err"])
        want = names0 - {r["name"]}
    for im in (fs.im, fs.reopen()):
        got = [f.filename for f in im.files]
        check(sorted(got) == sorted(want), "listing is wrong: missing %r, unexpected %r", sorted(want - set(got))[:5], sorted(set(got) - want)[:5])
    check(set(fs.model(r["b1"])) == want, "directory on disk is wrong")
    miss = fs.rname(rng, want)
    for n in [miss] + ([r["name"]] if r["name"] not in want else []):
        try:
            fs.im.find_file(n)
        except errors.FileNotFound:
            pass
        else:
            raise Fail("looking up absent file %r succeeded" % n)


def c06(rng):
    kw = {}
    r = rng.random()
    if r < .25:     # full directory
        kinds = ("atari",) if rng.random() < .5 else ("apple",)
        kw = dict(full_dir=64, fill=.5) if kinds == ("atari",) else dict(nfiles=105, fill=.9)
        return history(rng, kinds, _listing, ops=fullops(rng), **kw)
    if r < .4:
        kw = dict(fill=rng.choice([.2, .8]), )
    return history(rng, ("atari", "apple"), _listing, nsteps=rng.choice([2, 4, 8, 20]), **kw)
