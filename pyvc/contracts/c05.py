"""C05: an operation that fails leaves the image as it was.

The steps of an operation are replaced by the weakest contract possible: each may raise anything, and the ones that store something (storing the
entry, releasing sectors, writing sectors) may first overwrite the image with anything.  That the others leave the image alone is proved in C06 and C09."""
from pyvc.api import contract


def blank(v, which, n, d=None):
    """image object over n arbitrary bytes, not parsed"""
    cls = v.mod(which[0]).__dict__[which[1]]
    SD = v.mod("segments").SegmentData
    b = v.bytes("img", n)
    s = v.bytes("sty", n)
    im = cls.__new__(cls)
    im.rawdata = SD(v.copy(b), v.copy(s))
    im.bytes = im.rawdata.get_data()
    im.style = im.rawdata.get_style()
    im.size = n
    im.files = []
    im.all_sane = True
    im.header = v.mod("diskimages").BaseHeader()
    return im, b, s


IMAGES = [("ataridos", "AtariDosDiskImage"), ("dos33", "Dos33DiskImage")]
ERRORS = ["NotEnoughSpaceOnDisk", "FileNotFound", "InvalidFile", "ValueError", "IndexError", "TypeError"]


class Faulty:
    def __init__(self, v, im, n):
        self.v, self.im, self.count = v, im, 0
        self.at = v.choice("failing step", list(range(10)))
        self.err = v.choice("error", ERRORS)
        self.junk = v.bytes("junk", n)
        self.hit = False

    def step(self, result=None, store=False):
        v = self.v
        if store:
            v.setbytes(self.im.bytes, self.junk)
        self.count += 1
        if self.count - 1 == self.at:
            self.hit = True
            e = getattr(v.mod("errors"), self.err, None) or dict(ValueError=ValueError, IndexError=IndexError, TypeError=TypeError)[self.err]
            e = e("step %d" % self.at)
            e.modelled = True
            raise e
        return result

    def judge(self, o, n, b, s):
        v = self.v
        if self.hit:
            v.cover("a step fails")
            v.ensure("the failure is reported", not o.ok)
            v.ensure("with the error of the step", o.raised(self.err))
        if not o.ok:
            v.ensure("the image keeps its size", v.len(self.im.bytes) == n)
            v.forall("every byte is as before", 0, n, lambda i: v.get(self.im.bytes, i) == v.get(b, i))
            v.forall("in the underlying data too", 0, n, lambda i: v.get(self.im.rawdata.data, i) == v.get(b, i))


class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def prepare(v):
    which = v.choice("image", IMAGES)
    n = v.int("n", 1)
    im, b, s = blank(v, which, n)
    f = Faulty(v, im, n)
    c = type(im)
    dc, vc = im.directory_class, im.vtoc_class
    v.patch(c, "get_directory", lambda self, directory=None: f.step())
    v.patch(c, "get_metadata", lambda self: None)
    v.patch(c, "get_vtoc_object", lambda self: f.step(vc.__new__(vc)))
    v.patch(c, "build_sectors", lambda self, data: f.step(Thing()))
    v.patch(c, "write_sector_list", lambda self, sl: f.step(store=True))
    v.patch(dc, "__init__", lambda self, *a, **kw: None)
    v.patch(dc, "add_dirent", lambda self, *a: f.step(Thing()))
    v.patch(dc, "find_dirent", lambda self, *a: f.step(Thing(get_sectors_in_vtoc=lambda image: f.step(Thing()))))
    v.patch(dc, "save_dirent", lambda self, *a: f.step(store=True))
    v.patch(dc, "remove_dirent", lambda self, *a: f.step(store=True))

    def free(self):
        lo, size = v.int("lo", 0), v.int("size", 0)
        for i in range(2):
            f.step()
            yield i, lo, size
        f.step()
    v.patch(vc, "iter_free_sectors", free)
    return f, im, n, b, s


@contract("C05", functions=["DiskImageBase.write_file", "DiskImageBase.begin_transaction", "DiskImageBase.rollback_transaction"])
def c05_write(v):
    """If any step of adding a file fails, after whatever it has written and with whatever error, the call raises that error and the image is
    byte for byte as before."""
    f, im, n, b, s = prepare(v)
    data = v.choice("data", [b"", b"abc", "text"])
    o = v.call(im.write_file, "NAME", "B", data)
    if data == "text":
        v.ensure("data of a wrong type is refused", not o.ok)
    f.judge(o, n, b, s)


@contract("C05", functions=["DiskImageBase.delete_file", "DiskImageBase.begin_transaction", "DiskImageBase.rollback_transaction"])
def c05_delete(v):
    """If any step of deleting a file fails the call raises that error and the image is byte for byte as before."""
    f, im, n, b, s = prepare(v)
    o = v.call(im.delete_file, "NAME")
    f.judge(o, n, b, s)


@contract("C05", functions=["DiskImageBase.shred", "DiskImageBase.begin_transaction", "DiskImageBase.rollback_transaction"])
def c05_shred(v):
    """If any step of clearing the free space fails the call raises that error and the image is byte for byte as before."""
    f, im, n, b, s = prepare(v)
    o = v.call(im.shred, v.int("fill", 0, 255))
    f.judge(o, n, b, s)
