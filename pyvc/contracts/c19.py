"""C19: compressed images.

The decompressors of the standard library are replaced by what their documentation promises: for any input they return some bytes or raise one of their
errors for damaged data, when the data is read, and no data is accepted by two of them; that they restore what was compressed is assumed (it is checked on real data by the random part)."""
import gzip, bz2, lzma, zlib, io
from pyvc.api import contract

FORMATS = ["gzip", "bz2", "lzma"]
FAIL = dict(gzip=[OSError, gzip.BadGzipFile, EOFError, zlib.error], bz2=[OSError, EOFError], lzma=[lzma.LZMAError, EOFError])


class Buffer:
    def __init__(self, data=b""):
        self.data = data

    def read(self, size=-1):
        return self.data

    getvalue = read

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class World:
    """what each decompressor makes of the data d of n bytes"""
    def __init__(self, v, errors=4):
        self.v = v
        self.n = v.int("n", 0)
        self.data = v.bytes("data", self.n)
        self.does = {f: v.choice(f, ["unpacks"] + FAIL[f][:errors]) for f in FORMATS}
        self.size, self.out = {}, {}
        for f in FORMATS:
            if self.does[f] == "unpacks":
                self.size[f] = v.int(f + " size", 0)
                self.out[f] = v.bstr(f + " contents", self.size[f])
        # the formats start differently: no data is valid for two of them or for one of them and DCM
        v.assume(len(self.out) <= 1)
        if self.out:
            v.assume(self.n >= 1)
            v.assume(v.And(v.get(self.data, 0) != 0xf9, v.get(self.data, 0) != 0xfa))

        self.called = set()

        def unpack(f, data):
            self.called.add(f)
            if hasattr(data, "read"):
                data = data.read()
            v.ensure("the whole data is unpacked", v.len(data) == self.n)
            v.forall("the data is passed on as it is", 0, self.n, lambda i: v.get(data, i) == v.get(self.data, i))
            e = self.does[f]
            if e != "unpacks":
                e = e("damaged")
                e.modelled = True
                raise e
            return self.out[f]

        def reader(f):
            class Reader:
                def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, **kw):
                    self.src, self.at = fileobj if fileobj is not None else filename, 0

                def read(self, size=-1):
                    b = unpack(f, self.src)
                    lo = self.at
                    if size is None or size < 0:
                        self.at = v.len(b)
                        return b[lo:] if lo else b
                    hi = v.Ite(lo + size < v.len(b), lo + size, v.len(b))
                    self.at = hi
                    return b[lo:hi]

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    return False

                def close(self):
                    pass
            return Reader
        for m, cls in ((gzip, "GzipFile"), (bz2, "BZ2File"), (lzma, "LZMAFile")):
            f = m.__name__
            v.patch(m, cls, reader(f))
            v.patch(m, "open", reader(f))
            v.patch(m, "decompress", lambda data, f=f, **kw: unpack(f, data))
        if v.symbolic:
            v.patch(io, "BytesIO", Buffer)

    def container(self):
        """the format that unpacks the data first"""
        v = self.v
        for f in FORMATS:
            if self.does[f] == "unpacks" and f not in self.called:
                v.inapplicable("the %s decompressor is not used in a known way" % f)
            if self.does[f] == "unpacks" and (f != "lzma" or v.true(self.size[f] > 0)):
                return f
        return None

    def dcm(self):
        """a DCM archive that starts with its first pass, of a known density"""
        v = self.v
        if not v.true(self.n >= 2):
            return False
        a, b = v.get(self.data, 0), v.get(self.data, 1)
        return v.true(v.And(v.Or(a == 0xf9, a == 0xfa), b % 32 == 1, (b // 32) % 4 < 3))

    def judge(self, o, got):
        """the outcome of an attempt to unpack; got(value) is the unpacked array, None if the data is taken as it is"""
        v = self.v
        f = self.container()
        if f is None and self.dcm():
            v.cover("unsupported archive")
            v.ensure("the archive is reported as unsupported", o.raised("UnsupportedContainer"))
            return False
        v.ensure("no error escapes", o.ok)
        if not o.ok:
            return False
        a = got(o.value)
        if f is None:
            v.cover("plain data")
            v.ensure("data in no format is taken as it is", a is None)
            return False
        v.cover("unpacked " + f)
        v.ensure("the container is found", a is not None)
        if a is not None:
            v.ensure("size of the contents", v.len(a) == self.size[f])
            v.forall("contents", 0, self.size[f], lambda i: v.get(a, i) == v.get(self.out[f], i))
        return True


@contract("C19", functions=["guess_container", "DiskImageContainer.__init__", "GZipContainer.unpack_bytes", "BZipContainer.unpack_bytes", "LZMAContainer.unpack_bytes",
                            "DCMContainer.unpack_bytes", "DCMContainer.get_next", "to_numpy"])
def c19_guess(v):
    """Data that a decompressor accepts is unpacked to exactly what it returns; data that all refuse, with whatever error for damaged data, is taken as a
    plain image, or as an unsupported archive if it starts like a DCM archive; nothing else escapes."""
    W = World(v)
    o = v.call(v.mod("parsers").guess_container, v.copy(W.data), v.choice("verbose", [False, True]))
    W.judge(o, lambda c: None if c is None else c.unpacked)


class Found:
    menu_name = "image"

    def __init__(self):
        self.image = self


@contract("C19", functions=["iter_parsers", "find_diskimage_from_data", "guess_container"])
def c19_treated(v):
    """The parsers are given exactly the unpacked contents of a compressed image, and exactly the data itself of one that is not compressed."""
    W = World(v, 1)
    P = v.mod("parsers")
    seen = []
    found = Found()
    at = v.choice("found by", ["size", "first type", "last type", "none"])
    order = list(P.mime_parse_order)

    def by_size(r, verbose=False):
        seen.append(r)
        return ("x/y", found) if at == "size" else (None, None)

    def by_mime(mime, r, verbose=False):
        seen.append(r)
        return found if at == "first type" and mime == order[0] or at == "last type" and mime == order[-1] else None

    def detail(mime, r, parser):
        seen.append(r)
        return mime
    call = v.choice("call", ["iter_parsers", "find_diskimage_from_data"])
    M = P if call == "iter_parsers" else v.mod("init")
    v.patch(M, "guess_parser_by_size", by_size)
    v.patch(M, "guess_parser_for_mime", by_mime)
    v.patch(M, "guess_detail_for_mime", detail)
    if call == "iter_parsers":
        o = v.call(P.iter_parsers, v.mod("segments").SegmentData(v.copy(W.data)))
    else:
        o = v.call(M.find_diskimage_from_data, v.copy(W.data))
    f = W.container()
    if f is None and W.dcm():
        v.ensure("the archive is reported as unsupported", o.raised("UnsupportedContainer"))
        return
    if at == "none" and call != "iter_parsers":
        v.ensure("an unknown image is reported as such", o.raised("UnsupportedDiskImage"))
    else:
        v.ensure("no error escapes", o.ok)
        if o.ok:
            p = o.value[1] if call == "iter_parsers" else o.value[0]
            v.ensure("what is found is returned", p is (None if at == "none" else found))
            if at != "none":
                m = o.value[0] if call == "iter_parsers" else o.value[1]
                v.ensure("with its type", m == ("x/y" if at == "size" else order[0] if at == "first type" else order[-1]))
    v.ensure("the data is examined", len(seen) > 0)
    n, want = (W.n, W.data) if f is None else (W.size[f], W.out[f])
    for r in seen[:3] + seen[-1:]:
        v.ensure("size", v.len(r) == n)
        v.forall("the parsers see the contents", 0, n, lambda i: v.get(r.data, i) == v.get(want, i))
