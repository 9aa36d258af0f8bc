"""C18: the command line.

The image is replaced by a map from names to contents (that the real images behave so is C01, C02, C06); the local disk is a map from paths to contents when
obligations are proved, and a scratch directory when an input is replayed on the real code.  Names are opaque: nothing is known about their text.

What each command has to do is written down as a step per named file; a loop over any number of files is cut, and an arbitrary iteration must do exactly
this step, from any state of the disk and the image."""
import os, shutil, tempfile
from pyvc.api import contract


class Thing:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Name:
    """a text of which nothing is known"""
    def __init__(self, v, *key):
        self.__dict__.update(v=v, key=key)

    def __str__(self):
        return "<%s>" % "/".join(str(k) for k in self.key)
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def lower(self):
        return Name(self.v, "lower", *self.key)

    def endswith(self, x):
        return self.v.true(self.v.bool("%s ends with %r" % (self, x)))

    def startswith(self, x):
        return self.v.true(self.v.bool("%s starts with %r" % (self, x)))

    def __contains__(self, x):
        return self.v.true(self.v.bool("%s contains %r" % (self, x)))

    def __bool__(self):
        return True

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        if isinstance(other, Name) and other.key == self.key:
            return True
        if isinstance(other, str) and other in self.__dict__.get("differs", ()):
            return False
        self.v.inapplicable("names are compared")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k == "filename":
            raise AttributeError(k)         # a name is no directory entry
        self.v.inapplicable("text operation %s on a name" % k)


class Disk:
    """the local disk as a map"""
    def __init__(self, W):
        self.W, self.v = W, W.v
        self.reset()

    def reset(self):
        self.files, self.dirs, self.touched = {}, set(), False

    def had(self, path):
        """is there a file (arbitrary, unless an earlier step made one)"""
        if path not in self.files:
            self.files[path] = ("old", path) if self.v.true(self.v.bool("exists %s" % path)) else None
        return self.files[path] is not None

    def snapshot(self):
        return {p: c for p, c in self.files.items() if c is not None}

    def install(self):
        v, W, D = self.v, self.W, self
        M = v.mod("init")

        def change():
            D.touched = True

        class File:
            def __init__(self, path, mode="r", *a, **kw):
                self.path, self.mode, self.parts, self.open = path, mode, None, True
                if any(c in mode for c in "wax+"):
                    change()
                    if "x" in mode and D.had(path):
                        raise FileExistsError(path)
                    if mode not in ("wb", "xb"):
                        v.inapplicable("file mode " + mode)
                    D.files[path] = b""
                elif path in W.local:
                    pass
                else:
                    v.inapplicable("reading a file")

            at = 0

            def read(self, size=-1):
                b = W.local[self.path]
                lo = self.at
                if size is None or size < 0:
                    self.at = v.len(b)
                    return b[lo:]
                self.at = hi = v.Ite(lo + size < v.len(b), lo + size, v.len(b))
                return b[lo:hi]

            def write(self, data):
                if self.parts is not None:
                    v.inapplicable("file written in parts")
                self.parts = data
                D.files[self.path] = data

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.open = False
                return False

            def close(self):
                self.open = False

        class Path:
            exists = isfile = lexists = staticmethod(D.had)
            join = staticmethod(lambda a, b: Name(v, "join", a.key, b.key))
            basename = staticmethod(lambda a: Name(v, "base", *a.key))
            sep = "/"

            @staticmethod
            def getsize(path):
                if not D.had(path):
                    raise FileNotFoundError(path)
                c = D.files[path]
                return v.int("size of old %s" % (path,), 0) if isinstance(c, tuple) else v.len(c)

            def __getattr__(self, k):
                v.inapplicable("os.path.%s" % k)

        class OS:
            path = Path()
            linesep, sep = "\n", "/"

            def makedirs(self, *a, **kw):
                change()
            mkdir = makedirs

            def __getattr__(self, k):
                v.inapplicable("os.%s" % k)
        # a directory exists or not, whatever the files
        had = D.had

        def exists(path):
            if W.dir is not None and isinstance(path, Name) and path.key == W.dir.key:
                return v.true(v.bool("directory exists"))
            return had(path)
        Path.exists = Path.lexists = Path.isdir = staticmethod(exists)
        v.patch(M, "os", OS())
        v.patch(M, "open", File)
        v.patch(v.mod("dummy"), "os", OS())
        v.patch(v.mod("dummy"), "open", File)
        v.patch(v.mod("diskimages"), "open", File)


class Real:
    """the local disk as a scratch directory"""
    def __init__(self, W):
        self.W, self.v = W, W.v
        self.tmp = tempfile.mkdtemp()
        self.start = os.getcwd()
        os.chdir(self.tmp)
        self.v.at_end(self.close)
        self.first = {}

    def close(self):
        os.chdir(self.start)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def had(self, path):
        return path in self.first

    def put(self, path, data):
        if os.path.dirname(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as fh:
            fh.write(data)
        self.first[path] = data

    def tree(self):
        out, dirs = {}, set()
        for base, ds, fs in os.walk("."):
            dirs.update(os.path.normpath(os.path.join(base, d)) for d in ds)
            for f in fs:
                p = os.path.normpath(os.path.join(base, f))
                with open(p, "rb") as fh:
                    out[p] = fh.read()
        return out, dirs

    def install(self):
        self.before = self.tree()

    def snapshot(self):
        return self.tree()[0]

    @property
    def touched(self):
        return self.tree() != self.before

    @property
    def files(self):
        return self.tree()[0]


class World:
    def __init__(self, v, flags, n=None, files=False):
        self.v = v
        M = v.mod("init")
        o = Thing(dry_run=v.choice("dry run", [False, True]), force=False, all=False, lower=False, text=False, dir=False, ext=False, verbose=v.choice("verbose", [0, 1]), filetype="", output=None)
        for f in flags:
            setattr(o, f, v.choice(f, [False, True]))
        self.dir = None
        if o.dir:
            self.dir = o.dir = self.text("Dir")
        self.o = o
        v.setglobal(M, "options", o)
        v.patch(M, "print", lambda *a, **kw: None)
        self.local = {}
        self.disk = Disk(self) if v.symbolic else Real(self)
        self.n = n
        self.same = v.choice("names", ["different", "equal"]) if n is not None and not v.cut else "different"
        if v.symbolic:
            v.run.cache["world"] = self
        self.image = Image(self)
        self.names, self.step, self.saw = {}, None, []

    def old(self, path):
        """contents of a file that was there before"""
        return (b"old " + path.encode() + bytes(20))[:min(20, self.v.int("size of old %s" % path, 0))]

    def text(self, s):
        return Name(self.v, s) if self.v.symbolic else s

    def index(self, j):
        return 0 if self.same == "equal" else j

    def tag(self, j):
        return "k" if self.v.symbolic and not isinstance(j, int) else str(self.index(j))

    def name(self, what, j):
        """name number j of a list"""
        ext = "" if self.v.symbolic else self.v.choice("kind of %s%s" % (what, self.tag(j)), ["", "", ".TXT", ".BAS", ".COM", ".SYS", ".txt", ".ATR"])
        return self.text("%s%s%s" % (what, self.tag(j), ext))

    def list(self, make):
        def get(j):
            x = make(j)
            self.names[self.tag(j)] = x
            return x
        return self.v.objlist(self.n, get)

    def join(self, a, b):
        return Name(self.v, "join", a.key, b.key) if self.v.symbolic else os.path.join(a, b)

    def base(self, a):
        return Name(self.v, "base", *a.key) if self.v.symbolic else os.path.basename(a)

    def begin(self):
        """any state of the disk and the image"""
        self.disk.reset()
        self.image.reset(True)
        self.names.clear()

    def items(self):
        """the names that were taken from the list since begin (all of them if the loop is not cut)"""
        v = self.v
        if v.cut:
            return list(self.names.values())
        return [self.names[self.tag(j)] for j in range(self.count)]

    @property
    def count(self):
        return self.n if not self.v.symbolic else self.length

    def same_bytes(self, what, a, b):
        v = self.v
        if a is b or isinstance(a, tuple) or isinstance(b, tuple):
            v.ensure(what, a is b or isinstance(a, tuple) and isinstance(b, tuple) and a == b)
            return
        v.ensure(what + " (size)", v.len(a) == v.len(b))
        v.forall(what, 0, v.Ite(v.len(a) < v.len(b), v.len(a), v.len(b)), lambda i: v.get(a, i) == v.get(b, i))

    def same_map(self, what, got, want):
        v = self.v
        v.ensure(what + ": names", set(got) == set(want))
        for k in want:
            if k in got:
                self.same_bytes(what + ": contents", got[k], want[k])


class Image:
    """an image as a map from names to contents"""
    default_filetype = "B"
    filename = "IMAGE"

    def __init__(self, W):
        self.W, self.v = W, W.v
        self.reset(False)

    def reset(self, dirty):
        v = self.v
        self.was, self.now, self.saved = {}, {}, None
        self.first = dirty and v.true(v.bool("changed before"))
        self.dirty = self.first
        self.shredded = False

    def __str__(self):
        return "image"

    def key(self, name):
        return name.key if isinstance(name, Name) else name

    def has(self, name):
        k = self.key(name)
        if k not in self.was:
            c = self.v.true(self.v.bool("in image %s" % (name,)))
            self.was[k] = self.now[k] = ("kept", k) if c else None
        return self.now[k] is not None

    def error(self, cls, text):
        e = getattr(self.v.mod("errors"), cls)(text)
        e.modelled = True
        return e

    def find_dirent(self, name):
        if hasattr(name, "filename"):
            return name
        if not self.has(name):
            raise self.error("FileNotFound", "%s not found" % (name,))
        return self.entry(name)

    def entry(self, name):
        return Thing(filename=name)

    def contents(self, name):
        v = self.v
        n = v.int("size of %s" % (name,), 0, 200000)
        return v.bstr("contents of %s" % (name,), n)

    def get_file(self, dirent):
        if not hasattr(dirent, "filename"):
            dirent = self.find_dirent(dirent)
        return self.contents(dirent.filename)

    def write_file(self, name, filetype, data):
        if self.v.true(self.v.bool("no room for %s" % (name,))):
            raise self.error("NotEnoughSpaceOnDisk", "full")
        self.v.ensure("no second file of the same name", not self.has(name))
        self.now[self.key(name)] = data
        self.W.saw.append(filetype)
        self.dirty = True

    def delete_file(self, name):
        if not self.has(name):
            raise self.error("FileNotFound", "%s not found" % (name,))
        self.now[self.key(name)] = None
        self.dirty = True

    def shred(self, fill_value=0):
        self.shredded = self.dirty = True

    def save(self, filename=""):
        self.saved = dict(self.now), filename, self.shredded
        self.dirty = False


def converted(v, data):
    """text conversion: tabs and line ends"""
    if not v.symbolic:
        return bytes(9 if c == 0x7f else 10 if c == 0x9b else c for c in data)
    from pyvc.npstub import SymBytes

    def get(i):
        c = v.get(data, i)
        return v.Ite(c == 0x7f, 9, v.Ite(c == 0x9b, 10, c))
    return SymBytes(get, v.len(data))


# ---------------------------------------------------------------- extraction

def extracted(W):
    """the disk after the files have been extracted, from what the image said it holds"""
    v, o, D = W.v, W.o, W.disk
    out = {}
    for x in W.items():
        if not o.all and not W.image.has(x):
            continue
        name = x.filename if o.all else x
        path = name.lower() if o.lower else name
        if o.dir:
            path = W.join(W.dir, path)
        if o.dry_run:
            continue
        if (path in out or W.existed(path)) and not o.force:
            continue
        data = W.image.contents(name)
        out[path] = converted(v, data) if o.text else data
    return out


def judge_extract(W):
    v, D = W.v, W.disk
    want = extracted(W)
    if v.symbolic:
        for path in want:
            v.ensure("the file is written", path in D.files and D.files[path] is not None)
            if path in D.files and D.files[path] is not None:
                W.same_bytes("extracted contents", D.files[path], want[path])
        for path, c in D.files.items():
            if path not in want:
                v.ensure("no other file changes", c is None or isinstance(c, tuple))
        if W.o.dry_run:
            v.ensure("a dry run changes nothing", not D.touched)
    else:
        full = dict(D.first)
        full.update(want)
        W.same_map("files on the disk", D.snapshot(), full)
        if W.o.dry_run:
            v.ensure("a dry run changes nothing", not D.touched)
    v.ensure("the image is not changed", W.image.now == W.image.was and W.image.saved is None)


def l_extract(st):
    W = st.run.cache["world"]
    if st.phase == "preserved":
        judge_extract(W)
    if st.mode == "assume":
        W.begin()
    st.dead("name", "dirent", "output", "data", "fh")


@contract("C18", functions=["extract_files"], loops={"init.extract_files#0": l_extract})
def c18_extract(v):
    """Extracting any list of files, or all, with any options: every file found is written to its own name with exactly its contents (converted if asked for),
    unless the run is dry or the file exists and is not to be overwritten; no other file is created or changed, and a dry run changes nothing."""
    W = World(v, ["force", "all", "lower", "text", "dir"], v.int("files", 0, 3 if not v.symbolic else None))
    existed(W)
    W.length = W.n if v.cut or not v.symbolic else v.upto(W.n, 3)
    make = (lambda j: W.image.entry(W.name("File", j))) if W.o.all else (lambda j: W.name("File", j))
    files = W.list(make)
    if W.o.all:
        W.image.files, files = files, []
    if not v.symbolic:
        for x in W.items():
            name = x.filename if W.o.all else x
            for p in {name, name.lower()}:
                q = W.join(W.dir, p) if W.o.dir else p
                if v.bool("exists %s" % q):
                    W.disk.put(q, W.old(q))
    W.disk.install()
    o = v.call(v.mod("init").extract_files, W.image, files)
    v.ensure("no error", o.ok)
    if v.cut:
        W.names.clear()
    judge_extract(W)


def existed(W):
    """remembers what the disk held at first"""
    D, v = W.disk, W.v
    if v.symbolic:
        seen = {}
        had, reset = D.had, D.reset

        def first(path):
            r = had(path)
            seen.setdefault(path, r)
            return r

        def clear():
            seen.clear()
            reset()
        D.had, D.reset = first, clear
        W.existed = lambda path: seen[path] if path in seen else first(path)
    else:
        W.existed = lambda path: path in D.first


# ---------------------------------------------------------------- adding and removing

def saved_state(W, want, done):
    """want: the image as it has to be; done: has anything been changed"""
    v, I = W.v, W.image
    if W.o.dry_run:
        v.ensure("a dry run saves nothing", I.saved is None)
        return
    v.ensure("the image holds exactly what it has to", {k: c is not None for k, c in I.now.items()} == {k: c is not None for k, c in want.items()})
    for k, c in want.items():
        if c is not None and I.now.get(k) is not None:
            W.same_bytes("contents in the image", I.now[k], c)


def judge_add(W):
    v, o, I = W.v, W.o, W.image
    want = {}
    for x in W.items():
        name = W.base(x)
        k = I.key(name)
        if k not in I.was:
            I.has(name)
        if k not in want:
            want[k] = I.was[k]
        if want[k] is not None and not o.force or o.dry_run:
            continue
        want[k] = W.local[x]
    saved_state(W, want, None)


def l_add(st):
    W = st.run.cache["world"]
    if st.phase == "preserved":
        judge_add(W)
    if st.mode == "assume":
        W.begin()
        st.open("changed", lambda: W.image.dirty and not W.o.dry_run)
    elif not W.o.dry_run:
        st.require("a change is noticed", st["changed"] == W.image.dirty)
    else:
        st.require("a dry run changes nothing", not st["changed"])
    st.dead("name", "fh", "data")


def finish(W, o, judge):
    """after the command: what was done is saved"""
    v, I = W.v, W.image
    if not o.ok:
        v.cover("an error")
        v.ensure("only an error of the image", o.raised("NotEnoughSpaceOnDisk"))
        v.ensure("nothing is saved", I.saved is None)
        return
    if v.cut:
        W.names.clear()
    judge(W)
    if not W.o.dry_run:
        v.ensure("every change is saved", not I.dirty)
        now, was = [{k: c for k, c in m.items() if c is not None} for m in (I.now, I.was)]
        if I.first or now != was:
            v.ensure("the image is saved", I.saved is not None)
        if I.saved is not None:
            v.ensure("all of it is saved, to its own file", {k: c for k, c in I.saved[0].items() if c is not None} == now and I.saved[1] in ("", I.filename))
    if W.o.dry_run:
        v.ensure("a dry run leaves the disk alone", not W.disk.touched)


def local_file(W, j):
    """local file number j"""
    v = W.v
    x = W.text("Local%s" % W.tag(j)) if v.symbolic else os.path.join("src", "Local%s" % W.tag(j))
    if x not in W.local:
        d = v.bstr("data of %s" % (x if v.symbolic else "<Local%s>" % W.tag(j)), v.int("length of Local%s" % W.tag(j), 0, 200000))
        W.local[x] = d
        if not v.symbolic:
            W.disk.put(x, d)
    return x


@contract("C18", functions=["add_files", "save_file"], loops={"init.add_files#0": l_add})
def c18_add(v):
    """Adding any list of local files, with any options: afterwards the saved image holds each of them under its name with exactly its contents, except that
    without force a file of that name in the image is kept; everything else in the image is as before; a dry run saves nothing; no local file changes."""
    W = World(v, ["force"], v.int("files", 0, 3 if not v.symbolic else None))
    existed(W)
    W.o.filetype = v.choice("type", ["", "T"])
    W.length = W.n if v.cut or not v.symbolic else v.upto(W.n, 3)
    files = W.list(lambda j: local_file(W, j))
    if not v.symbolic:
        W.items()
    W.disk.install()
    o = v.call(v.mod("init").add_files, W.image, files)
    finish(W, o, judge_add)
    v.ensure("no local file changes", not W.disk.touched)
    v.ensure("the type asked for", all(t == (W.o.filetype or "B") for t in W.saw))


def judge_remove(W):
    v, o, I = W.v, W.o, W.image
    want = {}
    for name in W.items():
        k = I.key(name)
        if k not in I.was:
            I.has(name)
        want[k] = I.was[k] if o.dry_run else None
    saved_state(W, want, None)


def l_remove(st):
    W = st.run.cache["world"]
    if st.phase == "preserved":
        judge_remove(W)
    if st.mode == "assume":
        W.begin()
        st.open("changed", lambda: W.image.dirty and not W.o.dry_run)
    elif not W.o.dry_run:
        st.require("a change is noticed", st["changed"] == W.image.dirty)
    else:
        st.require("a dry run changes nothing", not st["changed"])
    st.dead("name", "dirent")


@contract("C18", functions=["remove_files"], loops={"init.remove_files#0": l_remove})
def c18_remove(v):
    """Removing any list of files: afterwards the saved image holds none of them and everything else; a dry run saves nothing."""
    W = World(v, ["force"], v.int("files", 0, 3 if not v.symbolic else None))
    existed(W)
    W.length = W.n if v.cut or not v.symbolic else v.upto(W.n, 3)
    files = W.list(lambda j: W.name("File", j))
    W.disk.install()
    o = v.call(v.mod("init").remove_files, W.image, files)
    v.ensure("no error", o.ok)
    finish(W, o, judge_remove)
    v.ensure("no local file changes", not W.disk.touched)


# ---------------------------------------------------------------- commands without a list of files

@contract("C18", functions=["assemble", "save_file"])
def c18_assemble(v):
    """Assembling a program into the image: the saved image holds exactly the program under the given name, except that without force a file of that name is
    kept; a dry run saves nothing."""
    W = World(v, ["force"])
    existed(W)
    M = v.mod("init")
    name = W.o.output = W.text("Output")
    data = v.bstr("program", v.int("size", 0, 200000))
    v.patch(M, "assemble_segments", lambda *a, **kw: ([], None))
    W.image.create_executable_file_image = lambda *a, **kw: (data, "B")
    W.names, W.n = {}, None
    W.disk.install()
    o = v.call(M.assemble, W.image, [], [], [], "")

    def judge(W):
        I = W.image
        if I.key(name) not in I.was:
            I.has(name)
        old = I.was[I.key(name)]
        saved_state(W, {I.key(name): old if old is not None and not W.o.force or W.o.dry_run else data}, None)
    if v.cut:
        raise AssertionError
    finish(W, o, judge)
    v.ensure("no local file changes", not W.disk.touched)


@contract("C18", functions=["shred_image"])
def c18_shred(v):
    """Clearing the free space is done to the image and saved, and not at all in a dry run."""
    W = World(v, [])
    existed(W)
    W.disk.install()
    I = W.image
    o = v.call(v.mod("init").shred_image, I, v.choice("value", [0, 0xff]))
    v.ensure("no error", o.ok)
    v.ensure("done unless the run is dry", (I.saved is not None) == (not W.o.dry_run))
    if I.saved is not None:
        v.ensure("the cleared image is saved, to its own file", I.saved[2] and I.saved[1] in ("", I.filename))
    v.ensure("nothing else is written", not W.disk.touched)


@contract("C18", functions=["create_image"])
def c18_create(v):
    """Creating an image writes exactly the template to the given file, unless the run is dry or the file exists and is not to be overwritten."""
    W = World(v, ["force"])
    existed(W)
    M = v.mod("init")
    name = W.text("Image")
    data = v.bstr("template", v.int("size", 0, 200000))
    known = v.choice("template known", [True, False])

    def template(t):
        if not known:
            raise W.image.error("InvalidDiskImage", "unknown template")
        return data, dict(name="x", description="some disk", path="x")
    v.patch(M, "get_template_data", template)
    v.patch(M, "get_template_info", lambda: "templates")
    v.patch(M, "find_diskimage", lambda *a, **kw: (Thing(image=W.image), ""))
    v.patch(M, "list_files", lambda *a, **kw: None)
    path = written(W, name, data, lambda: v.call(M.create_image, "x", name), known)


def written(W, name, data, call, wanted):
    """the file `name` gets the contents `data`, unless the run is dry or it exists and is not to be overwritten"""
    v, D, o = W.v, W.disk, W.o
    if not v.symbolic and v.bool("exists %s" % name):
        D.put(name, W.old(name))
    D.install()
    r = call()
    v.ensure("no error", r.ok)
    had = W.existed(name)
    if wanted and not o.dry_run and (not had or o.force):
        v.cover("written")
        v.ensure("the file is written", name in D.files and D.files[name] is not None)
        if D.files.get(name) is not None:
            W.same_bytes("its contents", D.files[name], data)
        rest = {k: c for k, c in D.files.items() if k != name}
    else:
        v.cover("not written")
        v.ensure("nothing is written", not D.touched)
        rest = {}
    v.ensure("no other file changes", all(c is None or isinstance(c, tuple) for c in rest.values()))


@contract("C18", functions=["boot_image"])
def c18_boot(v):
    """Creating a boot disk writes it to the given file, unless the run is dry, there is nothing to write, or the file exists and is not to be overwritten."""
    W = World(v, ["force"])
    existed(W)
    M = v.mod("init")
    name = W.text("Boot")
    data = v.bstr("disk", v.int("size", 0, 200000))
    known, some = v.choice("image type known", [True, False]), v.choice("segments", [True, False])

    class Boot:
        @classmethod
        def create_boot_image(cls, segments, run_addr=None):
            return cls()

        def save(self, filename=""):
            with (M.open if v.symbolic else open)(filename, "wb") as fh:
                fh.write(data)

    def parsers(n):
        if not known:
            raise W.image.error("InvalidDiskImage", "unknown type")
        return [Boot]
    v.patch(M, "parsers_for_filename", parsers)
    v.patch(M, "assemble_segments", lambda *a, **kw: ([1] if some else [], None))
    written(W, name, data, lambda: v.call(M.boot_image, name, [], [], [], ""), known and some)


# ---------------------------------------------------------------- images and files

@contract("C18", functions=["DiskImageBase.save"])
def c18_save(v):
    """Saving an image writes exactly its bytes to the file it was read from, or to the file that is named, and no other."""
    W = World(v, [])
    existed(W)
    W.o.dry_run, W.o.force = False, True
    M = v.mod("diskimages")
    n = v.int("size", 0, 1 << 24)
    data = v.bytes("image", n)
    kind = v.choice("class", ["diskimages.DiskImageBase", "ataridos.AtariDosDiskImage", "dos33.Dos33DiskImage", "kboot.KBootImage"])
    cls = getattr(v.mod(kind.split(".")[0]), kind.split(".")[1])
    img = cls.__new__(cls)
    img.rawdata = v.mod("segments").SegmentData(data)
    img.bytes, img.style = img.rawdata.get_data(), img.rawdata.get_style()
    img.filename, img.ext = W.text("Disk.ATR"), ""
    if v.choice("to", ["own", "named"]) == "own":
        written(W, img.filename, data, lambda: v.call(img.save), True)
    else:
        name = W.text("Other.Dsk")
        written(W, name, data, lambda: v.call(img.save, name), True)


@contract("C18", functions=["find_diskimage"])
def c18_open(v):
    """Opening an image gives the parsers exactly the bytes of the file; the image will be saved to that file; no file changes."""
    W = World(v, [])
    existed(W)
    M = v.mod("init")
    got = []
    image = Thing(filename="", ext="atr")
    found = v.choice("found", [True, False])

    def parse(data, verbose=False):
        got.append(data)
        if not found:
            raise W.image.error("UnsupportedDiskImage", "unknown")
        return Thing(image=image), "application/x"
    v.patch(M, "find_diskimage_from_data", parse)
    name = local_file(W, 0)
    if v.symbolic:
        name.__dict__["differs"] = (".",)
    W.disk.install()
    o = v.call(M.find_diskimage, name, W.o.verbose)
    v.ensure("the contents are tried once", len(got) == 1)
    W.same_bytes("contents tried", got[0], W.local[name])
    if not found:
        v.ensure("refused as the parsers do", o.raised("UnsupportedDiskImage"))
    else:
        v.ensure("no error", o.ok)
        v.ensure("what the parsers found", o.value[0].image is image)
        v.ensure("saved to the same file", image.filename == name and image.ext == "")
    v.ensure("no file changes", not W.disk.touched)


@contract("C18", functions=["LocalFilesystemImage.find_dirent", "LocalFilesystemImage.write_file", "LocalFilesystemImage.save", "assemble", "save_file", "find_diskimage"])
def c18_local(v):
    """Assembling a program to the local disk writes exactly the program to the named file, unless the run is dry or the file exists and is not to be
    overwritten; nothing else changes."""
    W = World(v, ["force"])
    existed(W)
    M = v.mod("init")
    data = v.bstr("program", v.int("size", 0, 200000))
    v.patch(M, "assemble_segments", lambda *a, **kw: ([], None))
    v.patch(v.mod("diskimages").DiskImageBase, "create_executable_file_image", lambda self, *a, **kw: (data, "B"))
    W.o.output = W.text("Output")
    here = Name(v, ".") if v.symbolic else "."
    path = W.join(here, W.o.output)
    if not v.symbolic:
        path = os.path.normpath(path)
    parser, mime = M.find_diskimage(".", 0)
    if v.symbolic:
        parser.image.path = here
    written(W, path, data, lambda: v.call(M.assemble, parser.image, [], [], [], ""), True)


# ---------------------------------------------------------------- from the command line to the command

COMMANDS = dict(extract=["extract", "x"], add=["add", "a"], delete=["delete", "rm", "del"], create=["create", "c"], boot=["boot", "b"], assemble=["assemble", "s", "asm"],
                vtoc=["vtoc", "v"], list=["list", "t", "ls", "dir", "catalog"], crc=["crc"], segments=["segments"])
FLAGS = dict(extract=dict(all=["-a", "--all"], lower=["-l", "--lower"], text=["-t", "--text"], force=["-f", "--force"]), add=dict(force=["-f", "--force"]),
             create=dict(force=["-f", "--force"]), boot=dict(force=["-f", "--force"]), assemble=dict(force=["-f", "--force"]), vtoc=dict(clear_empty=["-e", "--clear-empty"]))
CALLS = dict(extract_files="extract", add_files="add", remove_files="delete", create_image="create", boot_image="boot", assemble="assemble", shred_image="vtoc",
             list_files="list", crc_files="crc")


@contract("C18", functions=["run"])
def c18_run(v):
    """The command line calls the command that is named, under any of its names, once, on the image that is named, with the dry-run option wherever it is given,
    and with force and the other options set exactly if they are given; commands that only show something call none that writes."""
    M = v.mod("init")
    calls = []
    image = Thing(get_vtoc_object=lambda: "vtoc")
    command = v.choice("command", sorted(COMMANDS))
    word = v.choice("name", COMMANDS[command])
    given = {k: v.choice(k, [None] + names) for k, names in sorted(FLAGS.get(command, {}).items())}
    dry = v.choice("dry run", ["", "first", "second", "verbose"])
    argv = ["IMAGE.ATR", word]
    argv += [g for g in given.values() if g]
    files = []
    if command == "create":
        argv += ["dos2.1"]
    elif command in ("extract", "add", "delete", "list", "crc"):
        files = v.choice("files", [["ONE"], ["ONE", "TWO"]])
        argv += files
    elif command == "assemble":
        argv += ["-o", "OUT"]
    where = v.choice("directory", [None, "SUB"]) if command == "extract" else None
    if where:
        argv += ["-d", where]
    if dry == "first":
        argv.insert(0, "--dry-run")
    elif dry == "second":
        argv.insert(1, "--dry-run")
    elif dry == "verbose":
        argv[:0] = ["-v", "--dry-run"]

    def record(fn):
        def stub(*a, **kw):
            calls.append((fn, a, kw, dict(M.options.__dict__)))
        return stub
    for fn in CALLS:
        v.patch(M, fn, record(fn))
    v.patch(M, "print", lambda *a, **kw: None)
    v.patch(M, "find_diskimage", lambda name, verbose=False: (Thing(image=image, segments=[], source=name), "") if name == "IMAGE.ATR" else None)
    v.patch(M, "sys", Thing(argv=["atrcopy"] + argv, exit=None))
    v.setglobal(M, "options", None)
    o = v.call(M.run)
    v.ensure("no error", o.ok)
    want = [f for f, c in CALLS.items() if c == command]
    if command == "vtoc" and not given["clear_empty"]:
        want = []
    v.ensure("exactly the named command", [c[0] for c in calls] == want)
    if [c[0] for c in calls] != want or not want:
        return
    fn, a, kw, opt = calls[0]
    v.ensure("a dry run exactly if asked for", opt["dry_run"] is (dry != ""))
    for k in given:
        v.ensure("option %s exactly if given" % k, opt[k] is (given[k] is not None))
    if command == "extract":
        v.ensure("directory", (opt["dir"] or None) == where)
    if command in ("create", "boot"):
        v.ensure("the named image file", "IMAGE.ATR" in a)
    else:
        v.ensure("the named image", a[0] is image)
    if files:
        v.ensure("the named files", list(a[1]) == files)
