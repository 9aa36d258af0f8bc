"""C13-C15: segment views, styles and comments, saved state."""
import json
from common import *
from atrcopy.segments import ObjSegment, SegmentedFileSegment, RawSectorsSegment, interleave_segments, UserExtraData, EmptySegment


def base(rng, n=None):
    n = rng.choice([1, 2, 5, 16, 100, 300, 1000]) if n is None else n
    r = SegmentData(arr(rbytes(rng, n, "rand")))
    r.style[:] = arr(rbytes(rng, n, rng.choice(["zero", "rand"])))
    return r


def subview(rng, r, L, distinct, allow_empty=False):
    """one slice or index step on (raw, model index list)"""
    n = len(L)
    if rng.random() < .5 or n == 0:
        a = rng.randrange(n + 1)
        b = rng.randint(a, n)
        if a == b and not allow_empty:
            a, b = 0, n
        form = rng.randrange(4)
        if form == 0 and a < n:
            sl = slice(a - n, b if b < n else None)
        elif form == 1 and b == n:
            sl = slice(a, n + 5)
        elif form == 2 and b < n and b > 0:
            sl = slice(a, b - n)
        else:
            sl = slice(a, b)
        return r[sl], L[sl]
    k = rng.randint(0 if allow_empty else 1, n)
    if distinct:
        idx = rng.sample(range(n), k)
    else:
        idx = [rng.randrange(n) for _ in range(k)]
    if rng.random() < .3:
        idx.sort()
    return r.get_indexed(idx if rng.random() < .7 else np.asarray(idx, dtype=np.uint32)), [L[i] for i in idx]


def view(rng, r, distinct=True, depth=None, allow_empty=False):
    L = list(range(len(r)))
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth is None else depth):
        r, L = subview(rng, r, L, distinct, allow_empty)
        steps.append("%s%d" % ("i" if r.is_indexed else "s", len(L)))
    return r, L, "/".join(steps)


def mk(rng, r, origin=0):
    return DefaultSegment(r, origin) if rng.random() < .6 else ObjSegment(r, 0, 0, origin)


def c13(rng):
    b = base(rng)
    data = b.data
    d0 = data.copy()
    n = len(b)
    if rng.random() < .3:
        return interleave(rng, b, d0)
    distinct = rng.random() < .7
    r, L, how = view(rng, b, distinct)
    s = mk(rng, r, rng.randrange(65536))
    what = "%d byte base, view %s" % (n, how)
    check(len(s) == len(L) and len(r) == len(L), "%s: length %d, expected %d", what, len(s), len(L))
    check(s.tobytes() == bytes(d0[i] for i in L), "%s: reads other bytes", what)
    check([int(x) for x in r.get_indexes_from_base()] == L, "%s: base indexes %r expected %r", what, list(r.get_indexes_from_base())[:8], L[:8])
    for i in ([rng.randrange(len(L)) for _ in range(5)] + [0, len(L) - 1]):
        check(int(s[i]) == int(d0[L[i]]), "%s: s[%d] reads another byte", what, i)
        check(s.get_raw_index(i) == L[i] and r.get_raw_index(i) == L[i], "%s: position %d reported at base %d, is %d", what, i, s.get_raw_index(i), L[i])
        check(s.get_raw_index_from_address(s.origin + i) == L[i], "%s: address lookup", what)
        if distinct:
            check(int(r.get_reverse_index(L[i])) == i and s.get_index_from_base_index(L[i]) == i, "%s: reverse lookup of base %d gives %d, not %d", what, L[i], int(r.get_reverse_index(L[i])), i)
    out = sorted(set(range(n)) - set(L))
    for p in ([rng.choice(out) for _ in range(3)] + [out[0], out[-1]] if out else []):
        for f in (r.get_reverse_index, s.get_index_from_base_index):
            try:
                got = f(p)
            except IndexError:
                continue
            raise Fail("%s: base %d is not in the view but found at %r" % (what, p, got))
    if not r.is_indexed:
        check(tuple(s.byte_bounds_offset()) == (L[0], L[-1] + 1), "%s: bounds %r", what, s.byte_bounds_offset())
    # writes
    want = [int(x) for x in d0]
    for _ in range(3):
        v = rng.randrange(256)
        m = rng.randrange(4)
        if m == 3:
            a = rng.randrange(len(L))
            e = rng.randint(a, len(L))
            k = rng.choice([1, 2, 3, 7])
            check([int(x) for x in s[a:e:k]] == [want[i] for i in L[a:e:k]], "%s: reading every %d. element", what, k)
            s[a:e:k] = v
            for i in L[a:e:k]:
                want[i] = v
        elif m == 0:
            i = rng.randrange(-len(L), len(L))
            s[i] = v
            want[L[i]] = v
        elif m == 1:
            a = rng.randrange(len(L))
            e = rng.randint(a, len(L))
            s[a:e] = v
            for i in L[a:e]:
                want[i] = v
        elif distinct:
            a = rng.randrange(len(L))
            e = rng.randint(a, len(L))
            vals = rbytes(rng, e - a, "rand")
            s.data[a:e] = arr(vals)
            for i, x in zip(L[a:e], vals):
                want[i] = x
        got = [int(x) for x in data]
        check(got == want, "%s: write through the view changed bytes %r wrongly", what, [i for i in range(n) if got[i] != want[i]][:8])
        check(s.tobytes() == bytes(want[i] for i in L), "%s: view does not see the write", what)
    derived(rng, what, b, s, L, want, distinct)
    if not r.is_base and rng.random() < .4:
        resized(rng, what, b, s, L, want, distinct)
    return what


def derived(rng, what, b, s, L, want, distinct):
    """other segments made from a view"""
    n, r = len(want), s.rawdata
    data = bytes(want[i] for i in L)
    check(s.search_copy == data, "%s: searched bytes are not those of the view", what)
    v = rng.randrange(256)
    i = rng.randrange(len(L))
    s[i] = v
    want[L[i]] = v
    data = bytes(want[i] for i in L)
    check(s.search_copy == data, "%s: searched bytes are not those of the view after a write", what)
    check(bytes(bytearray(int(x) for x in r.unindexed_data)) == data and [int(x) for x in r.unindexed_style] == [int(b.style[i]) for i in L], "%s: plain data or style of the view", what)
    check(r.bufferedio.read() == data, "%s: buffer of the view", what)
    c = r.copy()
    check(len(c) == len(L) and c.data.tobytes() == data and [c.get_raw_index(i) for i in range(len(L))] == L, "%s: copy", what)
    c.data[i] = (v + 1) % 256
    c.style[i] = (int(c.style[i]) + 1) % 256
    check([int(x) for x in b.data] == want, "%s: writing to a copy of the view changed the original", what)
    k = rng.randrange(1, 6)
    sub = [rng.randrange(len(L)) for _ in range(k)]
    t = s.create_subset(sub, "part")
    check(t.tobytes() == bytes(data[i] for i in sub) and [t.get_raw_index(i) for i in range(k)] == [L[i] for i in sub], "%s: subset %r", what, sub)
    other = base(rng, n)
    p = DefaultSegment(other, 0).get_parallel_raw_data(s)
    check(p.data.tobytes() == bytes(int(other.data[i]) for i in L) and [p.get_raw_index(i) for i in range(len(L))] == L, "%s: parallel data", what)
    check(p.data_base is other.data, "%s: parallel data are not a view", what)
    plain = DefaultSegment(arr(data), 0)
    check(plain.tobytes() == data and len(plain) == len(L), "%s: segment of an array", what)


def resized(rng, what, b, s, L, want, distinct):
    """the container grows and the view is moved to it"""
    c = SegmentedFileSegment(b, 0, 0, 0)
    n = len(want)
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < .5:
            b.reverse_index_mapping, s.rawdata.reverse_index_mapping
        n = n + rng.choice([0, 1, 10, 300])
        c.resize(n)
        s.replace_data(c)
        want = want + [0] * (n - len(want))
        check(c.tobytes() == bytes(want), "%s: container of %d bytes after resizing", what, n)
        check(s.tobytes() == bytes(want[i] for i in L), "%s: view after resizing the container to %d", what, n)
        for p in (0, n - 1, rng.randrange(n)):
            check(c.get_index_from_base_index(p) == p, "%s: container of %d bytes does not find %d", what, n, p)
            try:
                got = s.get_index_from_base_index(p)
            except IndexError:
                check(p not in L, "%s: base %d is in the view but not found after resizing", what, p)
            else:
                check(p in L and (not distinct or got == L.index(p)), "%s: base %d found at %d after resizing", what, p, got)
        i = rng.randrange(len(L))
        want[L[i]] = rng.randrange(256)
        s[i] = want[L[i]]
        s.style[i] = want[L[i]]
        check(c.tobytes() == bytes(want), "%s: write through the view after resizing", what)
        check(int(c.style[L[i]]) == want[L[i]], "%s: mark through the view after resizing", what)


def interleave(rng, b, d0):
    k = rng.choice([1, 2, 2, 3, 4])
    nb = rng.choice([1, 1, 2, 3, 7])
    views = [view(rng, b, False) for _ in range(k)]
    segs = [mk(rng, v[0]) for v in views]
    size = min(len(v[1]) for v in views)
    size -= size % nb
    want = []
    for p in range(0, size, nb):
        for _, L, _ in views:
            want += L[p:p + nb]
    what = "interleave %s by %d" % ([v[2] for v in views], nb)
    s = interleave_segments(segs, nb)
    check([int(x) for x in s.rawdata.get_indexes_from_base()] == want, "%s: order is %r, expected %r", what, [int(x) for x in s.rawdata.get_indexes_from_base()][:12], want[:12])
    check(s.tobytes() == bytes(d0[i] for i in want), "%s: bytes differ", what)
    check((b.data == d0).all(), "%s: data changed", what)
    if want:
        i = rng.randrange(len(want))
        v = (int(d0[want[i]]) + 1) % 256
        s[i] = v
        d1 = d0.copy()
        d1[want[i]] = v
        check((b.data == d1).all(), "%s: write through the interleaved view", what)
    return what


# ------------------------------------------------------------------------ C14

BITS = dict(match=0x20, comment=0x40, selected=0x80, diff=0x10)


def rstyle(rng, data=True):
    kw, bits, clear = {}, 0, 0
    for k, v in BITS.items():
        if rng.random() < .35:
            kw[k] = True
            bits |= v
            clear |= v
    if rng.random() < .3:
        u = rng.randint(1, 7)
        kw["user"] = u
        bits |= u
        clear |= 7
    elif data and rng.random() < .25:
        kw["data"] = True
        bits |= 1
    if not kw:
        kw, bits, clear = {"comment": True}, 0x40, 0x40
    return kw, bits, clear


def rranges(rng, n, swap=False):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = rng.randrange(n + 1)
        b = rng.randint(a, n)
        if swap and rng.random() < .2:
            a, b = b, a
        out.append((a, b) if rng.random() < .7 else [a, b])
    return out


def c14(rng):
    b = base(rng, rng.choice([1, 5, 40, 200]))
    r, L, how = view(rng, b)
    s = mk(rng, r)
    n = len(L)
    d0 = b.data.copy()
    st = [int(x) for x in b.style]
    cm = {}
    log = ["%d byte base, view %s" % (len(b), how)]

    def verify():
        what = "; ".join(log)
        got = [int(x) for x in b.style]
        check(got == st, "%s: style wrong at base positions %r", what, [i for i in range(len(st)) if st[i] != got[i]][:8])
        check((b.data == d0).all(), "%s: data changed", what)
        c = {int(k): v for k, v in b.extra.comments.items() if v}
        check(c == cm, "%s: comments %r expected %r", what, sorted(c)[:8], sorted(cm)[:8])

    for _ in range(rng.choice([1, 3, 6])):
        m = rng.randrange(12)
        if m == 7:
            kw, _, clear = rstyle(rng, False)
            log.append("clear all %r" % kw)
            s.clear_style_bits(**kw)
            for i in L:
                st[i] &= 255 ^ clear
        elif m == 8:
            kw, bits, _ = rstyle(rng)
            at = [rng.randrange(n) for _ in range(rng.choice([0, 1, 3, 9]))]
            log.append("set at %r %r" % (at, kw))
            ix = np.asarray(at, dtype=np.uint32)
            check([int(x) for x in s.get_style_at_indexes(ix)] == [st[L[i]] for i in at], "%s: styles at indexes", "; ".join(log))
            s.set_style_at_indexes(ix, **kw)
            for i in at:
                st[L[i]] |= bits
        elif m == 9:
            kw, bits, _ = rstyle(rng)
            w = rng.choice([1, 2, 7, 16])
            rr = []
            for _ in range(rng.choice([1, 2])):
                r1, c1 = divmod(rng.randrange(n), w)
                r2, c2 = r1 + rng.randrange(3), rng.randint(c1 + 1, w)
                if c2 == w:
                    # the end of a line is the start of the next one
                    if not c1:
                        continue
                    rr.append((r1 * w + c1, (r2 + 1) * w, r1, r2, c1, c2))
                else:
                    rr.append((r1 * w + c1, r2 * w + c2, r1, r2, c1, c2))
            log.append("set rectangles %r %r" % (rr, kw))
            s.set_style_ranges_rect([x[:2] for x in rr], w, **kw)
            for _, _, r1, r2, c1, c2 in rr:
                for y in range(r1, r2 + 1):
                    for x in range(c1, c2):
                        if y * w + x < n:
                            st[L[y * w + x]] |= bits
        elif m == 10:
            at = sorted(set(rng.randrange(n) for _ in range(rng.choice([0, 1, 3, 9]))))
            texts = [rng.choice(["", None, "k%d" % i]) for i in at]
            log.append("comments at %r %r" % (at, texts))
            s.set_comments_at_indexes([], at, texts)
            for i, t in zip(at, texts):
                if t:
                    cm[L[i]] = t
                else:
                    cm.pop(L[i], None)
            verify()
            where, got = s.get_comments_at_indexes(np.asarray(at, dtype=np.uint32))
            marked = [k for k, i in enumerate(at) if st[L[i]] & 0x40]
            check([int(x) for x in where] == marked and [x or None for x in got] == [cm.get(L[at[k]]) for k in marked], "%s: comments at indexes", "; ".join(log))
            a, e = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
            inside = {i: cm[L[i]] for i in range(a, e) if L[i] in cm}
            check({int(k): t for k, t in s.get_comments_in_range(a, e).items() if t} == inside, "%s: comments in %d-%d", "; ".join(log), a, e)
            check({int(k): t for k, t in s.iter_comments_in_segment() if t} == {i: cm[L[i]] for i in range(n) if L[i] in cm}, "%s: comments of the segment", "; ".join(log))
            if rng.random() < .5:
                s.remove_comments_at_indexes(at)
                for i in at:
                    cm.pop(L[i], None)
        elif m == 11:
            kw, bits, _ = rstyle(rng)
            log.append("all ranges by %r" % kw)
            got = s.get_entire_style_ranges(**kw)
            pos = 0
            for (a, e), x in got:
                check(a == pos < e <= n, "%s: ranges %r do not cover the segment", "; ".join(log), got[:6])
                pos = e
                for i in range(a, e):
                    w = (st[L[i]] | (0x40 if L[i] in cm or L[i] in b.extra.comments else 0)) & bits
                    check(int(x) == w, "%s: style at %d in range %r is %x", "; ".join(log), i, (a, e, int(x)), w)
            check(pos == n, "%s: ranges end at %d of %d", "; ".join(log), pos, n)
            i = rng.randrange(n)
            starts = [a for a, e in s.get_style_ranges(**kw)]
            want = min([x for x in starts if x > i] or starts[:1] or [None])
            check(s.find_next(i, **kw) == want, "%s: the next one after %d is %r, not %r", "; ".join(log), i, s.find_next(i, **kw), want)
            if rng.random() < .3:
                log.append("fixup")
                s.fixup_comments()
                for p in range(len(st)):
                    st[p] = st[p] & 0xbf | (0x40 if p in b.extra.comments else 0)
        elif m == 0:
            kw, bits, _ = rstyle(rng)
            rr = rranges(rng, n, True)
            log.append("set %r %r" % (kw, rr))
            s.set_style_ranges(rr, **kw)
            for a, e in rr:
                for i in range(min(a, e), max(a, e)):
                    st[L[i]] |= bits
        elif m == 1:
            kw, _, clear = rstyle(rng, False)
            rr = rranges(rng, n, True)
            log.append("clear %r %r" % (kw, rr))
            s.clear_style_ranges(rr, **kw)
            for a, e in rr:
                for i in range(min(a, e), max(a, e)):
                    st[L[i]] &= 255 ^ clear
        elif m == 2:
            kw, bits, _ = rstyle(rng)
            log.append("ranges of %r" % kw)
            got = [tuple(x) for x in s.get_style_ranges(**kw)]
            want, run = [], None
            for i in range(n + 1):
                hit = i < n and st[L[i]] & bits == bits
                if hit and run is None:
                    run = i
                elif not hit and run is not None:
                    want.append((run, i))
                    run = None
            check(got == want, "%s: ranges %r expected %r", "; ".join(log), got[:6], want[:6])
        elif m == 3:
            rr = [x for x in rranges(rng, n) if x[0] < n] or [(0, n)]
            t = "c%d" % rng.randrange(1000)
            log.append("comment %r" % rr)
            s.set_comment(rr, t)
            for a, e in rr:
                for i in range(a, e):
                    st[L[i]] |= 0x40
                cm[L[a]] = t
            i = rr[0][0]
            check(s.get_comment(i) == cm[L[i]], "%s: comment at %d reads %r", "; ".join(log), i, s.get_comment(i))
        elif m == 4:
            rr = rranges(rng, n)
            log.append("clear comment %r" % rr)
            s.clear_comment(rr)
            for a, e in rr:
                for i in range(a, e):
                    st[L[i]] &= 255 ^ 0x40
                    cm.pop(L[i], None)
        elif m == 5:
            i = rng.randrange(n)
            log.append("remove comment %d" % i)
            s.remove_comment(i)
            cm.pop(L[i], None)
        else:
            rr = rranges(rng, n)
            log.append("save %r, change, restore" % rr)
            saved = s.get_comment_restore_data(rr)
            pos = {L[i] for a, e in rr for i in range(a, e)}
            keep = {p: (st[p], cm.get(p)) for p in pos}
            verify()
            for _ in range(rng.choice([1, 2])):
                k = rng.randrange(3)
                r2 = rranges(rng, n)
                if k == 0:
                    s.set_comment([x for x in r2 if x[0] < n] or [(0, 1)], "zz")
                elif k == 1:
                    s.clear_comment(r2)
                else:
                    s.set_style_ranges(r2, match=True, user=5)
            st = [int(x) for x in b.style]
            cm = {int(k): v for k, v in b.extra.comments.items() if v}
            s.restore_comments(saved)
            for p, (v, c) in keep.items():
                st[p] = v
                if c:
                    cm[p] = c
                else:
                    cm.pop(p, None)
        verify()
    return "; ".join(log)


# ------------------------------------------------------------------------ C15

ATTRS = ["origin", "error", "name", "verbose_name", "page_size", "map_width", "uuid", "can_resize", "memory_map"]


def parser_state(rng):
    """a parser saved with its segments and restored onto a copy of the data"""
    from atrcopy import parsers as P
    import fs
    kind = rng.choice(["plain", "xex", "disk", "disk"])
    if kind == "plain":
        raw, cls = arr(rbytes(rng, rng.choice([1, 100, 1000]), "rand")), P.DefaultSegmentParser
    elif kind == "xex":
        parts = [arr([255, 255])]
        for _ in range(rng.randint(1, 4)):
            a, k = rng.randrange(0x2000, 0x9000), rng.choice([1, 2, 50])
            parts += [np.asarray([a, a + k - 1], dtype="<u2").view(np.uint8), arr(rbytes(rng, k, "rand"))]
        raw, cls = np.concatenate(parts), P.XexSegmentParser
    else:
        f = fs.make(rng)
        for _ in range(rng.choice([0, 1, 3])):
            fs.step(rng, f)
        raw, cls = arr(f.bytes()), P.AtariDosSegmentParser if isinstance(f, fs.AtariFS) else P.Dos33SegmentParser
    p = cls(SegmentData(raw, np.zeros(len(raw), dtype=np.uint8)))
    what = "%s over %d bytes" % (cls.__name__, len(raw))
    st = p.__getstate__()
    segs = []
    for s in st["segments"]:
        t = type(s).__new__(type(s))
        t.__setstate__(json.loads(json.dumps(s.__getstate__())))
        segs.append(t)
    q = cls.__new__(cls)
    q.__setstate__(dict(st, segments=segs))
    fresh = SegmentData(raw.copy(), np.zeros(len(raw), dtype=np.uint8))
    q.reconstruct_segments(fresh)
    check(len(q.segments) == len(p.segments) and q.strict == p.strict, "%s: %d segments restored of %d", what, len(q.segments), len(p.segments))
    for s, t in zip(p.segments, q.segments):
        check(s.tobytes() == t.tobytes() and len(s) == len(t), "%s: segment %s restored with other bytes", what, s)
        for a in ATTRS + list(s.extra_serializable_attributes):
            check(getattr(s, a) == getattr(t, a), "%s: segment %s: attribute %s is %r, was %r", what, s, a, getattr(t, a), getattr(s, a))
        check(t.rawdata.data_base is fresh.data, "%s: segment %s is not a view of the data", what, s)
    return what


def c15(rng):
    if rng.random() < .1:
        return parser_state(rng)
    b = base(rng)
    r, L, how = view(rng, b, rng.random() < .7, allow_empty=True)
    m = rng.randrange(3)
    kw = dict(name="n%d" % rng.randrange(100), verbose_name=rng.choice([None, "long"]), error=rng.choice([None, "bad"]))
    if m == 0:
        s = DefaultSegment(r, rng.randrange(65536), memory_map={rng.randrange(65536): "m%d" % k for k in range(rng.choice([0, 1, 2, 20, 100]))} if rng.random() < .5 else None, **kw)
    elif m == 1:
        s = ObjSegment(r, rng.randrange(100), rng.randrange(100), rng.randrange(65536), **kw)
    else:
        s = RawSectorsSegment(r, rng.randrange(10), rng.randrange(10), rng.randrange(1000), 128, 3, rng.choice([128, 256]), **kw)
    s.map_width = rng.randrange(1, 100)
    if m != 2:
        s.page_size = rng.choice([-1, 16])
    s.can_resize = rng.random() < .5
    what = "%s over %d bytes, view %s" % (type(s).__name__, len(b), how)
    state = s.__getstate__()
    if rng.random() < .7 or True:
        state = json.loads(json.dumps(state))
    t = type(s).__new__(type(s))
    t.__setstate__(state)
    fresh = b
    if rng.random() < .5:
        fresh = SegmentData(b.data.copy(), b.style.copy())
    t.reconstruct_raw(fresh)
    check(t.tobytes() == s.tobytes() and len(t) == len(s) == len(L), "%s: restored segment has %d bytes, %d expected, or other contents", what, len(t), len(L))
    if L:
        check([int(x) for x in t.rawdata.get_indexes_from_base()] == L, "%s: restored segment covers other base positions", what)
        i = rng.randrange(len(L))
        t[i] = (int(t[i]) + 1) % 256
        check(int(fresh.data[L[i]]) == int(t[i]), "%s: restored segment is not a view of the base", what)
    extra = list(type(s).extra_serializable_attributes)
    for a in ATTRS + extra:
        check(getattr(t, a) == getattr(s, a), "%s: attribute %s is %r, was %r", what, a, getattr(t, a), getattr(s, a))
    # session
    b2 = base(rng, rng.choice([1, 8, 100]))
    depth = rng.choice([0, 0, 1, 2])
    r2, L2, how2 = view(rng, b2, True, depth)
    s2 = DefaultSegment(r2, 0)
    n2 = len(L2)
    for _ in range(rng.choice([0, 2, 5])):
        p = rng.randrange(n2)
        s2.set_comment([(p, min(n2, p + rng.randint(1, 3)))], "t%d" % p)
    md = {}
    s2.serialize_session(md)
    md = json.loads(json.dumps(md))
    b3 = SegmentData(b2.data.copy(), np.zeros(len(b2), dtype=np.uint8))
    s3 = DefaultSegment(b3.get_indexed(L2) if depth else b3, 0)
    s3.restore_session(md)
    for i in range(n2):
        check(s3.get_comment(i) == s2.get_comment(i), "session of a view %s: comment at %d is %r, was %r", how2, i, s3.get_comment(i), s2.get_comment(i))
        check(int(s3.style[i]) == int(s2.style[i]) & 0x47, "session of a view %s: style mark at %d is %x, was %x", how2, i, int(s3.style[i]), int(s2.style[i]))
    check((b2.data == b3.data).all(), "session: data changed")
    return what
