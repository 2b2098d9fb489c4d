"""C28: the width of the integers that describe an array never matters."""
import numpy
from .common import *
from awkward0 import persist

ID = "C28"
RULE = ("a case describes one array by integers of a narrow (or unsigned, or foreign-endian) type and again by 64-bit integers, or indexes an array of up to 300 elements by a narrow integer array, and compares up to 8 operations on both; "
        "non-trivial: an integer of the description, or one derived from it (a sum or product of counts), comes close to or beyond what the narrow type can hold")

WIDTHS = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "uint64", ">i2", ">i4", ">u8")
NARROW = ("int8", "uint8")
BIG = {"int8": 127, "uint8": 255}


def width(t):
    return t.pick(NARROW) if t.flag() else t.pick(WIDTHS)


def limit(dt):
    return BIG.get(dt, 400)


def counts_of(t, n, top):
    """n counts whose sum is at most top, now and then with a long list"""
    out, left = [], top
    for i in range(n):
        c = t.wpick([(3, t.below(4)), (2, t.below(14)), (2, t.below(70))])
        c = min(c, left)
        left -= c
        out.append(c)
    return out


def outcome(f):
    got = attempt(f)
    if isinstance(got, Refused):
        return got
    try:
        return attempt(lambda: tolist(got))
    except Exception as err:                # pragma: no cover
        return Refused(err)


def agree(t, what, f, narrow, wide):
    """f gives the same for both arrays, or is refused for both"""
    one, two = outcome(lambda: f(narrow)), outcome(lambda: f(wide))
    t.evals += 1
    if isinstance(one, Refused) or isinstance(two, Refused):
        t.check(isinstance(one, Refused) and isinstance(two, Refused), lambda: "%s: %r with narrow integers, %r with 64-bit integers" % (what, clip(one), clip(two)))
    else:
        t.check(same(one, two), lambda: "%s: %r with narrow integers, %r with 64-bit integers" % (what, clip(one), clip(two)))


def someindex(t, n):
    k = t.below(4)
    if k == 0:
        return t.below(n) - (n if t.flag() else 0) if n else 0
    if k == 1:
        return slice(t.pick([None, t.below(n + 2), -t.below(n + 2)]), t.pick([None, t.below(n + 2), -t.below(n + 2)]), t.pick([None, 1, 2, -1, -2]))
    if k == 2:
        return numpy.array([t.flag() for _ in range(n)], dtype=bool)
    return numpy.array([t.below(n) - (n if t.flag() else 0) for _ in range(t.below(5))] if n else [], dtype=int)


def roundtrip(a):
    s = {}
    persist.serialize(a, s)
    return persist.deserialize(s)


# ------------------------------------------------------------------ jagged structure

def jagged_ops(t, counts, kind):
    n = len(counts)
    big = max(counts) if counts else 0
    w, w2 = someindex(t, n), someindex(t, 4)
    k = t.below(4)
    flat = numpy.arange(n) * 100
    cat = AwkwardArray.concatenate
    mask = JaggedArray.fromcounts(counts, numpy.array([t.flag() for _ in range(sum(counts))], dtype=bool))
    ops = [
        ("tolist", lambda a: a.tolist()), ("counts", lambda a: a.counts), ("offsets", lambda a: a.offsets), ("parents", lambda a: a.parents.tolist() if kind != "free" else None),
        ("localindex", lambda a: a.localindex), ("index", lambda a: a.index), ("flatten", lambda a: a.flatten()), ("compact", lambda a: a.compact()),
        ("pad", lambda a: a.pad(k)), ("pad clip", lambda a: a.pad(k, clip=True)), ("regular", lambda a: a.regular()),
        ("a[%r]" % (w,), lambda a: a[w]), ("a[:, %r]" % (w2,), lambda a: a[:, w2]), ("a[mask]", lambda a: a[mask]), ("a[w].counts", lambda a: a[w].counts),
        ("a[w].offsets", lambda a: a[w].compact().offsets), ("a[:, w2].counts", lambda a: a[:, w2].counts), ("a[:, 0:40]", lambda a: a[:, 0:40]), ("a[:, ::-1]", lambda a: a[:, ::-1]),
        ("cross", lambda a: a.cross(a)), ("argcross", lambda a: a.argcross(a)), ("cross nested", lambda a: a.cross(a, nested=True)), ("argcross nested", lambda a: a.argcross(a, nested=True)),
        ("zip", lambda a: JaggedArray.zip(a, a)), ("zip flat", lambda a: JaggedArray.zip(x=a, y=flat)),
        ("a + a", lambda a: a + a), ("a + flat", lambda a: a + flat), ("flat + a", lambda a: flat + a), ("a + compact", lambda a: a + a.compact()),
        ("tojagged", lambda a: a.tojagged(flat)), ("tojagged jagged", lambda a: a.tojagged(a.copy())), ("concatenate", lambda a: cat([a, a, a])), ("concatenate 5", lambda a: cat([a] * 5)),
        ("concatenate axis 1", lambda a: cat([a, a], axis=1)), ("concatenate flatten", lambda a: cat([a, a, a]).flatten()),
        ("sum", lambda a: a.sum()), ("min", lambda a: a.min()), ("count", lambda a: a.count()), ("mean", lambda a: a.mean()), ("argmax", lambda a: a.argmax()), ("argsort", lambda a: a.argsort()),
        ("a[argmin]", lambda a: a[a.argmin()]), ("a[argsort]", lambda a: a[a.argsort(True)]),
        ("fromoffsets", lambda a: JaggedArray.fromoffsets(a.offsets, a.content)), ("fromcounts", lambda a: JaggedArray.fromcounts(a.counts, a.flatten())),
        ("fromjagged", lambda a: JaggedArray.fromjagged(a)), ("structure1d", lambda a: a.structure1d()), ("persist", roundtrip), ("arrow", lambda a: awkward0.fromarrow(awkward0.toarrow(a))),
        ("pandas", lambda a: [repr(x) for x in awkward0.topandas(a, flatten=True).index.tolist()]), ("deepcopy", lambda a: a.deepcopy()), ("counts of chunks", lambda a: ChunkedArray([a, a]).counts),
        ("chunks", lambda a: ChunkedArray([a, a, a])[n:]), ("valid", lambda a: a.valid()), ("type", lambda a: str(a.type)), ("iscompact", lambda a: a.iscompact), ("counts*counts", lambda a: a.counts * a.counts),
        ("setcounts", lambda a: setcounts(a)), ("fillna", lambda a: a.fillna(0)), ("astype", lambda a: a.astype(float)), ("masked", lambda a: a[a.counts > 2]), ("deep", lambda a: JaggedArray.fromcounts([n, 0], a).flatten(axis=1)),
        ("indexed", lambda a: IndexedArray(numpy.arange(n)[::-1], a).flatten()), ("numpy", lambda a: numpy.array(a, dtype=object)),
    ]
    comb = [("pairs", lambda a: a.pairs()), ("argpairs", lambda a: a.argpairs()), ("distincts", lambda a: a.distincts()), ("argdistincts", lambda a: a.argdistincts()),
            ("pairs nested", lambda a: a.pairs(nested=True)), ("distincts nested", lambda a: a.distincts(nested=True)), ("argdistincts nested", lambda a: a.argdistincts(nested=True)),
            ("choose 2", lambda a: a.choose(2)), ("argchoose 2", lambda a: a.argchoose(2))]
    if big <= 32:
        comb += [("choose 3", lambda a: a.choose(3)), ("argchoose 3", lambda a: a.argchoose(3))]
    if big <= 16:
        comb += [("choose 4", lambda a: a.choose(4)), ("choose 5", lambda a: a.choose(5))]
    return [t.pick(comb) if t.chance(0.3) else t.pick(ops) for _ in range(t.between(2, 8))]


def setcounts(a):
    b = a.copy(content=numpy.arange(1000))
    b.counts = a.counts
    c = b.pairs() if len(b) and max(b.counts) < 40 else b.flatten()
    return b.tolist(), c.tolist()


def structure(t):
    """jagged arrays described by narrow starts and stops, offsets, counts or parents"""
    dt = width(t)
    top = limit(dt)
    n = t.below(7)
    counts = counts_of(t, n, top)
    total = sum(counts)
    how = t.pick(["offsets", "counts", "startsstops", "free", "parents", "constructor", "set offsets"])
    if how == "parents" and n > 127:
        how = "counts"
    content = numpy.arange(total + t.below(3)) * 1.5
    offsets = [0] + [int(x) for x in numpy.cumsum(counts)]
    starts, stops = offsets[:-1], offsets[1:]
    if how == "free":
        base = total + t.below(60)
        content = numpy.arange(base + 1) * 1.5
        starts = [t.below(min(base, top) - c + 1) if min(base, top) >= c else 0 for c in counts]
        stops = [a + c for a, c in zip(starts, counts)]

    def make(d):
        if how == "offsets":
            return JaggedArray.fromoffsets(numpy.array(offsets, dtype=d), content)
        if how == "counts":
            return JaggedArray.fromcounts(numpy.array(counts, dtype=d), content)
        if how == "parents":
            return JaggedArray.fromparents(numpy.repeat(numpy.arange(n), counts).astype(d), content[:total], length=n)
        if how == "set offsets":
            out = JaggedArray([0], [0], content)
            out.offsets = numpy.array(offsets, dtype=d)
            return out
        if how == "constructor":
            return JaggedArray(numpy.array(offsets, dtype=d)[:-1], numpy.array(offsets, dtype=d)[1:], content)
        return JaggedArray(numpy.array(starts, dtype=d), numpy.array(stops, dtype="int64" if mixed else d), content)
    mixed = t.chance(0.2)
    t.note("how", how, "dtype", dt, "counts", counts, "starts", starts)
    narrow, wide = make(dt), make("int64")
    expect(t, narrow, [content[a:b].tolist() for a, b in zip(starts, stops)], "values")
    for what, f in jagged_ops(t, counts, how):
        t.note("op", what)
        agree(t, what, f, narrow, wide)
    big = max(counts) if counts else 0
    t.nontrivial = n > 0 and (total > top // 2 or big * (big + 1) > limit(dt))


def static(t):
    """conversions between starts, stops, offsets, counts, parents and indexes"""
    dt = width(t)
    top = limit(dt)
    n = t.below(9)
    counts = counts_of(t, n, top)
    offsets = [0] + [int(x) for x in numpy.cumsum(counts)]
    parents = [i for i, c in enumerate(counts) for _ in range(c)]
    t.note("dtype", dt, "counts", counts)
    local = [j for c in counts for j in range(c)]
    arr = lambda x, d: numpy.array(x, dtype=d)
    content = numpy.arange(offsets[-1])
    many = counts_of(t, n, 2000)            # the counts fit, but not their sums
    many = [min(c, top) for c in many]
    index = [t.below(top) for _ in range(t.below(20))]
    for what, f in (
            ("counts2offsets", lambda d: JaggedArray.counts2offsets(arr(many, d))), ("fromcounts", lambda d: JaggedArray.fromcounts(arr(many, d), numpy.arange(sum(many)))), ("fromcounts flatten", lambda d: JaggedArray.fromcounts(arr(many, d), numpy.arange(sum(many))).flatten()),
            ("fromcounts pairs", lambda d: JaggedArray.fromcounts(arr([min(c, 30) for c in many], d), numpy.arange(sum(many))).pairs()),
            ("fromcounts distincts", lambda d: JaggedArray.fromcounts(arr([min(c, 30) for c in many], d), numpy.arange(sum(many))).distincts()),
            ("offsets2parents", lambda d: JaggedArray.offsets2parents(arr(offsets, d))), ("startsstops2parents", lambda d: JaggedArray.startsstops2parents(arr(offsets[:-1], d), arr(offsets[1:], d))),
            ("parents2startsstops", lambda d: [x.tolist() for x in JaggedArray.parents2startsstops(arr(parents, d), n)]), ("uniques2offsetsparents", lambda d: [x.tolist() for x in JaggedArray.uniques2offsetsparents(arr(parents, d))]),
            ("fromuniques", lambda d: JaggedArray.fromuniques(arr(parents, d), content)), ("fromlocalindex", lambda d: JaggedArray.fromlocalindex(arr(local, d), content)), ("fromparents", lambda d: JaggedArray.fromparents(arr(parents, d), content, length=n)),
            ("fromfolding", lambda d: JaggedArray.fromfolding(content, arr([3], d)[0])), ("IndexedArray", lambda d: IndexedArray(arr(index, d), numpy.arange(top) * 2)), ("invert", lambda d: IndexedArray.invert(arr(sorted(set(index)), d))),
            ("chunksizes", lambda d: ChunkedArray([numpy.arange(c) for c in counts], chunksizes=list(arr(counts, d)))), ("chunk offsets", lambda d: ChunkedArray([numpy.arange(c) for c in many], chunksizes=list(arr(many, d))).offsets),
            ("chunk total", lambda d: len(ChunkedArray([numpy.arange(c) for c in many], chunksizes=list(arr(many, d)))))):
        if t.chance(0.4):
            t.note("op", what)
            agree(t, what, f, dt, "int64")
    t.nontrivial = offsets[-1] > top // 2 or sum(many) > top


# ------------------------------------------------------------------ wrappers

def wrappers(t):
    """indexed, masked, sparse, union and string arrays described by narrow integers"""
    dt = width(t)
    top = limit(dt)
    n = t.below(12)
    kind = t.pick(["indexed", "indexedmasked", "sparse", "union", "fromtags", "string", "view", "nested", "tags", "jagged index"])
    if kind == "indexedmasked" and "u" in dt:
        dt = "int8"
        top = 127
    size = t.pick([top, top, top // 2, 5])
    near = lambda m: [t.pick([t.below(m), m - 1, m // 2]) if m else 0 for _ in range(n)] if m else []
    numbers = numpy.arange(size) * 3
    lists = JaggedArray.fromcounts([i % 3 for i in range(size)], numpy.arange(sum(i % 3 for i in range(size))))
    table = Table(x=numbers, y=lists)
    inner = t.pick([numbers, lists, table])
    arr = lambda x, d: numpy.array(x, dtype=d)
    ids = near(size)
    if kind == "indexed":
        make = lambda d: IndexedArray(arr(ids, d), inner)
    elif kind == "indexedmasked":
        gone = [t.flag() for _ in ids]
        make = lambda d: IndexedMaskedArray(arr([-1 if g else i for i, g in zip(ids, gone)], d), inner)
    elif kind == "sparse":
        inner = t.pick([numbers, numbers * 1.5])
        pos = sorted(set(ids))
        length = t.pick([size, size + 100, pos[-1] + 1 if pos else 3, 600])
        make = lambda d: SparseArray(length, arr(pos, d), inner)
    elif kind in ("union", "tags"):
        tags = [t.below(2) for _ in ids]
        make = lambda d: UnionArray(arr(tags, d) if kind == "tags" else tags, arr(ids, d), [inner, numbers * 0.5])
    elif kind == "fromtags":
        tags = [t.below(2) for _ in range(n)]
        make = lambda d: UnionArray.fromtags(arr(tags, d), [inner, numbers * 0.5])
    elif kind == "string":
        text = numpy.frombuffer(bytes(97 + i % 26 for i in range(size)), dtype=numpy.uint8)
        stops = [t.between(i, size) for i in ids]
        make = lambda d: StringArray(arr(ids, d), arr(stops, d), text)
    elif kind == "view":
        make = lambda d: table[arr(ids, d)]
    elif kind == "nested":
        first = [t.below(size) for _ in range(size)]
        make = lambda d: IndexedArray(arr(ids, d), IndexedArray(arr(first, d), inner))
    else:
        counts = counts_of(t, t.below(4), 60)
        values = [t.pick([t.below(c), -1 - t.below(c)]) if c else None for c in counts]
        make = lambda d: JaggedArray.fromcounts(counts, numpy.arange(sum(counts)))[JaggedArray.fromcounts([1 if c else 0 for c in counts], arr([x for x in values if x is not None], d if "u" not in d else "int8"))]
    t.note("kind", kind, "dtype", dt, "size", size, "ids", ids, "inner", type(inner).__name__)
    narrow, wide = make(dt), make("int64")
    m = len(wide)
    w = someindex(t, m)
    w2 = someindex(t, 3)
    k = t.below(3)
    num = numpy.arange(m)
    for _ in range(t.between(2, 8)):
        what, f = t.pick([
            ("tolist", lambda a: a), ("a[%r]" % (w,), lambda a: a[w]), ("a[w, w2]", lambda a: a[w, w2]), ("concatenate", lambda a: AwkwardArray.concatenate([a, a, a])), ("a.concatenate", lambda a: a.concatenate([a])),
            ("a + 1", lambda a: a + 1), ("a + n", lambda a: a + num), ("a + a", lambda a: a + a), ("sum", lambda a: a.sum()), ("max", lambda a: a.max()), ("counts", lambda a: a.counts), ("flatten", lambda a: a.flatten()), ("pad", lambda a: a.pad(k)),
            ("boolmask", lambda a: a.boolmask()), ("fillna", lambda a: a.fillna(-5)), ("column", lambda a: a["x"]), ("columns", lambda a: a[["x", "y"]]), ("y flatten", lambda a: a["y"].flatten()), ("persist", roundtrip),
            ("arrow", lambda a: awkward0.fromarrow(awkward0.toarrow(a))), ("numpy", lambda a: numpy.array(a)), ("astype", lambda a: a.astype(float)), ("deepcopy", lambda a: a.deepcopy()), ("iter", lambda a: list(a)), ("type", lambda a: str(a.type)),
            ("valid", lambda a: a.valid()), ("repr", lambda a: str(a)), ("argmax", lambda a: a.argmax()), ("pairs", lambda a: a.pairs()), ("tojagged", lambda a: JaggedArray.fromcounts([m], a)), ("set", lambda a: setcolumn(a, num)), ("zeros", lambda a: a.zeros_like()),
            ("chunks", lambda a: ChunkedArray([a, a])[1:]), ("a == a[0]", lambda a: a == a[0]), ("regular", lambda a: a.regular()), ("pandas", lambda a: [repr(x) for x in awkward0.topandas(a, flatten=True).index.tolist()]), ("reindex", lambda a: a[::-1][::2]),
            ("ismasked", lambda a: a.ismasked), ("dense", lambda a: a.dense), ("simplify", lambda a: a.simplify()), ("index", lambda a: a.index), ("default", lambda a: a.isunmasked)])
        t.note("op", what)
        if what == "arrow" and dt[0] == ">":
            continue                    # Arrow refuses foreign byte orders
        agree(t, what, f, narrow, wide)
    t.nontrivial = m >= 2 and size > top // 2


def setcolumn(a, num):
    b = a.deepcopy()
    if "x" not in b.columns:
        raise TypeError("no columns")
    b["z"] = num
    return b.tolist()


# ------------------------------------------------------------------ narrow indexes

def many(t):
    """selecting from arrays of up to 300 elements by narrow integer arrays"""
    n = t.pick([t.below(10), t.below(300), 128, 200, 256, 300])
    kind = t.pick(["numpy", "jagged", "table", "tableview", "chunked", "chunkedlazy", "masked", "bitmasked", "indexedmasked", "indexed", "sparse", "union", "objects", "strings", "virtual", "appendable", "tablereverse"])
    base = numpy.arange(n) * 7
    values = base.tolist()
    cuts = sorted(t.below(n + 1) for _ in range(t.below(4)))
    pieces = [base[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    gone = numpy.array([t.chance(0.3) for _ in range(n)], dtype=bool)
    missing = [None if g else x for x, g in zip(values, gone)]
    if kind == "numpy":
        a = JaggedArray.fromcounts([n], base)[0]
    elif kind == "jagged":
        c = [i % 3 for i in range(n)]
        a = JaggedArray.fromcounts(c, numpy.arange(sum(c)))
        values = a.tolist()
    elif kind == "table":
        a = Table(x=base)
        values = [{"x": x} for x in values]
    elif kind == "tableview":
        a = Table(x=numpy.arange(n + 5) * 7)[:n]
        values = [{"x": x} for x in values]
    elif kind == "tablereverse":
        a = Table(x=base)[::-1]
        values = [{"x": x} for x in values[::-1]]
    elif kind == "chunked":
        a = ChunkedArray(pieces, chunksizes=[len(x) for x in pieces])
    elif kind == "chunkedlazy":
        a = ChunkedArray(pieces)
    elif kind == "masked":
        a, values = MaskedArray(gone, base), missing
    elif kind == "bitmasked":
        lsb = t.flag()
        a, values = BitMaskedArray(BitMaskedArray.bool2bit(gone, lsborder=lsb), base, lsborder=lsb), missing
    elif kind == "indexedmasked":
        a, values = IndexedMaskedArray(numpy.where(gone, -1, numpy.arange(n)), base), missing
    elif kind == "indexed":
        a, values = IndexedArray(numpy.arange(n)[::-1], base), values[::-1]
    elif kind == "sparse":
        a = SparseArray(n, numpy.arange(n)[~gone], base[~gone])
        values = [0 if x is None else x for x in missing]
    elif kind == "union":
        tags = gone.astype(int)
        a = UnionArray(tags, numpy.arange(n), [base, base * 0.5])
        values = [x * 0.5 if g else x for x, g in zip(values, gone)]
    elif kind == "objects":
        a = ObjectArray(base, makeobj, (), {})
        values = [Obj(x, (), ()) for x in values]
    elif kind == "strings":
        a = StringArray.fromiter([str(x) for x in values])
        values = [str(x) for x in values]
    elif kind == "virtual":
        a = VirtualArray(lambda: base)
    else:
        a = AppendableArray((100,), numpy.dtype(int))
        a.extend(base)
    t.note("kind", kind, "n", n)
    for _ in range(t.between(1, 4)):
        dt = width(t)
        info = numpy.iinfo(dt)
        lo, hi = max(-n, int(info.min)), min(n - 1, int(info.max))
        ids = [t.pick([t.between(lo, hi), lo, hi, t.between(max(lo, -3), min(hi, 3))]) for _ in range(t.below(6))] if n else []
        w = numpy.array(ids, dtype=dt)
        t.note("index", dt, ids)
        how = t.pick(["array", "array", "scalar", "tuple", "filled", "chunkid", "slice", "beyond"])
        if how == "array":
            expect(t, a[w], [values[i] for i in ids], "a[%r]" % w)
        elif how == "scalar" and ids:
            expect(t, a[w[0]], values[ids[0]], "a[%r]" % w[0])
        elif how == "tuple":
            expect(t, a[(w,)], [values[i] for i in ids], "a[%r,]" % w)
        elif how == "filled":
            expect(t, a[IndexedArray(numpy.arange(len(w)), w)], [values[i] for i in ids], "a[indexed %r]" % w)
        elif how == "slice" and len(ids) >= 2:
            expect(t, a[w[0]:w[1]], values[ids[0]:ids[1]], "a[%r:%r]" % (w[0], w[1]))
        elif how == "chunkid" and kind in ("chunked", "chunkedlazy", "appendable"):
            cid = a.global2chunkid(w)
            sizes = [int(x) for x in a.chunksizes]
            cuts2 = numpy.cumsum([0] + sizes)
            pos = [i % n for i in ids]
            want = [max(j for j in range(len(sizes)) if cuts2[j] <= p < cuts2[j + 1]) for p in pos]
            expect(t, cid, want, "global2chunkid(%r)" % w)
            loc = [p - int(cuts2[c]) for p, c in zip(pos, want)]
            if len(loc) and max(loc) <= info.max:
                expect(t, a.local2global(numpy.array(loc, dtype=dt), numpy.array(want, dtype=dt)), pos, "local2global")
                neg = [x - sizes[c] for x, c in zip(loc, want)]
                if min(neg) >= info.min:
                    expect(t, a.local2global(numpy.array(neg, dtype=dt), numpy.array(want, dtype=dt)), pos, "local2global negative")
        elif how == "beyond" and n <= info.max:
            bad = numpy.array(ids + [t.between(n, int(min(info.max, n + 500)))], dtype=dt)
            got = attempt(lambda: tolist(a[bad]))
            t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "a[%r] of %d elements gave %r" % (bad, n, clip(got)))
        if ids and n > 100:
            t.nontrivial = True


def inner(t):
    """selecting inside long lists by narrow integers, alone and in jagged indexes"""
    n = t.between(1, 4)
    counts = [t.pick([t.below(4), t.below(300), 128, 200]) for _ in range(n)]
    a = JaggedArray.fromcounts(counts, numpy.arange(sum(counts)))
    if t.flag():
        a = a[::-1]
        counts = counts[::-1]
    lists = a.tolist()
    t.note("counts", counts)
    for _ in range(t.between(1, 4)):
        dt = width(t)
        info = numpy.iinfo(dt)
        m = min(counts)
        how = t.pick(["jagged", "all", "pair", "int"])
        if how == "jagged":
            ids = [[t.between(max(-c, int(info.min)), min(c - 1, int(info.max))) for _ in range(t.below(4))] if c else [] for c in counts]
            w = JaggedArray.fromcounts([len(x) for x in ids], numpy.array([y for x in ids for y in x], dtype=dt))
            t.note("index", dt, ids)
            expect(t, a[w], [[l[i] for i in x] for l, x in zip(lists, ids)], "a[jagged index]")
        elif m and how == "all":
            ids = [t.between(max(-m, int(info.min)), min(m - 1, int(info.max))) for _ in range(t.below(4))]
            t.note("index", dt, ids)
            expect(t, a[:, numpy.array(ids, dtype=dt)], [[l[i] for i in ids] for l in lists], "a[:, %s]" % ids)
        elif m and how == "pair":
            rows = [t.between(max(-n, int(info.min)), n - 1) for _ in range(t.below(4))]
            ids = [t.between(max(-m, int(info.min)), min(m - 1, int(info.max))) for _ in rows]
            t.note("index", dt, rows, ids)
            expect(t, a[numpy.array(rows, dtype=dt), numpy.array(ids, dtype=dt)], [lists[r][i] for r, i in zip(rows, ids)], "a[%s, %s]" % (rows, ids))
        elif m:
            i = t.between(max(-m, int(info.min)), min(m - 1, int(info.max)))
            t.note("index", dt, i)
            expect(t, a[:, numpy.dtype(dt).type(i)], [l[i] for l in lists], "a[:, %d]" % i)
    t.nontrivial = max(counts) > 100


SUBS = [Sub("structure", structure, 3500), Sub("static", static, 3000), Sub("wrappers", wrappers, 5000), Sub("many", many, 4000), Sub("inner", inner, 3000)]
