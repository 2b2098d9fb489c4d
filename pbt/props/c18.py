"""C18: Arrow and Parquet."""
import datetime
import os
import numpy
from .common import *
from awkward0 import persist
from awkward0.type import ArrayType, OptionType, UnionType

try:
    import pyarrow as pa
    import pyarrow.parquet
except ImportError:
    pa = None

ID = "C18"
RULE = ("a case builds an Arrow array, batch or table of any supported type out of sliced, offset and null-masked parts, or an awkward array of any layout to be converted to Arrow or Parquet and back; "
        "non-trivial: at least 2 elements with nesting, nulls or slicing")

NUMT = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")


def leaf(t, n, kind):
    nul = t.chance(0.5)
    def some(f):
        return [None if nul and t.chance(0.3) else f() for _ in range(n)]
    if kind == "num":
        dt = t.pick(NUMT)
        v = some(lambda: gen_num(t, dt, 0.2 if dt.startswith("float") and t.flag() else False))
        v = [x if x is None else numpy.dtype(dt).type(x).item() for x in v]
        return pa.array(v, type=getattr(pa, dt)()), v
    if kind == "bool":
        v = some(lambda: t.flag())
        return pa.array(v, type=pa.bool_()), v
    if kind == "str":
        v = some(lambda: t.pick(STRS))
        return pa.array(v, type=t.pick([pa.string(), pa.large_string()])), v
    if kind == "bytes":
        v = some(lambda: t.pick(BYTS))
        return pa.array(v, type=t.pick([pa.binary(), pa.large_binary()])), v
    if kind == "null":
        return pa.array([None] * n, type=pa.null()), [None] * n
    if kind == "half":
        v = some(lambda: float(t.below(20)) / 2)
        return pa.array([None if x is None else numpy.float16(x) for x in v], type=pa.float16()), v
    if kind == "date":
        v = some(lambda: datetime.date(1970, 1, 1) + datetime.timedelta(days=t.below(30000) - 10000))
        return pa.array(v, type=pa.date32()), v
    if kind == "time":
        unit = t.pick(["s", "ms", "us"])
        v = some(lambda: datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t.below(10**8)))
        return pa.array(v, type=pa.timestamp(unit)), v
    unit = t.pick(["s", "ms", "us"])
    v = some(lambda: datetime.timedelta(seconds=t.below(10**6)))
    return pa.array(v, type=pa.duration(unit)), v


def build_arrow(t, depth, n, nounion=False):
    """an Arrow array of n elements and its values"""
    if t.chance(0.35):
        # a slice of a longer one
        lead, tail = t.pick([0, 1, 2, 3, 7, 8, 9]), t.below(3)
        a, v = build_arrow2(t, depth, lead + n + tail, nounion)
        t.feature("sliced")
        return a.slice(lead, n), v[lead:lead + n]
    return build_arrow2(t, depth, n, nounion)


def build_arrow2(t, depth, n, nounion):
    k = t.wpick([(5, "num"), (2, "bool"), (3, "str"), (1, "bytes"), (0.3, "null"), (0.3, "half"), (0.3, "date"), (0.3, "time"), (0.3, "delta")] + ([] if depth <= 0 else [(5, "list"), (4, "struct"), (2, "dict")] + ([] if nounion else [(2, "union")])))
    if k == "list":
        t.feature("nested")
        counts = [t.below(4) for _ in range(n)]
        lead, tail = t.pick([0, 0, 1, 2]), t.below(2)
        c, cv = build_arrow(t, depth - 1, lead + sum(counts) + tail, nounion)
        off = [lead]
        for x in counts:
            off.append(off[-1] + x)
        large = t.chance(0.3)
        nulls = [t.chance(0.3) for _ in range(n)] if t.flag() else None
        o = pa.array(off, type=pa.int64() if large else pa.int32())
        # (a missing list may have hidden contents)
        a = (pa.LargeListArray if large else pa.ListArray).from_arrays(o, c, **({} if nulls is None else {"mask": pa.array(nulls, type=pa.bool_())}))
        return a, [None if nulls and nulls[i] else cv[off[i]:off[i + 1]] for i in range(n)]
    if k == "struct":
        t.feature("nested")
        names = t.shuffle(["x", "y", "z", "0", "a b"])[:t.between(1, 3)]
        parts = [build_arrow(t, depth - 1, n, nounion) for _ in names]
        nulls = [t.chance(0.3) for _ in range(n)] if t.flag() else None
        if nulls is not None:
            a = pa.StructArray.from_arrays([p[0] for p in parts], names, mask=pa.array(nulls, type=pa.bool_()))
        else:
            a = pa.StructArray.from_arrays([p[0] for p in parts], names)
        return a, [None if nulls and nulls[i] else dict((m, p[1][i]) for m, p in zip(names, parts)) for i in range(n)]
    if k == "dict":
        t.feature("nested")
        m = t.below(4)
        d, dv = build_arrow(t, 0, m, nounion)
        nulls = m == 0 or t.flag()
        idx = [None if m == 0 or (nulls and t.chance(0.3)) else t.below(m) for _ in range(n)]
        a = pa.DictionaryArray.from_arrays(pa.array(idx, type=t.pick([pa.int8(), pa.int32(), pa.int64()])), d)
        return a, [None if i is None else dv[i] for i in idx]
    if k == "union":
        t.feature("nested")
        m = t.between(1, 3)
        tags = [t.below(m) for _ in range(n)]
        codes = t.pick([None, None, [5, 2, 9][:m]])
        ty = pa.array([x if codes is None else codes[x] for x in tags], type=pa.int8())
        if t.flag():
            parts = [build_arrow(t, depth - 1, n, nounion) for _ in range(m)]
            a = pa.UnionArray.from_sparse(ty, [p[0] for p in parts], None, codes) if codes else pa.UnionArray.from_sparse(ty, [p[0] for p in parts])
            return a, [parts[g][1][i] for i, g in enumerate(tags)]
        sizes = [tags.count(g) + t.below(2) for g in range(m)]
        parts = [build_arrow(t, depth - 1, max(s, 1), nounion) for s in sizes]
        seen = [0] * m
        idx = []
        for g in tags:
            # (offsets need not be distinct)
            idx.append(seen[g] if t.chance(0.8) else t.below(max(sizes[g], 1)))
            seen[g] += 1
        ix = pa.array(idx, type=pa.int32())
        a = pa.UnionArray.from_dense(ty, ix, [p[0] for p in parts], None, codes) if codes else pa.UnionArray.from_dense(ty, ix, [p[0] for p in parts])
        return a, [parts[g][1][i] for g, i in zip(tags, idx)]
    return leaf(t, n, k)


def need():
    if pa is None:
        raise Discard()


def fromarrow(t):
    """Arrow arrays of any type, sliced, with nulls"""
    need()
    n = t.length(6)
    a, v = build_arrow(t, t.below(4), n)
    t.note("arrow", str(a.type), a.to_pylist() if n < 8 else n)
    t.nontrivial = n >= 2 and bool(t.features or None in v)
    if not same(a.to_pylist(), v):
        # (pyarrow itself misreads the nulls of some slices of sparse unions)
        t.assume("sparse_union" not in str(a.type))
        raise RuntimeError("harness: the Arrow array is %r" % (a.to_pylist(),))
    b = awkward0.fromarrow(a)
    expect(t, b, v, "from Arrow", strict=True)
    t.check(len(b) == n, "length")
    # any element and slice of it
    if n:
        i = t.below(n)
        expect(t, b[i], v[i], "element %d" % i, strict=True)
        lo, hi = t.below(n), t.below(n + 1)
        expect(t, b[lo:hi], v[lo:hi], "slice", strict=True)
    str(b)
    str(awkward0.type.fromarray(b))


def tables(t):
    """batches, tables and chunked arrays"""
    need()
    m = t.below(4)
    if m == 0:
        n = t.length(6)
        names = t.shuffle(["x", "y", "z", ""])[:t.between(1, 3)]
        parts = [build_arrow(t, t.below(3), n) for _ in names]
        rb = pa.RecordBatch.from_arrays([p[0] for p in parts], names)
        want = [dict((k, p[1][i]) for k, p in zip(names, parts)) for i in range(n)]
        if t.chance(0.4):
            lo = t.below(n + 1)
            ln = t.below(n - lo + 1)
            rb, want = rb.slice(lo, ln), want[lo:lo + ln]
        got = awkward0.fromarrow(rb)
        t.check(got.columns == names, lambda: "columns %r, expected %r" % (got.columns, names))
    else:
        # columns of one type cut into chunks in different ways
        n = t.length(7)
        names = t.shuffle(["x", "y", "z"])[:t.between(1, 3)] if m != 1 else ["c"]
        cols, vals = [], []
        for _ in names:
            a, v = build_arrow(t, t.below(3), n)
            cuts = sorted(t.below(n + 1) for _ in range(t.below(4)))
            edges = [0] + cuts + [n]
            chunks = [a.slice(i, j - i) for i, j in zip(edges[:-1], edges[1:])]
            if t.chance(0.2):
                chunks.insert(t.below(len(chunks) + 1), a.slice(0, 0))
            cols.append(pa.chunked_array(chunks if n or t.flag() else [], type=a.type))
            vals.append(v)
        t.feature("nested")
        if m == 1:
            got, want = awkward0.fromarrow(cols[0]), vals[0]
        else:
            tab = pa.Table.from_arrays(cols, names)
            want = [dict((k, v[i]) for k, v in zip(names, vals)) for i in range(n)]
            if t.chance(0.4):
                lo = t.below(n + 1)
                ln = t.below(n - lo + 1)
                tab, want = tab.slice(lo, ln), want[lo:lo + ln]
            got = awkward0.fromarrow(tab)
            t.check(sorted(got.columns) == sorted(names), lambda: "columns %r, expected %r" % (got.columns, names))
    t.note("rows", want)
    t.nontrivial = len(want) >= 2
    expect(t, got, want, "from Arrow", strict=True)


def pushed(x):
    """nothing but None inside"""
    if isinstance(x, (list, tuple)):
        return all(pushed(y) for y in x)
    if isinstance(x, dict):
        return all(pushed(y) for y in x.values())
    return x is None


def agrees(got, want):
    """equal, except that a missing list or record may be one of missing parts"""
    if want is None:
        return pushed(got)
    if isinstance(want, tuple):
        want = dict((str(i), x) for i, x in enumerate(want))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(agrees(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(agrees(x, y) for x, y in zip(got, want))
    return same(got, want)


NOCHUNK = frozenset(ALL) - frozenset(["chunked", "appendable", "emptychunk", "lazychunk"])
LAY = Layout(NOCHUNK, p=0.45)
NUMS2 = ("int64", "float64", "bool", "int32", "uint8", "float32", "int16", "uint64")


def toarrow(t):
    """awkward arrays of any layout to Arrow and back"""
    need()
    T, v, a = sample(t, kinds=("num", "str", "bytes", "list", "rec", "opt", "union"), lay=LAY, maxlen=6, special=t.chance(0.3), nums=NUMS2)
    v = plain(v)
    b = awkward0.toarrow(a)
    t.check(len(b) == len(v), lambda: "length %d in Arrow, expected %d" % (len(b), len(v)))
    got = b.to_pylist()
    t.evals += 1
    t.check(agrees(got, v), lambda: "in Arrow: %r, expected %r" % (got, v))
    # a valid Arrow array
    b.validate(full=True)
    c = awkward0.fromarrow(b)
    got = tolist(c)
    t.check(agrees(got, v), lambda: "back from Arrow: %r, expected %r" % (got, v))
    expect(t, a, v, "the array after conversion", strict=True)
    # without masks over lists and records it is exact
    if not has(T, "opt") and not has(T, "tup"):
        got = b.to_pylist()
        t.check(same(got, v), lambda: "in Arrow: %r, expected %r" % (got, v))
    if t.chance(0.3) and len(v):
        lo = t.below(len(v))
        got = tolist(awkward0.fromarrow(b.slice(lo)))
        t.check(agrees(got, v[lo:]), lambda: "slice of the Arrow array: %r, expected %r" % (got, v[lo:]))


def encodings(t):
    """strings in other encodings are refused or arrive as the same text"""
    need()
    enc = t.pick(["latin-1", "utf-16-le", "utf-8", "utf8", "UTF-8", "U8", "ascii", "cp1252", None])
    n = t.length(6)
    words = ["", "a", "bc", "xyz"] + ([] if enc == "ascii" else ["\xe9", "na\xefve", "\xfcber\xe9"])
    v = [t.pick(words) for _ in range(n)]
    if enc is None:
        v = [x.encode("utf-8") for x in v]
    a = awkward0.StringArray.fromiter(v, encoding=enc)
    if n and t.flag():
        lo = t.below(n)
        a, v = a[lo:], v[lo:]
    how = t.below(4)
    if how == 1:
        off = splits(t, len(v))
        counts = [y - x for x, y in zip(off[:-1], off[1:])]
        a = awkward0.JaggedArray.fromcounts(counts, a)
        v = [v[x:y] for x, y in zip(off[:-1], off[1:])]
    elif how == 2:
        a = awkward0.Table(x=a)
        v = [{"x": x} for x in v]
    elif how == 3:
        m = [t.flag() for _ in v]
        a = awkward0.MaskedArray(numpy.array(m, dtype=bool), a)
        v = [None if b else x for b, x in zip(m, v)]
    b = attempt(awkward0.toarrow, a)
    t.evals += 1
    t.nontrivial = len(v) > 1
    if isinstance(b, Refused):
        t.feature("refused")
        t.check(enc not in (None, "utf-8", "utf8", "UTF-8", "U8"), lambda: "refused: %r" % b.err)
        return
    t.check(same(b.to_pylist(), v), lambda: "%r in Arrow is %r, expected %r" % (enc, b.to_pylist(), v))
    got = tolist(awkward0.fromarrow(b))
    t.check(agrees(got, v), lambda: "back from Arrow: %r, expected %r" % (got, v))


def chunks(t):
    """top-level chunked arrays become record batches; nested ones are refused"""
    need()
    from .c13 import chunked
    m = t.below(3)
    if m == 0:
        T, v, a = sample(t, T=("rec", (("x", ("num", "int64")), ("y", t.pick([("str",), ("list", ("num", "float64")), ("opt", ("num", "float64"))])))), lay=Layout(frozenset(["gap", "view", "scatter", "indexed", "boolmask"]), p=0.3), maxlen=6)
        n = len(v)
        cuts = [0] + sorted(t.below(n + 1) for _ in range(t.below(3))) + [n]
        parts = [a[i:j] for i, j in zip(cuts[:-1], cuts[1:])]
        t.assume(len(parts) > 0 and all(isinstance(p, Table) for p in parts))
        c = ChunkedArray(parts, [len(p) for p in parts])
        tab = awkward0.toarrow(c)
        t.check(isinstance(tab, pa.Table), "not an Arrow Table")
        t.check(agrees(tab.to_pylist(), plain(v)), lambda: "in Arrow: %r, expected %r" % (tab.to_pylist(), v))
        got = tolist(awkward0.fromarrow(tab))
        t.check(agrees(got, plain(v)), lambda: "back from Arrow: %r, expected %r" % (got, v))
        t.nontrivial = n >= 2
    elif m == 1:
        x = [numpy.arange(t.below(4)) for _ in range(t.between(1, 3))]
        want = [i for y in x for i in y.tolist()]
        how = t.below(3)
        if how == 0:
            c = AppendableArray((t.between(1, 4),), numpy.dtype("int64"))
            for i in want:
                c.append(i)
        elif how == 1:
            c = ChunkedArray([VirtualArray(lambda y=y: y) for y in x])
        else:
            c = ChunkedArray(x)
        if t.chance(0.3):
            # cut, possibly through chunks
            k = t.below(len(want) + 1)
            c, want = c[k:], want[k:]
            t.assume(isinstance(c, ChunkedArray))
        t.note("array", c)
        # (without any chunk there is no type, which is refused)
        t.assume(len(c.chunks) > 0)
        if t.chance(0.2):
            d = c
            c = VirtualArray(lambda: d)
        if t.flag():
            path = os.path.join(t.tmpdir(), "c.parquet")
            awkward0.toparquet(path, c)
            got = tolist(awkward0.fromparquet(path))
            t.check(got == want, lambda: "through Parquet: %r, expected %r" % (got, want))
        tab = awkward0.toarrow(c)
        t.check(tab.column(0).to_pylist() == want, lambda: "in Arrow: %r, expected %r" % (tab.column(0).to_pylist(), want))
        t.nontrivial = len(want) >= 2
    else:
        inner = ChunkedArray([numpy.arange(2), numpy.arange(3)])
        outer = t.pick([lambda: Table(x=inner), lambda: JaggedArray.fromcounts([2, 3], inner), lambda: MaskedArray([False] * 5, inner)])()
        r = attempt(lambda: awkward0.toarrow(outer))
        t.check(isinstance(r, Refused), lambda: "a nested chunked array became %r" % (r,))


PLAY = Layout(NOCHUNK - frozenset(["indexed", "sparse"]), p=0.4)


def parquet(t):
    """Parquet files, row groups, columns and caches"""
    need()
    path = os.path.join(t.tmpdir(), "f.parquet")
    kinds = ("num", "str", "bytes", "list", "opt")
    m = t.below(5)
    nums = ("int64", "float64", "bool", "int32", "uint8", "float32", "int16")
    opts = {}
    if t.chance(0.3):
        opts["compression"] = t.pick(["snappy", "gzip", "none"])
    if m == 0:
        T, v, a = sample(t, kinds=kinds, lay=PLAY, maxlen=6, nums=nums)
        want = plain(v)
        awkward0.toparquet(path, a, **opts)
    elif m in (1, 2):
        names = t.shuffle(["x", "y", "z", "a b"])[:t.between(1, 3)]
        T = ("rec", tuple((k, gen_type(t, t.below(3), kinds, nums)) for k in names))
        T, v, a = sample(t, T=T, lay=PLAY, maxlen=6)
        want = plain(v)
        if m == 1:
            t.assume(isinstance(a, AwkwardArray))
            awkward0.toparquet(path, a, **opts)
        else:
            n = len(v)
            cuts = [0] + sorted(t.below(n + 1) for _ in range(t.below(3))) + [n]
            parts = [a[i:j] for i, j in zip(cuts[:-1], cuts[1:])]
            t.assume(all(isinstance(p, Table) for p in parts))
            how = t.below(3)
            awkward0.toparquet(path, parts if how == 0 else (p for p in parts) if how == 1 else ChunkedArray(parts, [len(p) for p in parts]), **opts)
    elif m == 3:
        # a file somebody else wrote, with row groups
        n = t.length(7)
        names = t.shuffle(["x", "y", "z"])[:t.between(1, 2)]
        def col():
            T = gen_type(t, t.below(3), kinds + ("rec",), nums)
            return plain(gen_values(t, T, n))
        vals = [col() for _ in names]
        try:
            tab = pa.table(dict((k, pa.array(norm2(v))) for k, v in zip(names, vals)))
        except (pa.lib.ArrowInvalid, pa.lib.ArrowNotImplementedError, pa.lib.ArrowTypeError):
            raise Discard()
        vals = [tab.column(k).to_pylist() for k in names]
        want = [dict((k, v[i]) for k, v in zip(names, vals)) for i in range(n)]
        try:
            pyarrow.parquet.write_table(tab, path, row_group_size=t.between(1, 4))
        except (pa.lib.ArrowInvalid, pa.lib.ArrowNotImplementedError):
            raise Discard()
        if not n:
            raise Discard()
    else:
        n = t.length(5)
        k = t.between(1, 3)
        arrs = [numpy.array([t.below(9) for _ in range(t.below(4))], dtype="int64") for _ in range(k)]
        want = [x for a in arrs for x in a.tolist()]
        awkward0.toparquet(path, arrs, **opts)
    t.note("rows", m, want)
    t.nontrivial = len(want) >= 2
    cache = t.pick([None, {}])
    b = awkward0.fromparquet(path, cache=cache, persistvirtual=t.flag())
    t.check(len(b) == len(want), lambda: "length %d, expected %d" % (len(b), len(want)))
    got = tolist(b)
    t.evals += 1
    t.check(agrees(got, want), lambda: "from Parquet: %r, expected %r" % (got, want))
    if t.flag():
        st = {}
        persist.serialize(b, st)
        got = tolist(persist.deserialize(st))
        t.check(agrees(got, want), lambda: "stored and read again: %r, expected %r" % (got, want))
    if cache is not None:
        cache.clear()
        got = tolist(b)
        t.check(agrees(got, want), lambda: "after clearing the cache: %r, expected %r" % (got, want))
    if len(want) and isinstance(want[0], dict) and m:
        k = t.pick(sorted(want[0]))
        got = tolist(b[k])
        t.check(agrees(got, [x[k] for x in want]), lambda: "column %r: %r, expected %r" % (k, got, [x[k] for x in want]))


def norm2(x):
    if isinstance(x, tuple):
        return dict((str(i), norm2(y)) for i, y in enumerate(x))
    if isinstance(x, list):
        return [norm2(y) for y in x]
    if isinstance(x, dict):
        return dict((k, norm2(y)) for k, y in x.items())
    return x


def masks(t):
    """missing values over every layout, several masks deep, and interpretations that Arrow does not have"""
    need()
    S = gen_type(t, t.below(3), ("num", "str", "bytes", "list", "rec", "union"), NUMS2)
    m = t.below(4)
    if m == 0:
        T = ("opt", S)
    elif m == 1:
        T = ("list", ("opt", S))
    elif m == 2:
        T = ("rec", (("x", ("opt", S)), ("y", ("opt", ("num", "int64")))))
    else:
        T = ("opt", ("rec", (("x", S), ("y", ("opt", ("num", "float64"))))))
    n = t.length(6)
    v = gen_values(t, T, n)
    a = build(t, T, v, LAY, wrap=1)
    v = plain(v)
    if t.chance(0.4):
        # another mask
        t.feature("maskmask")
        hide = [t.chance(0.4) for _ in range(n)]
        v = [None if h else x for h, x in zip(hide, v)]
        k = t.below(3)
        if k == 0:
            w = t.flag()
            a = MaskedArray([h == w for h in hide] + [False] * t.below(2) if len(a) > n else [h == w for h in hide], a, maskedwhen=w)
        elif k == 1:
            a = IndexedMaskedArray([-1 if h else i for i, h in enumerate(hide)], a)
        else:
            w = t.flag()
            a = BitMaskedArray.fromboolmask(numpy.array([h == w for h in hide], dtype=bool), a, maskedwhen=w, lsborder=t.flag())
    if t.chance(0.3):
        # Arrow has no interpreted objects: their data are converted
        t.feature("object")
        a = ObjectArray(a, makeobj, (1,), {"k": 2})
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.nontrivial = n >= 2
    b = awkward0.toarrow(a)
    got = b.to_pylist()
    t.evals += 2
    t.check(agrees(got, v), lambda: "in Arrow: %r, expected %r" % (got, v))
    b.validate(full=True)
    got2 = tolist(awkward0.fromarrow(b))
    t.check(agrees(got2, v), lambda: "back from Arrow: %r, expected %r" % (got2, v))


TIMES = ["datetime64[s]", "datetime64[ms]", "datetime64[us]", "timedelta64[s]", "timedelta64[ms]", "timedelta64[us]", "datetime64[D]"]


def times(t):
    need()
    dt = numpy.dtype(t.pick(TIMES))
    n = t.length(6)
    x = numpy.array([t.between(-10**5, 10**6) for _ in range(n)], dtype="i8").view(dt) if n else numpy.zeros(0, dt)
    want = x.astype(dt).tolist()
    m = t.below(4)
    if m == 0:
        a = x
    elif m == 1:
        cuts = splits(t, n, 4)
        a = JaggedArray.fromoffsets(cuts, x)
        want = [want[i:j] for i, j in zip(cuts[:-1], cuts[1:])]
    elif m == 2:
        hide = [t.flag() for _ in range(n)]
        a = MaskedArray(hide, x)
        want = [None if h else w for h, w in zip(hide, want)]
    else:
        a = Table(x=x, y=numpy.arange(n))
        want = [{"x": w, "y": i} for i, w in enumerate(want)]
    t.note("array", describe(a))
    t.nontrivial = n >= 2
    b = awkward0.toarrow(a)
    if t.flag() and len(want):
        path = os.path.join(t.tmpdir(), "t.parquet")
        awkward0.toparquet(path, a)
        # Parquet has neither seconds nor time differences of its own: the units may change but not the times
        got = tolist(awkward0.fromparquet(path))
    else:
        got = tolist(awkward0.fromarrow(b))
    t.evals += 1
    def eq(p, q):
        if isinstance(q, list):
            return isinstance(p, list) and len(p) == len(q) and all(eq(i, j) for i, j in zip(p, q))
        if isinstance(q, dict):
            return isinstance(p, dict) and sorted(p) == sorted(q) and all(eq(p[k], q[k]) for k in q)
        return p == q
    t.check(eq(got, want), lambda: "back: %r, expected %r" % (got, want))


def pawant(tpe, nullable):
    """the type that a column of Arrow type tpe has"""
    if isinstance(tpe, pa.DictionaryType):
        out = pawant(tpe.value_type, False)
    elif isinstance(tpe, pa.StructType):
        out = awkward0.type.TableType(**dict((tpe[i].name, pawant(tpe[i].type, tpe[i].nullable)) for i in range(tpe.num_fields)))
    elif isinstance(tpe, (pa.ListType, pa.LargeListType)):
        out = ArrayType(numpy.inf, pawant(tpe.value_type, tpe.value_field.nullable))
    elif isinstance(tpe, pa.UnionType):
        out = UnionType(*[pawant(tpe[i].type, tpe[i].nullable) for i in range(tpe.num_fields)])
    elif pa.types.is_string(tpe) or pa.types.is_large_string(tpe):
        out = str
    elif pa.types.is_binary(tpe) or pa.types.is_large_binary(tpe):
        out = bytes
    elif pa.types.is_date32(tpe):
        out = numpy.dtype("M8[D]")
    elif pa.types.is_date64(tpe):
        out = numpy.dtype("M8[ms]")
    elif pa.types.is_timestamp(tpe):
        out = numpy.dtype("M8[%s]" % tpe.unit)
    elif pa.types.is_duration(tpe):
        out = numpy.dtype("m8[%s]" % tpe.unit)
    elif pa.types.is_boolean(tpe):
        out = numpy.dtype(bool)
    elif pa.types.is_null(tpe):
        out = numpy.dtype("float64")
    else:
        out = numpy.dtype({"halffloat": "float16", "float": "float32", "double": "float64"}.get(str(tpe), str(tpe)))
    return OptionType(out) if nullable else out


def gen_patype(t, depth):
    k = t.below(7 if depth > 0 else 3)
    def field(name):
        x = gen_patype(t, depth - 1)
        return pa.field(name, x, nullable=t.flag() or x == pa.null())
    if k in (0, 1):
        return getattr(pa, t.pick(NUMT))()
    if k == 2:
        return t.pick([pa.string(), pa.large_string(), pa.binary(), pa.large_binary(), pa.bool_(), pa.date32(), pa.date64(), pa.timestamp("ms"), pa.duration("s"), pa.null(), pa.float16()])
    if k == 3:
        return t.pick([pa.list_, pa.large_list])(field("item"))
    if k == 4:
        names = t.shuffle(["x", "y", "z"])[:t.between(1, 3)]
        return pa.struct([field(n) for n in names])
    if k == 5:
        return pa.dictionary(pa.int32(), gen_patype(t, 0))
    return pa.union([field(str(i)) for i in range(t.between(2, 3))], t.pick(["sparse", "dense"]))


def schemas(t):
    """the type of an Arrow schema, and of what is read with it"""
    need()
    names = t.shuffle(["x", "y", "z"])[:t.between(1, 3)]
    if t.flag():
        tpes = [gen_patype(t, t.below(3)) for n in names]
        sch = pa.schema([pa.field(n, x, nullable=t.flag() or x == pa.null()) for n, x in zip(names, tpes)])
        t.note("schema", str(sch))
        t.nontrivial = True
        got = awkward0.arrow.schema2type(sch)
        t.check(got.columns == names, "columns %r, expected %r" % (got.columns, names))
        for n in names:
            f = sch.field(n)
            want = pawant(f.type, f.nullable)
            t.evals += 1
            t.check(awkward0.type.ArrayType(1, got[n]) == awkward0.type.ArrayType(1, want), lambda: "type of %s is\n%s\nexpected\n%s" % (f, got[n], want))
        return
    # a file written by others, of any type that Parquet stores
    n = t.length(7, 1)
    cols = [build_arrow(t, t.below(3), n, True) for _ in names]
    tab = pa.table([c[0] for c in cols], names)
    path = os.path.join(t.tmpdir(), "s.parquet")
    try:
        pyarrow.parquet.write_table(tab, path, row_group_size=t.between(1, 4))
        back = pyarrow.parquet.ParquetFile(path)
        groups = [back.read_row_group(i) for i in range(back.num_row_groups)]
        want = [r for g in groups for r in g.to_pylist()]
    except (pa.lib.ArrowInvalid, pa.lib.ArrowNotImplementedError, pa.lib.ArrowTypeError):
        raise Discard()
    t.note("rows", want)
    t.nontrivial = True
    b = awkward0.fromparquet(path, cache=t.pick([None, {}]), persistvirtual=t.flag())
    for n in names:
        f = groups[0].schema.field(n)
        w = pawant(f.type, f.nullable)
        for c in b.chunks:
            got = c.contents[n].type
            t.check(got == awkward0.type.ArrayType(len(c), w), lambda: "declared type of column %r is\n%s\nexpected\n%s" % (n, got.to, w))
    if t.flag():
        import pickle
        b = pickle.loads(pickle.dumps(b))
    order = t.shuffle(range(len(want))) if t.flag() else []
    for i in order[:3]:
        got = tolist(b[i])
        t.check(agrees(got, want[i]), lambda: "row %d: %r, expected %r" % (i, got, want[i]))
    got = tolist(b)
    t.evals += 1
    t.check(agrees(got, want), lambda: "from Parquet: %r, expected %r" % (got, want))
    import pickle
    pf = pickle.loads(pickle.dumps(awkward0.arrow._ParquetFile(path)))
    k = t.pick(names)
    i = t.below(len(groups))
    got = tolist(pf(i, k))
    t.check(agrees(got, groups[i].column(k).to_pylist()), lambda: "row group %d of %r from a pickled reader: %r" % (i, k, got))


SUBS = [Sub("fromarrow", fromarrow, 12500), Sub("tables", tables, 5000), Sub("toarrow", toarrow, 7500), Sub("encodings", encodings, 1500), Sub("chunks", chunks, 1500), Sub("parquet", parquet, 1500), Sub("masks", masks, 5000), Sub("times", times, 1500), Sub("schemas", schemas, 3500)]
