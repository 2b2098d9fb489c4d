"""C08: combinatorics."""
import itertools
from .common import *

ID = "C08"
RULE = ("a case draws one or two arrays of lists of numbers, strings, records, lists, optional or union values in random layouts and one "
        "combinatorial operation; non-trivial: some list has at least 2 elements")

FLAT = {"indexed", "virtual"}


def element(t, depth=1):
    return gen_type(t, depth, ("num", "list", "rec", "opt", "str", "union", "bytes", "nd"))


def listarray(t, n, lay=None, T=None, opt=False, name="array", wrap=None, maxlen=4):
    S = element(t) if T is None else T
    T = ("list", S)
    if opt:
        T = ("opt", T)
    values = gen_values(t, T, n, maxlen=maxlen)
    lay = lay if lay is not None else Layout(p=t.pick([0.1, 0.4]))
    a = build(t, T, values, lay, wrap=t.below(3) if wrap is None else wrap)
    t.note(name, tstr(T), describe(a))
    if any(v is not None and len(v) >= 2 for v in values):
        t.nontrivial = True
    return T, plain(values), a


def cross(x, y, nested):
    if x is None or y is None:
        return None
    out = [[(p, q) for q in y] for p in x]
    return out if nested else sum(out, [])


def pairs(x, nested):
    if x is None:
        return None
    out = [[(x[i], x[j]) for j in range(i, len(x))] for i in range(len(x))]
    return out if nested else sum(out, [])


def distincts(x, nested):
    if x is None:
        return None
    out = [[(x[i], x[j]) for j in range(i + 1, len(x))] for i in range(len(x) - 1)]
    return out if nested else sum(out, [])


def choose(x, n):
    if x is None:
        return None
    return [tuple(x[i] for i in c) for c in sorted(itertools.combinations(range(len(x)), n), key=lambda c: c[::-1])]


def local(x):
    return None if x is None else list(range(len(x)))


def checktuples(t, got, what, nested=False):
    """unzip and the tuple shortcuts give the sides"""
    if len(got) == 0:
        return
    want = tolist(got)

    def side(x, i):
        if x is None:
            return None
        return x[i] if isinstance(x, tuple) else [side(y, i) for y in x]
    n = len(got.columns)
    t.check(got.columns == [str(i) for i in range(n)], lambda: "columns of %s are %r" % (what, got.columns))
    sides = got.unzip()
    t.check(len(sides) == n, "unzip has %d parts" % len(sides))
    for i in range(n):
        expect(t, sides[i], [side(x, i) for x in want], "%s.unzip()[%d]" % (what, i))
        if i < 3:
            expect(t, getattr(got, "i%d" % i), [side(x, i) for x in want], "%s.i%d" % (what, i))


def single(t):
    """pairs, distincts and choose, with their arg versions"""
    opt = t.chance(0.2)
    T, values, a = listarray(t, t.length(4), opt=opt, maxlen=6)
    what = t.pick(["pairs", "distincts", "choose"])
    arg = t.chance(0.4)
    src = [local(v) for v in values] if arg else values
    readings(t, a)
    f = getattr(a, ("arg" if arg else "") + what)
    if what == "choose":
        n = t.between(2, 5)
        t.note(what, n, "arg" if arg else "")
        got, want = f(n), [choose(v, n) for v in src]
    else:
        nested = t.flag()
        t.note(what, "arg" if arg else "", "nested" if nested else "")
        got = f(nested=True) if nested else f()
        want = [(pairs if what == "pairs" else distincts)(v, nested) for v in src]
    expect(t, got, want, what)
    structure(t, got, want, what)
    if not opt and t.chance(0.5):
        checktuples(t, got, what)


def double(t):
    """cross and argcross"""
    n = t.length(4)
    lay = Layout(ALL - {"chunked", "appendable"}, p=0.35) if t.chance(0.9) else Layout(PLAIN)
    opt = t.chance(0.2)
    T, values, a = listarray(t, n, lay, opt=opt)
    U_, others, b = listarray(t, n, Layout(lay.allow - {"indexed", "sparse"}), name="other", wrap=t.below(2))
    if isinstance(b, awkward0.VirtualArray) and opt:
        b = b.array
    arg, nested = t.chance(0.4), t.flag()
    t.note("cross", "arg" if arg else "", "nested" if nested else "")
    readings(t, a)
    readings(t, b)
    f = a.argcross if arg else a.cross
    got = f(b, nested=True) if nested else f(b)
    want = [cross(local(x) if arg else x, local(y) if arg else y, nested) for x, y in zip(values, others)]
    expect(t, got, want, "cross")
    structure(t, got, want, "cross")
    if not opt and t.chance(0.5):
        checktuples(t, got, "cross", nested)


def chain(t):
    """a cross of a cross gives flat tuples, nested ones grouped by the left side"""
    n = t.length(3)
    P = Layout({"scatter", "gap", "idt", "longstops", "npstride"})
    arrays = [listarray(t, n, P, ("num", t.pick(["int64", "float64"])) if t.flag() else ("str",), wrap=0, maxlen=3, name="array %d" % i) for i in range(3)]
    (_, u, a), (_, v, b), (_, w, c) = arrays
    n1, n2 = t.flag(), t.flag()
    t.note("nested", n1, n2)
    got = a.cross(b, nested=n1).cross(c, nested=n2)
    want = []
    for x, y, z in zip(u, v, w):
        out = [[[(p, q, r) for r in z] for q in y] for p in x]
        if n1 and not n2:
            out = [sum(o, []) for o in out]
        elif n2 and not n1:
            out = sum(out, [])
        elif not n1 and not n2:
            out = sum(sum(out, []), [])
        want.append(out)
    expect(t, got, want, "cross of a cross")
    structure(t, got, want, "cross of a cross")


def flattentuple(t):
    """flattentuple joins nested tuples and leaves everything else"""
    def typ(d):
        k = t.wpick([(2, "leaf"), (3 if d else 0, "tup"), (1 if d else 0, "rec")])
        if k == "leaf":
            return element(t, 1)
        if k == "tup":
            return ("tup", tuple(typ(d - 1) for _ in range(t.between(1, 3))))
        return ("rec", tuple((x, typ(d - 1)) for x in NAMES[:t.between(1, 2)]))
    T = ("tup", tuple(typ(2) for _ in range(t.between(1, 3))))
    for _ in range(t.wpick([(2, 0), (2, 1), (1, 2)])):
        k = t.pick(["list", "list", "opt", "union"])
        T = ("union", (T, ("num", "int64"))) if k == "union" and not has(T, "union") else ("opt", T) if k == "opt" and T[0] not in ("opt", "union") else ("list", T)

    def ft(T, v):
        if T[0] == "list":
            return [ft(T[1], x) for x in v] if has(T[1], "tup") else v
        if T[0] == "opt":
            return None if v is None else ft(T[1], v)
        if T[0] == "union":
            return ft(T[1][v.tag], v.val)
        return tables(T, v)

    def tables(T, v):
        if T[0] == "tup":
            out = ()
            for S, x in zip(T[1], v):
                y = tables(S, x)
                out += y if S[0] == "tup" else (y,)
            return out
        if T[0] == "rec":
            return dict((n, tables(S, v[n])) for n, S in T[1])
        return v
    values = gen_values(t, T, t.length(5))
    a = build(t, T, values, Layout({"view", "longcol", "npstride", "scatter", "gap", "boolmask", "bitmask", "indexmask", "indexed", "chunked", "virtual", "nestedwrap", "emptychunk", "lazychunk"}, p=0.3), wrap=t.below(3))
    t.note(tstr(T), describe(a))
    t.nontrivial = len(values) >= 1
    want = [plain(ft(T, v)) for v in values]
    if T[0] == "tup" and values and t.chance(0.2):
        a = SparseArray(len(values) + 1, numpy.arange(1, len(values) + 1), a)
        t.note("sparse")
        expect(t, a.flattentuple()[1:], want, "flattentuple of a sparse array")
        return
    expect(t, a.flattentuple(), want, "flattentuple")


def zip_(t):
    """JaggedArray.zip of jagged arrays, flat arrays and numbers"""
    n = t.length(5)
    counts = [t.length(4) for _ in range(n)]
    k = t.between(1, 4)
    cols, kinds = [], []
    P = Layout({"scatter", "gap", "idt", "longstops", "npstride", "farempty", "inner", "indexed", "boolmask", "indexmask", "view", "longcol"})
    for i in range(k):
        kind = t.wpick([(3, "jagged"), (2, "flat"), (1, "scalar")]) if i or k > 1 else "jagged"
        kinds.append(kind)
        if kind == "jagged":
            T = ("list", element(t))
            vals = [[gen_value(t, T[1]) for _ in range(c)] for c in counts]
            x = build(t, T, vals, P, wrap=0)
            want = plain(vals)
        elif kind == "flat":
            T = gen_type(t, 1, ("num", "str", "opt", "rec", "nd"))
            vals = gen_values(t, T, n)
            if T[0] == "num" and t.chance(0.3):
                x = numpy.array(vals, dtype=T[1]).tolist()
                t.feature("plain list")
            else:
                x = build(t, T, vals, Layout(ALL, 0.2), wrap=1)
            if n == 1 and not isinstance(x, (AwkwardArray, list)) and len(x.shape) > 1:
                t.feature("single row")
            want = [[plain(v)] * c for v, c in zip(vals, counts)]
        else:
            x = t.pick([1, 2.5, True, numpy.int64(3), numpy.float32(0.5)])
            want = [[x if not hasattr(x, "item") else x.item()] * c for c in counts]
        t.note(kind, describe(x) if hasattr(x, "__len__") else x)
        cols.append((x, want))
    t.assume("jagged" in kinds)
    t.nontrivial = sum(counts) >= 2
    names = list(NAMES[:k])
    mode = t.pick(["pos", "kw", "dict", "method", "pos and kw", "dict and kw", "method and kw"])
    t.note("zip", mode)
    xs = [c[0] for c in cols]
    Z = awkward0.JaggedArray.zip
    if mode.startswith("method") and kinds[0] != "jagged":
        mode = "pos"
    first = k
    if mode.endswith(" and kw"):
        first = t.between(1, k)
        if first < k and not mode.startswith("dict"):
            names = [str(i) for i in range(first)] + names[first:]
        elif not mode.startswith("dict"):
            mode = mode[:-7]
        t.note("by name from", first)
    if mode == "pos":
        got = Z(*xs)
    elif mode == "method":
        got = xs[0].zip(*xs[1:])
    elif mode == "kw":
        got = Z(**dict(zip(names, xs)))
    elif mode == "pos and kw":
        got = Z(*xs[:first], **dict(zip(names[first:], xs[first:])))
    elif mode == "method and kw":
        got = xs[0].zip(*xs[1:first], **dict(zip(names[first:], xs[first:])))
    else:
        d = dict(zip(names[:first], xs))
        got = Z(d, **dict(zip(names[first:], xs[first:])))
        t.check(all(d[m] is x for m, x in zip(names[:first], xs)), "zip changed the dict it was given")
    want = []
    for i in range(n):
        rows = []
        for j in range(counts[i]):
            row = [c[1][i][j] for c in cols]
            rows.append(tuple(row) if mode in ("pos", "method") else dict(zip(names, row)))
        want.append(rows)
    expect(t, got, want, "zip")
    structure(t, got, want, "zip")
    if n:
        for i, part in enumerate(got.unzip()):
            expect(t, part, cols[i][1], "zip(...).unzip()[%d]" % i)


def mismatch(t):
    """arrays that do not line up cannot be combined"""
    P = Layout({"scatter", "gap", "idt"})
    n = t.between(1, 4)
    what = t.pick(["cross", "argcross", "zip jagged", "zip flat"])
    T, values, a = listarray(t, n, P, ("num", "int64"), wrap=0)
    t.note(what)
    t.nontrivial = True
    if what == "zip jagged":
        other = [list(v) for v in values]
        i = t.below(n)
        other[i] = other[i] + [1] if t.flag() or not other[i] else other[i][:-1]
        b = build(t, T, other, P, wrap=0)
        got = attempt(lambda: awkward0.JaggedArray.zip(a, b))
    elif what == "zip flat":
        m = t.pick([n + 1, n + 2, n - 1])
        t.assume(m >= 2)
        got = attempt(lambda: awkward0.JaggedArray.zip(a, numpy.arange(m)))
    else:
        b = listarray(t, n + t.between(1, 2), P, ("num", "int64"), wrap=0)[2]
        got = attempt(lambda: getattr(a, what)(b))
    t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "%s of arrays that do not match gave %r" % (what, got))


def tojagged(t):
    """broadcasting to the jaggedness of an array"""
    n = t.length(5)
    P = Layout({"scatter", "gap", "idt", "longstops", "farempty", "boolmask"})
    T, values, a = listarray(t, n, P, ("num", "int64"), wrap=0)
    readings(t, a)
    if t.chance(0.3) and n:
        pick = [t.below(n) for _ in range(t.length(6))]
        a, values = a[pick], [values[i] for i in pick]
        t.note("fancy", pick)
    n = len(values)
    kind = t.pick(["jagged", "flat", "scalar"])
    if kind == "jagged":
        S = ("list", element(t))
        vals = [[gen_value(t, S[1]) for _ in v] for v in values]
        x, want = build(t, S, vals, P, wrap=0), plain(vals)
    elif kind == "flat":
        S = gen_type(t, 1, ("num", "str", "opt", "rec", "nd"))
        vals = gen_values(t, S, n)
        x, want = numpy.array(vals, dtype=S[1]).tolist() if S[0] == "num" and t.chance(0.3) else build(t, S, vals, Layout(), wrap=1), [[plain(y)] * len(v) for y, v in zip(vals, values)]
    else:
        x = t.pick([1, 2.5, True])
        want = [[x] * len(v) for v in values]
    t.note("tojagged", kind, describe(x) if hasattr(x, "__len__") else x)
    got = a.tojagged(x)
    expect(t, got, want, "tojagged")
    structure(t, got, want, "tojagged")


def derived(t):
    """what a combination is made into (a column, a selection, a copy, another structure) combines as the lists it then has"""
    n = t.between(1, 4)
    T, values, a = listarray(t, n, Layout({"scatter", "gap", "idt"}), ("num", "int64"), wrap=0, maxlen=3)
    what = t.pick(["cross", "cross", "cross", "pairs", "distincts"])
    nested = t.chance(0.7)
    t.note(what, "nested", nested)
    if what == "cross":
        T2, v2, b = listarray(t, n, Layout({"scatter", "gap"}), ("num", "int64"), wrap=0, maxlen=3, name="other")
        r, v = a.cross(b, nested=nested), [cross(x, y, nested) for x, y in zip(values, v2)]
    else:
        r, v = getattr(a, what)(nested=nested), [(pairs if what == "pairs" else distincts)(x, nested) for x in values]
    if t.chance(0.3):
        # unevaluated or evaluated before it is changed
        readings(t, r)
    how = t.pick(["column", "slice", "fancy", "setstarts", "content", "copy", "mask"])
    t.note("then", how)

    def side(x, i):
        return x[i] if isinstance(x, tuple) else [side(y, i) for y in x]
    if how == "column":
        i = t.below(2)
        d, w = r[str(i)], [side(x, i) for x in v]
    elif how == "slice":
        i, j = sorted([t.below(n + 1), t.below(n + 1)])
        d, w = r[i:j], v[i:j]
    elif how == "fancy":
        ii = [t.below(n) for _ in range(t.between(1, 4))]
        d, w = r[ii], [v[i] for i in ii]
    elif how == "mask":
        m = [t.flag() for _ in v]
        d, w = r[numpy.array(m)], [x for x, k in zip(v, m) if k]
    elif how == "setstarts":
        c, content = r.content, [y for x in v for y in x]
        if len(c) != len(content):
            return
        o = sorted(t.below(len(content) + 1) for _ in range(n + 1))
        r.starts, r.stops = numpy.array(o[:-1]), numpy.array(o[1:])
        d, w = r, [content[i:j] for i, j in zip(o[:-1], o[1:])]
    elif how == "content":
        m = len(r.content)
        r.content = numpy.arange(m) * 10
        d, w = r, [y.tolist() for y in numpy.split(numpy.arange(m) * 10, r.stops)[:n]] if m and r.stops.tolist() == numpy.cumsum(r.counts).tolist() else None
        if w is None:
            return
    else:
        d, w = (r.copy(content=numpy.arange(len(r.content))), None)
        w = tolist(JaggedArray(d.starts, d.stops, d.content))
    w = plain(w)
    expect(t, d, w, how)
    structure(t, d, w, how)
    if any(isinstance(z, (list, tuple)) for x in w for y in x for z in (y if isinstance(y, list) else [y])):
        return     # (tuples of tuples are flattened)
    k = t.below(3)
    if k == 0:
        got, want, name = d.cross(d), [cross(x, x, False) for x in w], "cross with itself"
    elif k == 1:
        U, u, c = listarray(t, len(w), Layout({"scatter", "gap"}), ("num", "int64"), wrap=0, maxlen=3, name="third")
        nested = t.flag()
        got, want, name = d.cross(c, nested=nested), [cross(x, y, nested) for x, y in zip(w, u)], "cross"
    else:
        got, want, name = d.pairs(), [pairs(x, False) for x in w], "pairs"
    expect(t, got, want, "%s of that" % name)
    structure(t, got, want, "%s of that" % name)


def big(t):
    """long lists: the closed formulas for the positions must be exact"""
    what = t.pick(["pairs", "distincts", "choose2", "choose3", "choose4", "choose5"])
    top = {"pairs": 900, "distincts": 900, "choose2": 900, "choose3": 150, "choose4": 55, "choose5": 34}[what]
    sizes = [t.between(0, 3), t.between(top // 2, top), t.between(0, 5)]
    t.note(what, sizes)
    t.nontrivial = True
    a = awkward0.JaggedArray.fromcounts(numpy.array(sizes), numpy.arange(sum(sizes)))
    base = numpy.cumsum([0] + sizes[:-1])
    arg = t.flag()
    if what in ("pairs", "distincts"):
        got = getattr(a, ("arg" if arg else "") + what)()
        idx = [numpy.triu_indices(n, 0 if what == "pairs" else 1) for n in sizes]
    else:
        n = int(what[-1])
        got = (a.argchoose if arg else a.choose)(n)
        idx = [combinations(s, n) for s in sizes]
    t.check(got.counts.tolist() == [len(i[0]) for i in idx], lambda: "%s of %r has counts %r" % (what, sizes, got.counts))
    for c, side in enumerate(got.unzip()):
        want = numpy.concatenate([i[c] + (0 if arg else b) for i, b in zip(idx, base)])
        bad = numpy.nonzero(side.flatten() != want)[0]
        t.check(len(bad) == 0, lambda: "%s of %r: part %d is %r at %d, not %r" % (what, sizes, c, side.flatten()[bad[0]], bad[0], want[bad[0]]))


def combinations(s, n):
    """all n-element combinations of range(s), ordered by the last, then the one before..."""
    if n == 1:
        return [numpy.arange(s)]
    rest = combinations(s, n - 1)
    out = [[] for _ in range(n)]
    for last in range(s):
        ok = int(numpy.searchsorted(rest[-1], last))
        for i in range(n - 1):
            out[i].append(rest[i][:ok])
        out[-1].append(numpy.full(ok, last))
    return [numpy.concatenate(o) if o else numpy.array([], int) for o in out]


def unaligned(t):
    """chunked arrays whose chunks do not match are refused or combined as if they did; never cut short"""
    n = t.length(6)
    same_ = t.chance(0.3)
    m = n if t.chance(0.6) or same_ else t.length(6)
    x = [[t.below(50) for _ in range(t.below(4))] for _ in range(n)]
    y = [[t.below(50) / 2.0 for _ in range(t.below(4))] for _ in range(m)]

    def chunked(v, dt, cuts):
        out = []
        for i, j in zip(cuts[:-1], cuts[1:]):
            part = JaggedArray.fromcounts([len(q) for q in v[i:j]], numpy.array([p for q in v[i:j] for p in q], dtype=dt))
            if t.chance(0.2):
                part = VirtualArray(lambda part=part: part)
            out.append(part)
        return ChunkedArray(out, [j - i for i, j in zip(cuts[:-1], cuts[1:])] if t.flag() else [])

    def cut(k):
        return [0] + sorted(t.below(k + 1) for _ in range(t.below(4))) + [k]
    ca = cut(n)
    cb = list(ca) if same_ else cut(m)
    a, b = chunked(x, "i8", ca), chunked(y, "f8", cb)
    if t.chance(0.15) and not same_:
        b = JaggedArray.fromiter(y)
    nested = t.flag()
    f = t.pick(("cross", "argcross"))
    t.note("chunks", ca, cb, f, nested)
    t.nontrivial = n > 1 and m > 1 and len(ca) > 2
    got = attempt(lambda: getattr(a, f)(b, nested=nested))
    if isinstance(got, Refused):
        t.check(not same_ and isinstance(got.err, (ValueError, NotImplementedError, TypeError)), lambda: "%s of %s chunks: %r" % (f, "the same" if same_ else "other", got))
        return
    t.check(n == m, lambda: "%s of %d and %d lists gave %r" % (f, n, m, tolist(got)))
    g = (lambda v: v) if f == "cross" else local
    expect(t, got, [cross(g(p), g(q), nested) for p, q in zip(x, y)], f)


SUBS = [Sub("unaligned", unaligned, 3000), Sub("single", single, 15000), Sub("double", double, 15000), Sub("chain", chain, 4000), Sub("flattentuple", flattentuple, 4000),
        Sub("zip", zip_, 12000), Sub("mismatch", mismatch, 2000), Sub("tojagged", tojagged, 6000), Sub("derived", derived, 5000), Sub("big", big, 30)]
