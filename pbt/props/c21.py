"""C21: concatenation."""
import numpy
from .common import *

ID = "C21"
RULE = ("a case builds 1 to 4 arrays of one type (or, to be refused or kept apart, of different types) in any layouts and concatenates them along axis 0 or 1; "
        "non-trivial: at least 2 arrays with 2 elements together")


def retyped(T, dt):
    if T[0] in ("num", "nd"):
        return (T[0], dt) + T[2:]
    if T[0] in ("list", "opt"):
        return (T[0], retyped(T[1], dt))
    if T[0] == "rec":
        return ("rec", tuple((k, retyped(x, dt)) for k, x in T[1]))
    if T[0] in ("tup", "union"):
        return (T[0], tuple(retyped(x, dt) for x in T[1]))
    return T


def form(a):
    """the nested classes, for deciding when joining must work"""
    if isinstance(a, numpy.ndarray):
        return ("np", a.shape[1:], a.dtype.kind)
    n = type(a).__name__
    if isinstance(a, StringArray):
        return (n, a.encoding is None)
    if isinstance(a, Table):
        return (n, tuple(sorted((k, form(x)) for k, x in a._contents.items())))
    if isinstance(a, UnionArray):
        return (n,)
    if isinstance(a, (AppendableArray, SparseArray, BitMaskedArray)):
        return ("refused",)
    if isinstance(a, ChunkedArray):
        return (n,)
    if isinstance(a, VirtualArray):
        return (n, form(a.array))
    if isinstance(a, JaggedArray):
        return (n, len(a.starts.shape), form(a.content))
    if isinstance(a, ObjectArray):
        return (n, form(a.content))
    return (n, form(a.content))


def must(arrays):
    f = [form(a) for a in arrays]
    return "refused" not in repr(f)


def call(t, arrays, axis):
    how = t.below(4)
    if how == 0 and isinstance(arrays[0], AwkwardArray):
        t.note("method of the first")
        return attempt(lambda: arrays[0].concatenate(arrays[1:], axis=axis) if len(arrays) > 1 else type(arrays[0]).concatenate(arrays, axis=axis))
    if how == 1:
        return attempt(lambda: type([a for a in arrays if isinstance(a, AwkwardArray)][0]).concatenate(arrays, axis=axis)) if any(isinstance(a, AwkwardArray) for a in arrays) else attempt(lambda: AwkwardArray.concatenate(arrays, axis=axis))
    if how == 2:
        return attempt(lambda: AwkwardArray.concatenate(tuple(arrays), axis=axis))
    return attempt(lambda: awkward0.concatenate(arrays, axis=axis))


def axis0(t):
    T = gen_type(t, t.below(3), nums=NUMS)
    if has(T, "union"):
        # (a slice of a union that reaches one alternative has that alternative's type, and Numpy joins numbers of different types
        # by converting them)
        T = retyped(T, t.pick(NUMS))
    k = t.wpick([(1, 1), (4, 2), (3, 3), (1, 4)])
    alike = t.flag()
    lay = Layout(frozenset(["boolmask", "gap", "scatter", "view", "longcol", "npstride", "idt", "longstops", "farempty", "longidx"]), p=0.4) if alike else Layout(p=0.3)
    vs = [gen_values(t, T, t.length(5), t.chance(0.2)) for _ in range(k)]
    arrays = [build(t, T, v, lay, wrap=0 if alike else t.below(2)) for v in vs]
    want = plain([x for v in vs for x in v])
    t.note("type", tstr(T))
    t.note("arrays", [describe(a) for a in arrays])
    t.nontrivial = k > 1 and len(want) >= 2
    r = call(t, arrays, 0)
    if isinstance(r, Refused):
        t.check(not must(arrays), lambda: "refused: %r" % (r,))
        t.check(not isinstance(r.err, RecursionError), lambda: "%r" % (r,))
        return
    t.check(len(r) == len(want), lambda: "length %d, expected %d" % (len(r), len(want)))
    expect(t, r, want, "concatenated", strict=not has(T, "union"))
    if not has(T, "union", "opt", "str", "bytes") and must(arrays) and T[0] not in ("num", "nd") and alike and len(want):
        t.check(gottype(awkward0.type.fromarray(r)) == ("array", len(want), wanttype(T)), lambda: "type %r" % (awkward0.type.fromarray(r),))
    if len(want):
        i = t.below(len(want))
        expect(t, r[i], want[i], "element %d" % i)
        lo, hi = t.below(len(want)), t.below(len(want) + 1)
        expect(t, r[lo:hi], want[lo:hi], "slice of the result")
    for a, v in zip(arrays, vs):
        expect(t, a, plain(v), "an array after concatenating")


def same1(t):
    """arrays of one class, one after the other class: these must work"""
    T = gen_type(t, t.below(3), kinds=("num", "list", "rec", "str", "opt", "tup", "nd"), nums=NUMS)
    k = t.between(2, 4)
    how = t.below(6)
    kind = ("plain", "indexed", "chunked", "virtual", "indexmask", "object")[how]
    lay = Layout(frozenset(["boolmask", "gap", "scatter", "view", "longcol", "npstride", "idt"]), p=0.4)
    vs, arrays = [], []
    for _ in range(k):
        v = gen_values(t, T, t.length(5))
        if kind == "indexed":
            extra = gen_values(t, T, t.below(3))
            c = build(t, T, v + extra, lay, wrap=0)
            n = len(v) + len(extra)
            ii = [t.below(n) for _ in range(t.length(5))] if n else []
            a = IndexedArray(numpy.array(ii, dtype=t.pick(["int64", "int8", "uint16"])), c)
            v = [(v + extra)[i] for i in ii]
        elif kind == "chunked":
            cuts = [0] + sorted(t.below(len(v) + 1) for _ in range(t.below(3))) + [len(v)]
            c = [build(t, T, v[i:j], lay, wrap=0) for i, j in zip(cuts[:-1], cuts[1:])]
            a = ChunkedArray(c, [len(x) for x in c][:t.below(len(c) + 1)])
        elif kind == "virtual":
            a = VirtualArray(Gen(build(t, T, v, lay, wrap=0)))
        elif kind == "indexmask" and T[0] != "opt":
            c = build(t, T, v, lay, wrap=0)
            m = [t.below(len(v)) if len(v) and t.chance(0.7) else -1 for _ in range(t.length(5))]
            when = t.pick([-1, -1, 99])
            a = IndexedMaskedArray(numpy.array([when if i < 0 else i for i in m], dtype="int64"), c, maskedwhen=when)
            v = [None if i < 0 else v[i] for i in m]
        elif kind == "object" and T[0] in ("num", "rec"):
            a = ObjectArray(build(t, T, v, lay, wrap=0), tolist)
        else:
            a = build(t, T, v, lay, wrap=0)
        vs.append(v)
        arrays.append(a)
    want = plain([x for v in vs for x in v])
    t.note("kind", kind)
    t.note("arrays", [describe(a) for a in arrays])
    t.nontrivial = len(want) >= 2
    r = call(t, arrays, 0)
    t.check(not isinstance(r, Refused), lambda: "refused: %r" % (r,))
    expect(t, r, want, "concatenated", strict=True)
    t.check(len(r) == len(want), "length")


def mixed(t):
    """different types: kept apart, or refused, never mixed up"""
    k = t.between(2, 3)
    Ts = [gen_type(t, t.below(2), nums=NUMS[:6]) for _ in range(k)]
    vs = [gen_values(t, T, t.length(4)) for T in Ts]
    arrays = [build(t, T, v, Layout(p=0.2), wrap=0) for T, v in zip(Ts, vs)]
    t.note("types", [tstr(T) for T in Ts])
    t.note("arrays", [describe(a) for a in arrays])
    want = plain([x for v in vs for x in v])
    r = call(t, arrays, 0)
    if isinstance(r, Refused):
        t.check(not isinstance(r.err, RecursionError), lambda: "%r" % (r,))
        return
    t.nontrivial = len(want) >= 2
    t.check(len(r) == len(want), lambda: "length %d, expected %d" % (len(r), len(want)))
    expect(t, r, want, "concatenated", eq=loosely)


def loosely(a, b):
    """Numpy joins booleans and numbers"""
    if isinstance(a, bool) != isinstance(b, bool) and isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return float(a) == float(b)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(loosely(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(loosely(a[k], b[k]) for k in a)
    return same(a, b)


def objects(t):
    """object arrays whose generators differ"""
    def f(x, *args, **kwargs):
        return ("f", tolist(x)) + args + tuple(sorted(kwargs.items()))

    def g(x, *args, **kwargs):
        return ("g", tolist(x)) + args + tuple(sorted(kwargs.items()))
    k = t.between(2, 3)
    same_ = t.flag()
    arrays, want = [], []
    fn, args, kw = t.pick([f, g]), (t.below(2),), {"k": t.below(2)}
    for _ in range(k):
        if not same_:
            fn, args, kw = t.pick([f, g]), (t.below(2),), {"k": t.below(2)}
        x = numpy.array([t.below(9) for _ in range(t.length(4))], dtype=int)
        arrays.append(ObjectArray(x, fn, *args, **kw) if False else ObjectArray(x, fn, args, kw))
        want.extend([fn(i, *args, **kw) for i in x.tolist()])
    t.note("same", same_)
    t.note("want", want)
    t.nontrivial = len(want) >= 2
    r = call(t, arrays, 0)
    if isinstance(r, Refused):
        t.check(not same_, lambda: "refused: %r" % (r,))
        return
    got = list(r)
    t.evals += 1
    t.check(got == want, lambda: "objects %r, expected %r" % (got, want))


def axis1(t):
    """joining the lists of several arrays pairwise"""
    k = t.between(1, 3)
    n = t.length(5)
    what = t.below(6)
    lay = Layout(frozenset(["boolmask", "gap", "scatter", "view", "npstride", "idt", "longstops", "farempty"]) if t.chance(0.7) else ALL, p=0.3)
    if what == 0:
        S = gen_type(t, t.below(2), nums=NUMS[:6])
    elif what in (1, 2):
        S = ("rec", tuple((m, ("num", t.pick(NUMS))) for m in t.shuffle(NAMES)[:t.between(1, 3)]))
    else:
        S = ("num", t.pick(NUMS))
    vs = [[gen_values(t, S, t.length(4)) for _ in range(n)] for _ in range(k)]
    arrays = [build(t, ("list", S), v, lay, wrap=0) for v in vs]
    if what == 5:
        # different numbers
        Ss = [("num", t.pick(NUMS)) for _ in range(k)]
        vs = [[gen_values(t, s, t.length(4)) for _ in range(n)] for s in Ss]
        arrays = [build(t, ("list", s), v, lay, wrap=0) for s, v in zip(Ss, vs)]
    bad = k > 1 and t.chance(0.15)
    if bad:
        m = n + t.between(1, 2)
        vs[-1] = [gen_values(t, S, t.length(3)) for _ in range(m)]
        arrays[-1] = build(t, ("list", S), vs[-1], lay, wrap=0)
    t.note("type", tstr(("list", S)))
    t.note("arrays", [describe(a) for a in arrays])
    r = call(t, arrays, 1)
    if bad:
        t.check(isinstance(r, Refused), lambda: "arrays of different lengths gave %r" % (r,))
        return
    want = plain([[y for v in vs for y in v[i]] for i in range(n)])
    flat = all(isinstance(a.content, numpy.ndarray) and len(a.content.shape) == 1 or isinstance(a.content, Table) and all(isinstance(x, numpy.ndarray) and len(x.shape) == 1 for x in a.content._contents.values()) for a in arrays if isinstance(a, JaggedArray)) and all(type(a) is JaggedArray for a in arrays)
    if isinstance(r, Refused):
        t.check(not flat, lambda: "refused: %r" % (r,))
        return
    t.nontrivial = k > 1 and n >= 2
    expect(t, r, want, "concatenated along axis 1", eq=loosely)
    t.check(len(r) == n, "length")
    for a, v in zip(arrays, vs):
        expect(t, a, plain(v), "an array after concatenating")


def objects1(t):
    """lists of objects along axis 1"""
    def f(x, *args):
        return ("f", tolist(x)) + args

    def g(x, *args):
        return ("g", tolist(x)) + args
    k, n = t.between(1, 3), t.length(4)
    same_ = t.chance(0.7)
    fn, args = t.pick([f, g]), (t.below(2),)
    names = t.shuffle(NAMES)[:t.between(1, 3)]
    S = ("rec", tuple((m, ("num", t.pick(NUMS)) if t.chance(0.85) else gen_type(t, 1, nums=NUMS[:6])) for m in names))
    simple = all(x[0] == "num" for m, x in S[1])
    arrays, vs, gens = [], [], []
    for _ in range(k):
        if not same_:
            fn, args = t.pick([f, g]), (t.below(2),)
        counts = [t.below(4) for _ in range(n)]
        flat = gen_values(t, S, sum(counts))
        table = build(t, S, flat, Layout(frozenset(["view", "npstride", "boolmask"]), p=0.3), wrap=0)
        arrays.append(JaggedArray.fromcounts(counts, ObjectArray(table, fn, args)))
        objs, i = [fn(x, *args) for x in plain(flat)], 0
        v = []
        for c in counts:
            v.append(objs[i:i + c])
            i += c
        vs.append(v)
        gens.append((fn, args))
    want = [[y for v in vs for y in v[i]] for i in range(n)]
    t.note("type", tstr(S))
    t.note("want", want)
    alike = all(x == gens[0] for x in gens)
    r = call(t, arrays, 1)
    if isinstance(r, Refused):
        t.check(not alike or not simple, lambda: "refused: %r" % (r,))
        return
    t.nontrivial = k > 1 and len([y for x in want for y in x]) >= 2
    got = [list(x) for x in r]
    t.evals += 1
    t.check(loosely(got, want), lambda: "objects %r, expected %r" % (got, want))


def refused(t):
    """what cannot be joined is refused"""
    n = t.between(1, 3)
    a = JaggedArray.fromcounts([2] * n, numpy.arange(2 * n))
    r = attempt(lambda: AwkwardArray.concatenate([]))
    t.check(isinstance(r, Refused) and isinstance(r.err, ValueError), "no arrays")
    r = attempt(lambda: AwkwardArray.concatenate([a, a], axis=2))
    t.check(isinstance(r, Refused), "axis 2")
    x = Table(x=numpy.arange(n), y=numpy.arange(n))
    y = Table(x=numpy.arange(n), **t.pick([{}, {"z": numpy.arange(n)}]))
    r = attempt(lambda: call(t, [x, y], 0))
    t.check(isinstance(r, Refused), lambda: "tables with different columns gave %r" % (r,))
    # records in different column order
    z = Table.frompairs([("y", numpy.arange(n)), ("x", numpy.arange(n))], 0)
    r = call(t, [x, z], 0)
    expect(t, r, tolist(x) + tolist(z), "columns in another order")
    # narrow integers
    m = t.between(60, 130)
    b = JaggedArray.fromcounts(numpy.array([m], dtype="int8") if m < 128 else [m], numpy.arange(m))
    k = t.pick(["int8", "uint8", "int16"])
    starts, stops = numpy.array([0], dtype=k), numpy.array([min(m, 120)], dtype=k)
    b = JaggedArray(starts, stops, numpy.arange(m))
    r = call(t, [b] * 4, 0)
    expect(t, r, [list(range(min(m, 120)))] * 4, "narrow starts and stops")
    c = IndexedArray(numpy.array([0, m - 1], dtype="uint8"), numpy.arange(m))
    r = call(t, [c] * 4, 0)
    expect(t, r, [0, m - 1] * 4, "narrow index")
    t.nontrivial = True


SUBS = [Sub("axis0", axis0, 18000), Sub("same", same1, 15000), Sub("mixed", mixed, 4800), Sub("objects", objects, 3000), Sub("axis1", axis1, 15000), Sub("objects1", objects1, 3600), Sub("refused", refused, 900)]
