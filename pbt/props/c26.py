"""C26: unions."""
import math
from .common import *
from .indexing import gen_index, gen_slice

ID = "C26"
RULE = ("a case builds a union of 1 to 4 alternatives (each an array of its own type in any layout) from random tags and indexes (unordered, repeated, with gaps, longer than the tags) or from tags alone, "
        "and reads, selects, computes with or reduces it; non-trivial: at least 3 elements of at least 2 alternatives")

NUM = ("int64", "float64", "int32", "uint8", "int8", "float32", "int16", "uint16")


def union(t, Ts, n=None, lay=None, twod=False, sequential=None, special=False, only=None):
    """(reference list, tags list, array); elements of alternative k are values of type Ts[k]"""
    k = len(Ts)
    n = t.length(8) if n is None else n
    vals = [gen_values(t, T, t.length(5), special) for T in Ts]
    sequential = t.flag() if sequential is None else sequential
    tags = [t.below(k) for _ in range(n)]
    if sequential:
        for i in range(k):
            c = tags.count(i)
            vals[i] = (vals[i] + gen_values(t, Ts[i], c, special))[:c + t.below(2)] if t.flag() else gen_values(t, Ts[i], c, special)
        seen = [0] * k
        index = []
        for g in tags:
            index.append(seen[g])
            seen[g] += 1
    else:
        for i in range(k):
            if i in tags and not vals[i]:
                vals[i] = gen_values(t, Ts[i], 1 + t.below(3), special)
        index = [t.below(len(vals[g])) for g in tags]
    lay = lay or Layout(p=0.25)
    contents = [build(t, T, v, lay, wrap=t.below(2), special=special) for T, v in zip(Ts, vals)]
    for c, v in zip(contents, vals):
        t.assume(len(c) >= len(v))
    ref = [vals[g][i] for g, i in zip(tags, index)]
    tg = numpy.array(tags, dtype=t.pick(["uint8", "int64", "int32", "int8"]))
    if sequential and t.flag():
        a = UnionArray.fromtags(tg if t.flag() else tags, contents)
    else:
        ix = list(index)
        if t.chance(0.3):
            ix += [t.pick([0, 99])] * t.between(1, 3)              # positions beyond the tags do not matter
        a = UnionArray(tg, numpy.array(ix, dtype=t.pick(["int64", "int32", "uint8"])), contents)
    t.note("types", " | ".join(tstr(T) for T in Ts))
    t.note("array", describe(a))
    if n >= 3 and len(set(tags)) >= 2:
        t.nontrivial = True
    return plain(ref), tags, a


def anytypes(t, k=None):
    return [gen_type(t, t.below(2), ("num", "list", "rec", "opt", "str", "bytes", "tup", "nd", "obj"), NUMS) for _ in range(k or t.wpick([(1, 1), (4, 2), (3, 3), (1, 4)]))]


def reading(t):
    """elements, iteration and chains of selections"""
    v, tags, a = union(t, anytypes(t), special=t.chance(0.2))
    n = len(v)
    t.check(len(a) == n, lambda: "length %d" % len(a))
    expect(t, a, v, "elements")
    expect(t, [x for x in a], v, "iteration")
    for i in range(-n, n):
        expect(t, a[i], v[i], "element %d" % i)
    t.check(a.valid(), "not valid")
    t.check(a.tags.tolist() == tags, lambda: "tags %r" % a.tags.tolist())
    for step in range(t.between(1, 3)):
        w, desc, f = gen_index(t, len(v), ("slice", "mask", "fancy") if step or not t.chance(0.2) else ("int",))
        t.note("index", desc)
        got = attempt(lambda: a[w])
        if f is None:
            t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "%s gave %r" % (desc, got))
            return
        if isinstance(got, Refused):
            raise got.err
        v = f(v)
        expect(t, got, v, desc)
        a = got
        if not isinstance(a, (AwkwardArray, numpy.ndarray)) or desc.startswith("int") or not isinstance(v, list):
            return
        t.check(len(a) == len(v), lambda: "length %d" % len(a))


def shaped(t):
    """two-dimensional tags and index"""
    Ts = anytypes(t)
    n, m = t.length(4), t.between(1, 3)
    v, tags, a = union(t, Ts, n * m, sequential=False)
    idx = a.index[:n * m].reshape(n, m)
    b = UnionArray(a.tags.reshape(n, m), idx, a.contents)
    want = [v[i * m:(i + 1) * m] for i in range(n)]
    t.note("shape", (n, m))
    expect(t, b, want, "elements")
    for i in range(n):
        expect(t, b[i], want[i], "row %d" % i)
        j = t.below(m)
        expect(t, b[i, j], want[i][j], "element %d, %d" % (i, j))
    w, desc, f = gen_index(t, n, ("slice", "mask"))
    expect(t, b[w], f(want), desc)
    if n:
        j = t.below(m)
        expect(t, b[:, j], [x[j] for x in want], "column %d" % j)
    if all(T[0] == "num" for T in Ts):
        expect(t, b + 1, [[x + 1 if not isinstance(x, bool) else int(x) + 1 for x in y] for y in want], "plus one", eq=close)


def nested(t):
    """indexes beyond the union go to the alternatives they touch"""
    k = t.between(1, 3)
    Ts = [("list", ("num", t.pick(NUM))) for _ in range(k)]
    v, tags, a = union(t, Ts)
    n = len(v)
    w, desc, f = gen_index(t, n, ("slice", "mask", "fancy"))
    t.assume(f is not None)
    s = gen_slice(t, 3)
    t.note("index", desc, s)
    t.assume(s.step is None or s.step > 0 or True)
    expect(t, a[w, s], [x[s] for x in f(v)], "tail slice")
    if n and v and min(len(x) for x in f(v) or [[]]) > 0:
        j = t.below(min(len(x) for x in f(v)))
        expect(t, a[w, j], [x[j] for x in f(v)], "tail integer %d" % j)
    if n:
        i = t.below(n)
        expect(t, a[i, s], v[i][s], "integer and tail")


def columns(t):
    """column selection of unions of records"""
    k = t.between(1, 3)
    common = NAMES[:t.between(1, 2)]
    Ts = []
    for _ in range(k):
        names = list(common) + [x for x in NAMES[2:4] if t.chance(0.4)]
        t.shuffle(names)
        Ts.append(("rec", tuple((nm, gen_type(t, t.below(2), ("num", "list", "str", "opt", "rec", "obj"), NUMS)) for nm in names)))
    v, tags, a = union(t, Ts, lay=Layout(frozenset(["indexed", "chunked", "virtual", "view", "npstride", "boolmask", "scatter", "gap", "indexmask"]), p=0.25))
    t.assume("chunked" not in t.features or all(len(c) > 0 for c in a.contents))
    t.check(set(a.columns) >= set(common), lambda: "columns %r" % a.columns)
    t.check(sorted(a.columns) == sorted(set(nm for T in Ts for nm, _ in T[1])), lambda: "columns %r" % a.columns)
    c = t.pick(common)
    w, desc, f = gen_index(t, len(v), ("slice", "mask", "fancy"))
    t.assume(f is not None)
    t.note("column", c, "index", desc)
    expect(t, a[c], [x[c] for x in v], "column")
    expect(t, a[w][c] if t.flag() else a[c][w], [x[c] for x in f(v)], "column of the selection")
    cs = list(common)
    expect(t, a[cs], [dict((nm, x[nm]) for nm in cs) for x in v], "columns")
    expect(t, getattr(a, c), [x[c] for x in v], "attribute")
    used = set(tags)
    for other in NAMES[2:4]:
        here = [other in dict(Ts[g][1]) for g in used]
        if not here:
            continue
        got = attempt(lambda: a[other])
        if all(here):
            expect(t, got, [x[other] for x in v], "column of every alternative in use")
        else:
            t.check(isinstance(got, Refused), lambda: "column %s, which some elements do not have, gave %r" % (other, tolist(got)))


OPS = [("+", lambda x, y: x + y, numpy.add), ("-", lambda x, y: x - y, numpy.subtract), ("*", lambda x, y: x * y, numpy.multiply), ("<", lambda x, y: x < y, numpy.less), ("==", lambda x, y: x == y, numpy.equal), ("maximum", max, numpy.maximum)]


def arithmetic(t):
    """ufuncs of unions with scalars, arrays and unions"""
    k = t.between(1, 3)
    kind = t.pick(["num", "num", "list", "mixed", "rec"])
    dts = ["int64", "float64", "int32"]

    def alt(i):
        nm = ("num", t.pick(dts))
        if kind == "list" or (kind == "mixed" and i % 2):
            return ("list", nm)
        if kind == "rec":
            return ("rec", (("x", nm), ("y", ("num", t.pick(dts)))))
        return nm
    Ts = [alt(i) for i in range(k)]
    v, tags, a = union(t, Ts, lay=Layout(frozenset(["indexed", "virtual", "npstride", "scatter", "gap", "view", "chunked"]), p=0.25))
    n = len(v)
    name, f, uf = t.pick(OPS[:3] if kind == "rec" else OPS)             # tables are compared as a whole
    t.note("operation", name)

    def up(x, y):
        if isinstance(x, list) and isinstance(y, list):
            return [f(p, q) for p, q in zip(x, y)]
        if isinstance(x, list):
            return [f(p, y) for p in x]
        if isinstance(y, list):
            return [f(x, q) for q in y]
        if isinstance(x, dict):
            return dict((m, f(x[m], y[m] if isinstance(y, dict) else y)) for m in x)
        if isinstance(y, dict):
            return dict((m, f(x, y[m])) for m in y)
        return f(x, y)
    how = t.below(5)
    if how == 0:
        s = t.pick([2, 0.5, -3])
        other, w = s, [s] * n
    elif how == 1:
        w = [t.below(9) - 4 for _ in range(n)]
        other = numpy.array(w, dtype=t.pick(["int64", "float64"]))
    elif how == 2:
        other, w = a, v
    elif how == 3 and kind == "num":
        w, _, other = union(t, [("num", t.pick(dts)) for _ in range(t.between(1, 3))], n)
    elif how == 3 and kind in ("list", "mixed"):
        # another union whose lists have the same lengths
        j = t.between(1, 3)
        w = [[t.below(9) for _ in x] if isinstance(x, list) else t.below(9) for x in v]
        islist = [isinstance(x, list) for x in v]
        b = [t.below(2) + (2 if x else 0) for x in islist]
        per = [[x for x, g in zip(w, b) if g == i] for i in range(4)]
        other = UnionArray.fromtags(b, [build(t, ("num", "int64"), per[0], Layout(p=0), 0), build(t, ("num", "float64"), per[1], Layout(p=0), 0), build(t, ("list", ("num", "int64")), per[2], Layout(p=0.3), 0), build(t, ("list", ("num", "int32")), per[3], Layout(p=0.3), 0)])
        t.note("other", describe(other))
    else:
        w = [t.below(9) - 4 for _ in range(n)]
        other = build(t, ("num", "int64"), w, Layout(frozenset(["indexed", "virtual", "npstride"]), p=0.4), wrap=1)
        t.note("other", describe(other))
    flip = t.flag()
    got = uf(other, a) if flip else uf(a, other)
    want = [up(y, x) if flip else up(x, y) for x, y in zip(v, w)]
    expect(t, got, want, "result", eq=close)
    expect(t, a, v, "the operand afterwards")
    if name != "==" and how == 0 and n:
        q, desc, g = gen_index(t, n, ("slice", "mask", "fancy"))
        if g is not None:
            expect(t, uf(a[q], other), [up(x, other) for x in g(v)], "result on a selection", eq=close)
    if kind == "num" and n:
        expect(t, -a, [-x for x in v], "negative", eq=close)
        q = numpy.modf(a * 1.5)
        expect(t, q[0], [math.modf(x * 1.5)[0] for x in v], "modf 0", eq=close)
        expect(t, q[1], [math.modf(x * 1.5)[1] for x in v], "modf 1", eq=close)


def reducing(t):
    """reducers of unions"""
    k = t.between(1, 3)
    kind = t.pick(["num", "num", "list", "mixed", "other"])
    dts = ("int64", "float64", "int32", "int16", "bool")

    def alt(i):
        nm = ("num", t.pick(dts))
        if kind == "list" or (kind == "mixed" and i == 0):
            return ("list", nm)
        if kind == "other":
            return t.pick([("str",), ("rec", (("x", ("num", "int64")),))]) if i == 0 else nm
        return nm
    if kind == "mixed":
        k = max(k, 2)
    Ts = [alt(i) for i in range(k)]
    v, tags, a = union(t, Ts, lay=Layout(frozenset(["indexed", "virtual", "npstride", "scatter", "gap", "chunked"]), p=0.25))
    t.assume("emptychunk" not in t.features)
    name = t.pick(["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero"])
    t.note("reducer", name)
    got = attempt(lambda: getattr(a, name)())

    def red(x):
        if name == "sum":
            return sum(x)
        if name == "prod":
            return math.prod(x)
        if name == "min":
            return min(x) if x else None
        if name == "max":
            return max(x) if x else None
        if name == "any":
            return any(x)
        if name == "all":
            return all(x)
        if name == "count":
            return len(x)
        return len([y for y in x if y])
    if kind == "num":
        if not v and name in ("min", "max"):
            return
        if isinstance(got, Refused):
            raise got.err
        t.evals += 1
        g, w = got.item() if hasattr(got, "item") else got, red(v)
        t.check(close(float(g), float(w), 1e-6), lambda: "%s: got %r, expected %r" % (name, g, w))
    elif kind == "list":
        if isinstance(got, Refused):
            raise got.err
        g = tolist(got)
        t.check(isinstance(g, list) and len(g) == len(v), lambda: "got %r" % (g,))
        for x, y in zip(v, g):
            w = red(x)
            t.evals += 1
            t.check(w is None or close(float(y), float(w), 1e-6), lambda: "%s of %r: got %r" % (name, x, y))
    else:
        if kind == "other" and not any(T[0] in ("str", "rec") for T in Ts):
            return
        t.check(isinstance(got, Refused) or name in ("count",), lambda: "%s of %s gave %r" % (name, kind, got))


def structure(t):
    """counts, regular, pad, fillna, boolmask, astype by alternative"""
    what = t.pick(["counts", "pad", "fillna", "boolmask", "astype", "regular", "concatenate", "numpy"])
    t.note("what", what)
    k = t.between(1, 3)
    P = Layout(frozenset(["indexed", "virtual", "npstride", "scatter", "gap", "boolmask", "indexmask", "view"]), p=0.25)
    if what == "counts":
        Ts = [t.pick([("list", ("num", "int64")), ("num", "float64"), ("list", ("rec", (("x", ("num", "int64")),))), ("rec", (("x", ("list", ("num", "int64"))),)), ("opt", ("list", ("num", "int64"))), ("list", ("list", ("num", "int64")))]) for _ in range(k)]
        v, tags, a = union(t, Ts, lay=P)
        expect(t, a.counts, [len(x) if isinstance(x, list) else -1 for x in v], "counts")
    elif what == "pad":
        Ts = [("list", ("num", t.pick(NUM))) for _ in range(k)]
        v, tags, a = union(t, Ts, lay=P)
        m, clip_ = t.below(5), t.flag()
        t.note("length", m, clip_)
        expect(t, a.pad(m, clip=clip_), [(x[:m] if clip_ else x) + [None] * (m - len(x)) for x in v], "pad")
    elif what == "fillna":
        Ts = [t.pick([("opt", ("num", t.pick(["int64", "float64"]))), ("num", "int64")]) for _ in range(k)]
        v, tags, a = union(t, Ts, lay=P)
        expect(t, a.fillna(77), [77 if x is None else x for x in v], "fillna")
        expect(t, a, v, "the array afterwards")
    elif what == "boolmask":
        Ts = [t.pick([("opt", ("num", "int64")), ("num", "int64"), ("opt", ("str",)), ("list", ("num", "int64"))]) for _ in range(k)]
        v, tags, a = union(t, Ts, lay=P)
        expect(t, a.boolmask(), [x is None for x in v], "boolmask")
        expect(t, a.boolmask(maskedwhen=False), [x is not None for x in v], "boolmask(False)")
        expect(t, a.ismasked, [x is None for x in v], "ismasked")
        expect(t, a[a.isunmasked], [x for x in v if x is not None], "a[a.isunmasked]")
    elif what == "astype":
        Ts = [("num", t.pick(["int64", "int32", "uint8"])) for _ in range(k)]
        v, tags, a = union(t, Ts, lay=P)
        got = a.astype("float64")
        expect(t, got, [float(x) for x in v], "astype", strict=True)
    elif what == "regular":
        m = t.below(4)
        dts = t.pick([("int64",), ("float64", "float32")])
        Ts = [("list", ("num", t.pick(dts))) for _ in range(k)]
        v, tags, a = union(t, Ts, lay=P)
        got = attempt(lambda: a.regular())
        if isinstance(got, Refused):
            t.check(len(set(len(x) for c in a.contents for x in tolist(c))) != 1 or any(len(c) == 0 for c in a.contents), lambda: "regular failed: %r" % got)
            return
        expect(t, got, v, "regular")
    elif what == "concatenate":
        Ts = anytypes(t)
        v1, _, a = union(t, Ts, lay=P)
        v2, _, b = union(t, Ts if t.flag() else anytypes(t), lay=P)
        expect(t, UnionArray.concatenate([a, b]), v1 + v2, "concatenate")
    else:
        Ts = [("num", t.pick(NUMS)) for _ in range(k)]
        v, tags, a = union(t, Ts, lay=P)
        got = numpy.array(a)
        t.check(same(got.tolist(), v) or (len(set(isinstance(x, bool) for x in v)) > 1), lambda: "numpy.array: %r, expected %r" % (got, v))


def invalid(t):
    """tags or indexes that point nowhere"""
    Ts = anytypes(t)
    v, tags, a = union(t, Ts, lay=Layout(frozenset(["indexed", "npstride", "scatter", "gap", "boolmask"]), p=0.2))
    n = len(v)
    tg, ix, cs = a.tags.astype("int64"), a.index.astype("int64").copy(), list(a.contents)
    how = t.pick(["tag too large", "index too large", "negative tag", "negative index", "short index", "fromtags tag", "fromtags short content", "float tags", "float index", "shape", "no contents"])
    t.note("how", how)
    if how in ("short index",) and n == 0 or (how not in ("float tags", "float index", "no contents", "shape", "short index") and n == 0):
        t.assume(False)
    p = t.below(n) if n else 0
    if how == "tag too large":
        tg[p] = len(cs) + t.below(3)
        make = lambda: UnionArray(tg, ix, cs)
    elif how == "index too large":
        ix[p] = len(cs[tg[p]]) + t.below(3)
        make = lambda: UnionArray(tg, ix, cs)
    elif how == "negative tag":
        tg[p] = -1 - t.below(2)
        make = lambda: UnionArray(tg, ix, cs)
    elif how == "negative index":
        ix[p] = -1 - t.below(2)
        make = lambda: UnionArray(tg, ix, cs)
    elif how == "short index":
        ix = ix[:n - 1 - t.below(n)] if n else ix
        make = lambda: UnionArray(tg, ix, cs)
    elif how == "fromtags tag":
        tg[p] = len(cs)
        make = lambda: UnionArray.fromtags(tg, cs)
    elif how == "fromtags short content":
        g = int(tg[p])
        c = int((tg == g).sum())
        cs[g] = cs[g][:c - 1 - t.below(c)]
        make = lambda: UnionArray.fromtags(tg, cs)
    elif how == "float tags":
        make = lambda: UnionArray(tg.astype(float), ix, cs)
    elif how == "float index":
        make = lambda: UnionArray(tg, ix.astype(float), cs)
    elif how == "shape":
        make = lambda: UnionArray(tg, ix.reshape(-1, 1), cs)
    else:
        make = lambda: UnionArray(tg, ix, [])
    b = attempt(make)
    if isinstance(b, Refused):
        t.check(isinstance(b.err, (ValueError, TypeError)), lambda: "raised %r" % b)
        return
    t.check(not b.valid(), "valid() says so")
    use, f = t.pick([("tolist", lambda: b.tolist()), ("slice", lambda: b[0:1]), ("integer", lambda: b[0]), ("mask", lambda: b[numpy.zeros(len(b), dtype=bool)]), ("ufunc", lambda: numpy.isnan(b)), ("iteration", lambda: list(b)), ("counts", lambda: b.counts), ("boolmask", lambda: b.boolmask()), ("issequential", lambda: b.issequential)])
    t.note("use", use)
    got = attempt(f)
    t.check(isinstance(got, Refused) and isinstance(got.err, (ValueError, TypeError, IndexError)), lambda: "%s gave %r" % (use, got))


def reassigning(t):
    """what is assigned to tags, index or contents is what is used"""
    Ts = [("num", t.pick(NUM)) for _ in range(t.between(1, 3))]
    v, tags, a = union(t, Ts, sequential=False)
    vals = [tolist(c) for c in a.contents]
    ix = a.index.tolist()
    t.evals += 1
    seq = all([ix[i] for i in range(len(tags)) if tags[i] == g] == list(range(tags.count(g))) for g in set(tags))
    t.check(a.issequential == seq, lambda: "issequential %r" % a.issequential)
    if t.flag():
        str(a), a.dtype, a.type
    which = t.pick(["tags", "index", "contents"])
    t.note("assign", which)
    b = a.copy()
    if which == "tags":
        new = [g if len(vals[h]) <= i else h for g, h, i in ((g, t.below(len(vals)), i) for g, i in zip(tags, ix))]
        b.tags = numpy.array(new, dtype="int64")
        want = [vals[g][i] for g, i in zip(new, ix)]
    elif which == "index":
        new = [t.below(len(vals[g])) for g in tags]
        b.index = numpy.array(new, dtype="int64")
        want = [vals[g][i] for g, i in zip(tags, new)]
    else:
        new = [numpy.array([x + 0.5 for x in c], dtype="float64") for c in vals]
        b.contents = new
        want = [new[g][i].item() for g, i in zip(tags, ix)]
        if len(want):
            t.check(b.dtype == numpy.dtype("float64"), lambda: "dtype %s" % b.dtype)
    expect(t, b, want, "after assigning %s" % which)
    expect(t, b[::-1], want[::-1], "reversed after assigning %s" % which)
    expect(t, a, v, "the original")


def mixed(dts):
    """a dtype for numbers of all of these dtypes"""
    kinds = set(d.kind for d in dts)
    if kinds <= set("iu") or len(kinds) == 1 and kinds <= set("bfc"):
        return numpy.result_type(*dts)
    if kinds <= set("iuf"):
        return numpy.dtype("float64")
    if kinds <= set("iufc"):
        return numpy.dtype("complex128")
    return numpy.dtype(object)


def mixtures(t):
    """the dtype of alternatives that are all numbers, and the Numpy array of them"""
    pool = t.pick([["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"], ["float16", "float32", "float64"], ["complex64", "complex128"], ["int8", "int16", "float32", "float64", "uint64", "int64"],
                   ["int64", "float32", "complex64", "complex128", "float64"], ["bool"], ["bool", "int64", "float64", "complex64"], ["uint8", "uint16", "uint32", "uint64"], ["int8", "uint8"], ["U3", "int64"], ["S2", "U3"]])
    dts = [numpy.dtype(t.pick(pool)) for _ in range(t.between(1, 4))]

    def num(d):
        x = t.below(200) - 100
        if d.kind in "u":
            x = abs(x)
        if d.kind in "iu" and t.chance(0.3):
            x = t.pick([numpy.iinfo(d).min, numpy.iinfo(d).max, numpy.iinfo(d).max - 1])
        return str(x)[:3] if d.kind == "U" else str(x)[:2].encode() if d.kind == "S" else x / 2.0 if d.kind == "f" else complex(x, 3) if d.kind == "c" else x % 2 == 0 if d.kind == "b" else x
    pools = [numpy.array([num(d) for _ in range(t.between(1, 4))], dtype=d) for d in dts]
    n = t.length(6)
    tags = [t.below(len(dts)) for _ in range(n)]
    index = [t.below(len(pools[g])) for g in tags]
    a = UnionArray(tags, index, pools)
    t.note("dtypes", [str(d) for d in dts], "tags", tags, "index", index, "contents", [p.tolist() for p in pools])
    t.nontrivial = n >= 3 and len(set(tags)) >= 2
    want = mixed(dts)
    t.check(a.dtype == want, lambda: "dtype %s, expected %s" % (a.dtype, want))
    plainvals = [pools[g][i] for g, i in zip(tags, index)]
    expect(t, a, [x.item() for x in plainvals], "elements")
    got = numpy.array(a)
    t.check(got.dtype == want, lambda: "numpy.array has dtype %s, expected %s" % (got.dtype, want))
    expect(t, got, [x.astype(want).tolist() if want != object else x.item() for x in plainvals], "numpy.array")
    if n:
        k = t.between(0, n)
        b = UnionArray.fromtags(numpy.array(tags), [p[[i for g, i in zip(tags, index) if g == j]] for j, p in enumerate(pools)])
        t.check(b.dtype == want, "dtype of the same union from its tags alone")
        expect(t, numpy.array(b), got.tolist(), "numpy.array of the same union from its tags alone")


def many(t):
    """more alternatives than fit in the usual type of tags"""
    k = t.pick([126, 127, 128, 129, 130, 200, 255, 256, 257, 300])
    lists = t.pick([0, 3, 7])
    contents, pools = [], []
    for i in range(k):
        if lists and i % lists == 0:
            pools.append([[i], [], [i, i + 1]])
            contents.append(JaggedArray.fromcounts([1, 0, 2], numpy.array([i, i, i + 1])))
        else:
            pools.append([i, -i, i + 0])
            contents.append(numpy.array(pools[-1]))
    n = t.between(1, 12)
    tags = [t.pick([k - 1, k - 2, 127, 128, 255, 0, t.below(k)]) % k for _ in range(n)]
    index = [t.below(3) for _ in range(n)]
    v = [pools[g][i] for g, i in zip(tags, index)]
    dt = t.pick([None, "int64", "uint16", "int32", "uint64"])
    a = UnionArray(tags if dt is None else numpy.array(tags, dtype=dt), index, contents)
    t.note(k, "alternatives, tags", tags, "index", index)
    t.nontrivial = n >= 3
    t.check(a.tags.tolist() == tags, lambda: "tags %r" % a.tags.tolist())
    expect(t, a, v, "elements")
    for i in range(n):
        expect(t, a[i], v[i], "element %d" % i)
    for _ in range(2):
        w, desc, f = gen_index(t, len(v), ("slice", "mask", "fancy"))
        t.note("index", desc)
        if f is None:
            return
        a, v = a[w], f(v)
        expect(t, a, v, desc)
        if isinstance(a, UnionArray):
            expect(t, a.counts if lists else a + 1, [len(x) if isinstance(x, list) else -1 for x in v] if lists else [x + 1 for x in v], "counts" if lists else "plus one")
    if t.flag():
        a = UnionArray.fromtags(numpy.arange(k)[::-1], contents)
        expect(t, a, [p[0] for p in pools[::-1]], "fromtags")


SUBS = [
    Sub("mixtures", mixtures, 4000),
    Sub("many", many, 150),
    Sub("reading", reading, 7000),
    Sub("shaped", shaped, 2500),
    Sub("nested", nested, 2500),
    Sub("columns", columns, 3500),
    Sub("arithmetic", arithmetic, 6000),
    Sub("reducing", reducing, 4000),
    Sub("structure", structure, 5000),
    Sub("invalid", invalid, 3000),
    Sub("reassigning", reassigning, 2500),
]
