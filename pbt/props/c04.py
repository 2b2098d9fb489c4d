"""C04: tuples of indexes, jagged masks, jagged integer indexes and column selection."""
from .common import *
from .indexing import *

ID = "C04"
RULE = ("a case draws a jagged array (1..3 list levels over numbers, strings, records or options, gaps and disorder included) and a tuple "
        "of row indexes, a jagged mask/index or a column selection; non-trivial: at least 2 outer and 2 inner elements")

LAY = Layout(ALL - {"inner", "indexed", "chunked", "virtual", "sparse", "appendable"})


class Out(Exception):
    pass


def levels(T):
    return 1 + levels(T[1]) if T[0] == "list" else 0


def jtype(t, maxlevels=3, leafs=("num", "num", "str", "rec", "opt", "union", "tup")):
    T = gen_type(t, 1, (t.pick(leafs), "num"), NUMS[:5])
    while T[0] in ("union",) and any(x[0] == "list" for x in T[1]):
        T = T[1][0]
    for _ in range(t.between(1, maxlevels)):
        T = ("list", T)
    return T


def jag(t, T=None, lay=LAY, wrap=0, maxlen=5, special=False, p=0.35):
    if T is None:
        T = jtype(t)
    n = t.length(maxlen)
    values = gen_values(t, T, n, special)
    a = build(t, T, values, lay, wrap=wrap, special=special)
    t.note("type", tstr(T))
    t.note("array", describe(a))
    if n >= 2 and sum(len(v) for v in values) >= 2:
        t.nontrivial = True
    return T, values, a


# ------------------------------------------------------------------ tuples

def apply(v, items, where=None):
    """items of a tuple index applied level by level; `where` is the position in the arrays that iterate together"""
    if not items:
        return v
    x, rest = items[0], items[1:]
    if x[0] == "int":
        if not -len(v) <= x[1] < len(v):
            raise Out()
        return apply(v[x[1]], rest, where)
    if x[0] == "slice":
        return [apply(y, rest, where) for y in v[x[1]]]
    ii = x[1]
    if x[0] == "mask" and where is None and len(x[2]) != len(v):
        raise Out()
    if where is None:
        out = []
        for k, i in enumerate(ii):
            if not -len(v) <= i < len(v):
                raise Out()
            out.append(apply(v[i], rest, k))
        return out
    i = ii[where]
    if not -len(v) <= i < len(v):
        raise Out()
    return apply(v[i], rest, where)


def gen_item(t, lens, kind, fixedlen=None):
    """an item for a level whose lists have the lengths `lens`"""
    lo = min(lens) if lens else 0
    hi = max(lens) if lens else 0
    n = lo if t.chance(0.85) else hi
    if kind == "slice":
        return ("slice", gen_slice(t, hi))
    if kind == "int":
        if n == 0 or t.chance(0.07):
            return ("int", t.pick([hi, -hi - 1, hi + 2]))
        return ("int", gen_int(t, n))
    cnt = t.length(4) if fixedlen is None else fixedlen
    if n == 0:
        ii = [0] * cnt if t.chance(0.3) or fixedlen else []
    else:
        ii = [gen_int(t, n) for _ in range(cnt)]
    if kind == "mask":
        on = sorted(set(i % n for i in ii)) if n else []
        if fixedlen is None or len(on) == fixedlen:
            return ("mask", on, [i in on for i in range(n)])
    return ("array", ii)


def as_index(t, x):
    if x[0] == "int":
        return as_numpy_int(t, x[1])
    if x[0] == "slice":
        return x[1]
    if x[0] == "mask":
        return numpy.array(x[2], dtype=bool)
    w = numpy.array(x[1], dtype=t.pick(["int64", "int64", "int32", "int8"]))
    return w.tolist() if t.chance(0.2) and len(w) else w


def leaves(v):
    return sum(leaves(y) for y in v) if isinstance(v, list) else 1


def inner(vals):
    return [y for v in vals for y in v]


def tuples(t, T=None, lay=LAY, wrap=0):
    """tuples of indexes, applied level by level by the model"""
    T, values, a = jag(t, T, lay, wrap)
    want = [plain(v) for v in values]
    dims = levels(T) + 1 + (len(T[2]) if T[0] == "nd" else 0)         # no index reaches the regular dimensions of the elements of lists
    nitems = t.between(2, dims)
    items = []
    cur = [want]
    arr = None
    arrlast = False
    slices = 0
    shape = ()
    if T[0] == "nd":
        shape = T[2]
    for level in range(nitems):
        lens = [len(v) for v in cur]
        if level >= dims - len(shape):           # a regular dimension, known even if there is no element
            lens = [shape[level - dims + len(shape)]]
        kinds = [(4, "int"), (4 if (slices == 0 or level == 0 or (slices == 1 and items[0][0] == "slice")) else 0, "slice")]
        # arrays, and integers next to them, iterate together; Numpy rearranges dimensions if they are separated by a slice
        if arr is None and (level == 0 or all(x[0] == "slice" for x in items)):
            kinds += [(2, "array"), (1, "mask")]
        elif arr is not None and items[-1][0] in ("array", "mask"):
            kinds += [(2, "array"), (1, "mask")]
        k = t.wpick(kinds)
        x = gen_item(t, lens, k, arr if k in ("array", "mask") else None)
        if x[0] in ("array", "mask") and arr is None:
            arr = len(x[1])
        if x[0] == "slice" and level > 0:
            slices += 1
        if level >= dims - len(shape):
            t.assume(x[0] == "slice" or x[0] == "mask" or x[0] in ("int", "array") and all(-lens[0] <= i < lens[0] for i in ([x[1]] if x[0] == "int" else x[1])))
        items.append(x)
        t.feature(x[0])
        if x[0] == "slice":
            cur = inner([v[x[1]] for v in cur])
        elif x[0] == "int":
            cur = [v[x[1]] for v in cur if -len(v) <= x[1] < len(v)]
        else:
            cur = inner([[v[i] for i in x[1] if -len(v) <= i < len(v)] for v in cur])
    kinds = [x[0] for x in items]
    # array, integer, ..., slice: out of order in Numpy as well; integers before arrays collapse a dimension first
    if arr is not None:
        first = min(i for i, k in enumerate(kinds) if k in ("array", "mask"))
        t.assume("int" not in kinds[:first] or "slice" not in kinds[:first])
    where = tuple(as_index(t, x) for x in items)
    t.note("where", repr(where))
    try:
        ref = apply(want, items)
    except Out:
        ref = Out
    readings(t, a)
    obj = attempt(lambda: a[where])
    got = obj if isinstance(obj, Refused) else attempt(lambda: tolist(obj))
    if isinstance(got, Refused) and isinstance(got.err, NotImplementedError):
        raise Discard("not implemented")
    if ref is Out:
        t.feature("outofrange")
        t.assume(not shape or isinstance(got, Refused) or leaves(got))            # Numpy does not look at indexes if nothing is selected
        t.check(isinstance(got, Refused) and isinstance(got.err, IndexError),
                lambda: "an element that does not exist was selected: got %r instead of IndexError" % (got,))
        return
    if isinstance(got, Refused):
        t.fail("a[%r] raised %r, expected %r" % (where, got, ref))
    expect(t, got, ref, "a[%r]" % (where,))
    structure(t, obj, ref, "a[%r]" % (where,))


def wrapped(t):
    """tuples of indexes through every wrapper, of arrays with regular dimensions as well"""
    T = ("nd", t.pick(NUMS[:5]), tuple(t.between(1, 3) for _ in range(t.between(1, 2)))) if t.chance(0.6) else ("num", t.pick(NUMS[:5]))
    for _ in range(t.between(0 if T[0] == "nd" else 1, 2)):
        T = ("list", T)
    tuples(t, T, Layout(p=0.5) if T[0] == "nd" else LAY, t.between(1, 2))


# ------------------------------------------------------------------ jagged indexes

def jindex(t, v, lev, mask):
    """index of the same structure as v down to `lev` list levels, and the selected values"""
    if lev == 1:
        if mask:
            m = [t.flag() for _ in v]
            return m, [y for y, b in zip(v, m) if b]
        ii = [gen_int(t, len(v)) for _ in range(t.length(4))] if len(v) else []
        return ii, [v[i] for i in ii]
    pairs = [jindex(t, y, lev - 1, mask) for y in v]
    return [p[0] for p in pairs], [p[1] for p in pairs]


def jagged(t):
    """jagged masks and jagged integer arrays, also at inner levels"""
    T, values, a = jag(t)
    want = [plain(v) for v in values]
    L = levels(T)
    lev = t.between(1, L)
    mask = t.flag()
    pairs = [jindex(t, v, lev, mask) for v in want]
    index, ref = [p[0] for p in pairs], [p[1] for p in pairs]
    IT = ("num", "bool" if mask else t.pick(["int64", "int32", "int8"]))
    for _ in range(lev):
        IT = ("list", IT)
    bad = not mask and lev == 1 and t.chance(0.12)
    if bad:
        rows = [k for k in range(len(index))]
        t.assume(rows)
        k = t.pick(rows)
        index[k] = list(index[k])
        n = len(want[k])
        index[k].insert(t.below(len(index[k]) + 1), t.pick([n, n + 1, -n - 1, -n - 2]))
    ilay = Layout(LAY.allow - {"npstride"}) if t.flag() else Layout([])
    w = build(t, IT, index, ilay, wrap=0)
    t.note("index", describe(w))
    t.feature("mask" if mask else "index")
    if lev == 2:
        t.feature("deep")
    if bad:
        got = attempt(lambda: tolist(a[w]))
        t.check(isinstance(got, Refused) and isinstance(got.err, IndexError),
                lambda: "jagged index out of range gave %r" % (got,))
        return
    readings(t, a)
    readings(t, w)
    got = a[w]
    structure(t, got, ref, "a[jagged %s]" % ("mask" if mask else "index"))
    expect(t, got, ref, "a[jagged %s]" % ("mask" if mask else "index"))
    expect(t, got.counts, [len(v) for v in ref], "counts of the selection")
    expect(t, a, want, "array after selection")


def misfit(t):
    """jagged masks and indexes whose lists do not line up with the array's"""
    T, values, a = jag(t)
    want = [plain(v) for v in values]
    L = levels(T)
    lev = t.between(1, L)
    mask = t.flag()
    index = [jindex(t, v, lev, mask)[0] for v in want]
    # level 0 is the number of rows; a mask's lists are matched to the innermost level, an index's lists only above it
    where = t.below(lev + 1 if mask else lev)
    lists = [index]
    for _ in range(where):
        lists = [y for x in lists for y in x]
    how = t.pick(["move", "move", "drop", "add"]) if len(lists) >= 2 else t.pick(["drop", "add"])
    full = [i for i, x in enumerate(lists) if len(x)]
    t.assume(full)
    i = t.pick(full)
    if how == "move":
        j = t.pick([k for k in range(len(lists)) if k != i])
        lists[j].append(lists[i].pop())
    elif how == "drop":
        lists[i].pop(t.below(len(lists[i])))
    else:
        lists[i].append(lists[i][t.below(len(lists[i]))])
    IT = ("num", "bool" if mask else t.pick(["int64", "int32", "int8"]))
    for _ in range(lev):
        IT = ("list", IT)
    w = build(t, IT, index, Layout(LAY.allow - {"npstride"}) if t.flag() else Layout([]), wrap=0)
    t.note("index", describe(w))
    t.note("index values", index)
    t.feature("%s %s at level %d of %d" % ("mask" if mask else "index", how, where, lev))
    got = attempt(lambda: tolist(a[w]))
    t.check(isinstance(got, Refused) and isinstance(got.err, (ValueError, IndexError)),
            lambda: "a jagged %s whose lists do not line up with the array's gave %r" % ("mask" if mask else "index", got))


def comparison(t):
    """a mask computed from the array itself filters it"""
    T = ("list", ("num", t.pick(NUMS[:5])))
    for _ in range(t.between(0, 1)):
        T = ("list", T)
    lay = Layout(ALL - {"appendable"})
    n = t.length(5)
    values = gen_values(t, T, n)
    S = T[1]
    a = build(t, T, values, lay.without("indexed", "chunked", "virtual"), wrap=t.below(2))
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.nontrivial = n >= 2
    want = [plain(v) for v in values]
    cut = t.below(5)

    def ref(v):
        return [ref(y) if isinstance(y, list) else y for y in v if isinstance(y, list) or y > cut]
    t.note("cut", cut)
    readings(t, a)
    got = attempt(lambda: a[a > cut])
    expect(t, got, ref(want), "a[a > %d]" % cut)
    structure(t, got, ref(want), "a[a > %d]" % cut)


# ------------------------------------------------------------------ columns

def columns(t):
    """column selection, and its commuting with row selections and jagged masks"""
    R = gen_type(t, 2, ("rec", "num", "list"), NUMS[:3]) if False else ("rec", tuple((n, gen_type(t, t.below(2), ("num", "list", "str", "rec"), NUMS[:3])) for n in NAMES[:t.between(2, 3)]))
    T = R
    outer = t.pick(["", "list", "list", "listlist", "opt", "listopt"])
    if outer.endswith("opt"):
        T = ("opt", T)
    for _ in range(outer.count("list")):
        T = ("list", T)
    T, values, a = jag_any(t, T)
    want = [plain(v) for v in values]
    names = [n for n, _ in R[1]]

    def proj(v, f):
        if v is None:
            return None
        if isinstance(v, dict):
            return f(v)
        return [proj(y, f) for y in v]
    if t.flag():
        c = t.pick(names)
        sel, f = c, (lambda d: d[c])
    else:
        cs = t.shuffle(names)[:t.between(1, len(names))]
        sel, f = cs, (lambda d: dict((k, d[k]) for k in cs))
    t.note("columns", sel)
    ref = [proj(v, f) for v in want]
    b = a[sel]
    expect(t, b, ref, "a[%r]" % (sel,))
    w, what, fn = gen_index(t, len(want), ("slice", "mask", "fancy"))
    t.note("row index", what)
    if fn is not None:
        expect(t, a[w][sel], fn(ref), "rows then columns")
        expect(t, b[w], fn(ref), "columns then rows")
        t.nontrivial = len(want) >= 2
        if outer.startswith("list") and outer == "list":
            m = [[t.flag() for _ in v] for v in want]
            j = JaggedArray.fromiter(m) if any(m) else None
            if j is not None and not isinstance(a, (VirtualArray, ChunkedArray, IndexedArray)):
                r = [[y for y, z in zip(v, mm) if z] for v, mm in zip(ref, m)]
                expect(t, a[j][sel], r, "jagged mask then columns")
                expect(t, b[j], r, "columns then jagged mask")


def jag_any(t, T):
    return sample(t, T=T, wrap=t.below(2), maxlen=5, lay=Layout(ALL - {"longcol"}))


SUBS = [Sub("tuples", tuples, 40000), Sub("wrapped", wrapped, 15000), Sub("jagged", jagged, 24000), Sub("misfit", misfit, 10000), Sub("comparison", comparison, 12000), Sub("columns", columns, 12000)]
