"""C24: column assignment and deletion through every wrapper."""
from .common import *
from .c14 import LRU, Minimal, Never

ID = "C24"
RULE = ("a case builds an array of records (lists, options and unions of them) in any layout and performs 1 to 5 assignments and deletions, some of which do not fit; "
        "the array is compared with a list of dicts after each one; non-trivial: at least 2 records and a column assigned")

LAY = [x for x in ALL if x not in ("view", "chunked", "appendable", "sparse", "longcol")] + ["nodup"]
NEW = ["p", "q", "r", "x"]


# ------------------------------------------------------------------ where the records are

def rec(t):
    names = t.shuffle(["x", "y", "z"])[:t.between(1, 3)]
    return ("rec", tuple((n, gen_type(t, t.below(2), ("num", "list", "str", "opt", "rec", "obj"), NUMS[:4])) for n in names))


def where(t, depth, inopt=False, union=True):
    k = t.wpick([(4, "rec"), (3 if depth > 0 else 0, "list"), (0 if inopt else 2, "opt"), (1 if union else 0, "union")])
    if k == "rec":
        return rec(t)
    if k == "list":
        return ("list", where(t, depth - 1, union=union))
    if k == "opt":
        return ("opt", where(t, depth, True, False))
    T1, T2 = rec(t), rec(t)
    if wanttype(T1) == wanttype(T2):
        return T1
    if depth > 0 and t.chance(0.3):
        T1, T2 = ("list", T1), ("list", T2)
    return ("union", (T1, T2))


def lists(T):
    if T[0] == "list":
        return 1 + lists(T[1])
    if T[0] == "opt":
        return lists(T[1])
    if T[0] == "union":
        return lists(T[1][0])
    return 0


class All(object):
    """one value for everything below"""

    def __init__(self, v):
        self.v = v


def wtype(t, T, C, stop):
    """the type of a column for records in T that is broadcast through all but `stop` levels of lists; options may be dropped"""
    if T[0] == "rec":
        return C
    if T[0] == "list":
        return C if stop == 0 else ("list", wtype(t, T[1], C, stop - 1))
    if T[0] == "union":
        return wtype(t, T[1][0], C, stop)
    W = wtype(t, T[1], C, stop)
    return ("opt", W) if W[0] not in ("opt", "union") and t.flag() else W


def wvalue(t, T, v, W, C, stop, special):
    """a value of type W for records in v"""
    if T[0] == "opt":
        if W[0] == "opt" and W is not C:
            if v is None:
                return None
            W = W[1]
        elif v is None:
            return gen_value(t, W, special, 2)
        return wvalue(t, T[1], v, W, C, stop, special)
    if T[0] == "union":
        return wvalue(t, T[1][v.tag], v.val, W, C, stop, special)
    if T[0] == "list" and stop > 0:
        return [wvalue(t, T[1], y, W[1], C, stop - 1, special) for y in v]
    return gen_value(t, W, special, 2)


def put(T, v, name, w, stop):
    if T[0] == "opt":
        return None if v is None else put(T[1], v, name, w, stop)
    if T[0] == "union":
        return U(v.tag, put(T[1][v.tag], v.val, name, w, stop))
    if T[0] == "list":
        return [put(T[1], y, name, z, stop - 1) for y, z in zip(v, w)] if stop > 0 else [put(T[1], y, name, w, 0) for y in v]
    out = dict(v)
    out[name] = w
    return out


def drop(T, v, name):
    if T[0] == "opt":
        return None if v is None else drop(T[1], v, name)
    if T[0] == "union":
        return U(v.tag, drop(T[1][v.tag], v.val, name))
    if T[0] == "list":
        return [drop(T[1], y, name) for y in v]
    return dict((n, x) for n, x in v.items() if n != name)


def get(T, v, name):
    if T[0] == "opt":
        return None if v is None else get(T[1], v, name)
    if T[0] == "union":
        return get(T[1][v.tag], v.val, name)
    if T[0] == "list":
        return [get(T[1], y, name) for y in v]
    return v[name]


def records(T, v):
    if T[0] == "opt":
        return [] if v is None else records(T[1], v)
    if T[0] == "union":
        return records(T[1][v.tag], v.val)
    if T[0] == "list":
        return [r for y in v for r in records(T[1], y)]
    return [v]


def fields(T):
    """the columns that all records have"""
    if T[0] == "rec":
        return [n for n, _ in T[1]]
    if T[0] == "union":
        return [n for n in fields(T[1][0]) if n in fields(T[1][1])]
    return fields(T[1])


def dropT(T, name):
    if T[0] == "rec":
        return ("rec", tuple((n, x) for n, x in T[1] if n != name))
    if T[0] == "union":
        return ("union", tuple(dropT(x, name) for x in T[1]))
    return (T[0], dropT(T[1], name))


def smallest(T):
    if T[0] == "rec":
        return len(T[1])
    if T[0] == "union":
        return min(smallest(x) for x in T[1])
    return smallest(T[1])


def setT(T, name, C):
    if T[0] == "rec":
        return ("rec", tuple((n, x) for n, x in T[1] if n != name) + ((name, C),))
    if T[0] == "union":
        return ("union", tuple(setT(x, name, C) for x in T[1]))
    return (T[0], setT(T[1], name, C))


# ------------------------------------------------------------------ arrays with records

class Top(object):
    """an array of records together with what its chunks are"""

    def __init__(self, t, T, values, lay, depth=2):
        self.t, self.T, self.values = t, T, values
        self.cuts = None
        k = t.wpick([(5, None), (2, "chunked"), (2, "virtual"), (2 if depth else 0, "indexed")])
        if k is None:
            self.array = build(t, T, values, lay, wrap=t.below(2))
        elif k == "chunked":
            t.feature("chunked")
            self.cuts = splits(t, len(values), 3)
            pairs = list(zip(self.cuts[:-1], self.cuts[1:]))
            self.array = ChunkedArray([build(t, T, values[i:j], lay, wrap=t.below(2)) for i, j in pairs], *([[j - i for i, j in pairs]] if t.flag() else []))
        elif k == "virtual":
            t.feature("virtual")
            state = lambda: build(t, T, values, lay.without("virtual"), wrap=0)
            first = state()
            cache = t.pick([None, {}, LRU(1), Minimal(), Never()])
            self.array = VirtualArray(lambda: first.deepcopy(), cache=cache, type=awkward0.type.fromarray(first) if t.flag() else None)
            self.cache = cache
        else:
            t.feature("indexed")
            order = t.shuffle(range(len(values)))
            where = [0] * len(values)
            for pos, i in enumerate(order):
                where[i] = pos
            inner = Top(t, T, [values[i] for i in order], lay, depth - 1)
            t.assume(inner.cuts is None)
            self.array = IndexedArray(numpy.array(where, dtype=t.pick(["i8", "i4", "u1"])), inner.array)

    def column(self, W, w, lay=None):
        lay = lay if lay is not None else Layout(p=0.3)
        if self.cuts is None:
            return build(self.t, W, w, lay, wrap=self.t.below(3))
        pairs = list(zip(self.cuts[:-1], self.cuts[1:]))
        return ChunkedArray([build(self.t, W, w[i:j], lay, wrap=self.t.below(2)) for i, j in pairs], *([[j - i for i, j in pairs]] if self.t.flag() else []))


def compare(t, a, T, values, what):
    expect(t, a, plain(values), what)
    rs = [r for v in values for r in records(T, v)]
    if rs:
        names = fields(T)
        if T[0] != "union" and not _unions(T):
            t.check(sorted(a.columns) == sorted(names), lambda: "%s: columns are %r instead of %r" % (what, a.columns, names))
        for n in names:
            expect(t, a[n], plain([get(T, v, n) for v in values]), "%s: column %r" % (what, n))
    if len(values):
        i = t.below(len(values))
        expect(t, a[i], plain(values[i]), "%s: item %d" % (what, i))
        expect(t, a[::-1], plain(values)[::-1], "%s, reversed" % what)


def used(T, values):
    """which alternatives of the union, if any, occur"""
    if T[0] == "union":
        return set(v.tag for v in values)
    if T[0] == "list":
        return used(T[1], [y for v in values for y in v])
    if T[0] == "opt":
        return used(T[1], [v for v in values if v is not None])
    return set()


def everywhere(T, values, top):
    cuts = top.cuts if top.cuts is not None else [0, len(values)]
    return all(used(T, values[i:j]) == _alts(T) for i, j in zip(cuts[:-1], cuts[1:]))


def _alts(T):
    if T[0] == "union":
        return {0, 1}
    if T[0] in ("list", "opt"):
        return _alts(T[1])
    return set()


def _unions(T):
    if T[0] == "union":
        return True
    if T[0] in ("list", "opt"):
        return _unions(T[1])
    return False


def gen_column(t, T, values, top, scalar=True):
    """-> (what to assign, its values per level, how many levels of lists they have, its type)"""
    C = gen_type(t, t.below(2), ("num", "str", "opt", "rec", "list", "nd", "obj"), NUMS[:5])
    special = t.flag()
    n = lists(T)
    if scalar and t.chance(0.15):
        C = ("num", t.pick(["int64", "float64", "bool"]))
        x = gen_num(t, C[1])
        return x, [x] * len(values), None, C
    stop = n if has(C, "list") or has(C, "opt") or t.flag() else t.between(0, n)
    if C[0] == "list" and stop < n:
        stop = n
    W = wtype(t, T, C, stop)
    w = [wvalue(t, T, v, W, C, stop, special) for v in values]
    return top.column(W, w), w, stop, C


def sequence(t):
    """histories of assignments and deletions that fit and that do not"""
    T = where(t, 2)
    n = t.length(6)
    values = gen_values(t, T, n, maxlen=3)
    lay = Layout(LAY, 0.3)
    top = Top(t, T, values, lay)
    a = top.array
    t.note("type", tstr(T))
    t.note("values", plain(values))
    t.note("array", describe(a))
    everything = len([r for v in values for r in records(T, v)])
    expect(t, a, plain(values), "before")
    nodel = set()
    for step in range(t.between(1, 4)):
        before = plain(values)
        rs = [r for v in values for r in records(T, v)]
        op = t.wpick([(6, "set"), (2, "several"), (3, "delete"), (2, "wrong"), (1, "evict")])
        if op == "evict":
            cache = getattr(top, "cache", None)
            if cache is not None:
                cache.clear()
        elif op in ("set", "several") and not everywhere(T, values, top):
            continue           # the alternatives that occur nowhere do not get the column
        elif op == "set":
            name = t.pick(NEW)
            what, w, stop, C = gen_column(t, T, values, top, top.cuts is None)
            t.note("set", name, describe(what), plain(w), stop)
            held = tolist(what) if isinstance(what, (numpy.ndarray, AwkwardArray)) else None
            a[name] = what
            T = setT(T, name, C)
            values = [put(T, v, name, z, 0 if stop is None else stop) for v, z in zip(values, w)]
            if held is not None:
                expect(t, what, held, "what was assigned")
            t.nontrivial = t.nontrivial or everything >= 2
        elif op == "several":
            names = t.shuffle(NEW)[:t.between(1, 3)]
            stop = t.between(0, lists(T))
            C = gen_type(t, 0, ("num", "str"), NUMS[:4])
            cols = []
            for name in names:
                W = wtype(t, T, C, stop)
                w = [wvalue(t, T, v, W, C, stop, False) for v in values]
                cols.append((name, top.column(W, w), w))
            t.assume(top.cuts is None)
            t.note("several", names, [describe(x[1]) for x in cols])
            right = Table.frompairs([("c%d" % i if t.flag() else "d%d" % i, x[1]) for i, x in enumerate(cols)], 0)
            a[list(names) if t.flag() else numpy.array(names)] = right
            for name, _, w in cols:
                T = setT(T, name, C)
                values = [put(T, v, name, z, stop) for v, z in zip(values, w)]
            t.nontrivial = t.nontrivial or everything >= 2
        elif op == "delete" and rs:
            names = fields(T)
            if not names or smallest(T) < 2 or not everywhere(T, values, top):
                continue
            gone = t.shuffle(names)[:t.between(1, min(2, smallest(T) - 1))]
            t.note("delete", gone)
            if len(gone) == 1 and t.flag():
                del a[gone[0]]
            else:
                del a[gone]
            for name in gone:
                T = dropT(T, name)
                values = [drop(T, v, name) for v in values]
        elif op == "wrong":
            wrong(t, a, T, values, top)
        if op in ("set", "several", "delete", "wrong", "evict"):
            compare(t, a, T, values, "after %s" % op)


def wrong(t, a, T, values, top):
    """assignments that do not fit raise and change nothing"""
    n = len(values)
    if n == 0 or top.cuts is not None:
        return
    k = t.pick(["keys", "index", "missing", "delpartial", "length", "counts", "second"])
    t.note("wrong", k)
    C = ("num", "int64")
    good = numpy.arange(n)

    def refuse(fn, *kinds):
        try:
            fn()
        except kinds or (ValueError, TypeError, KeyError, IndexError, AttributeError):
            return
        t.fail("%s assignment was accepted" % k)

    def setit(where, what):
        a[where] = what

    def delit(where):
        del a[where]

    hasrec = any(records(T, v) for v in values)
    if k == "keys":
        refuse(lambda: setit(["p", "q"], Table(good)), ValueError)
        refuse(lambda: setit(["p"], Table(good, good)), ValueError)
    elif k == "index":
        i = t.pick([0, slice(0, 1), [0], (0, "x"), None, 1.5, [], numpy.array([True] * n)])
        refuse(lambda: setit(i, good))
        refuse(lambda: delit(i))
    elif k == "missing":
        refuse(lambda: delit("nothing"), KeyError, ValueError) if hasrec else None
    elif k == "delpartial":
        if hasrec:
            names = list(next(r for v in values for r in records(T, v)))
            refuse(lambda: delit([names[0], "nothing"]), KeyError, ValueError)
    elif k in ("length", "second"):
        if T[0] == "rec" and type(a) is Table:
            return
        if isinstance(a, VirtualArray):
            return
        m = n + t.pick([1, 2, 3])
        if t.flag() and n > 3:
            m = n - 1
        bad = numpy.arange(m)
        if k == "length":
            refuse(lambda: setit("p", bad))
        else:
            refuse(lambda: setit(["q", "p"], Table.frompairs([("0", numpy.arange(n)), ("1", bad)], 0)))
    elif k == "counts":
        S = T[1] if T[0] == "opt" else T
        if S[0] != "list":
            return
        rows = [i for i, v in enumerate(values) if v is not None]
        if not rows:
            return
        stop = 1
        W = ("list", C)
        w = [[0] * (0 if v is None else len(v)) for v in values]
        i = t.pick(rows)
        if w[i] and t.flag():
            w[i] = w[i][:-1]
        else:
            w[i] = w[i] + [0]
        refuse(lambda: setit("p", top.column(W, w)))
        j = numpy.arange(n)
        refuse(lambda: setit(["q", "p"], Table.frompairs([("0", j), ("1", top.column(W, w))], 0)))


def views(t):
    """row views refuse and keep what they show; new columns of the original show up in later views"""
    T = rec(t)
    n = t.length(6, 1)
    values = gen_values(t, T, n)
    a = build(t, T, values, Layout(LAY, 0.3), wrap=0)
    s = slice(*[t.pick([None, -2, -1, 0, 1, 2, 3]) for _ in range(2)])
    v = a[s]
    name = t.pick(NEW)
    t.note("type", tstr(T))
    t.note("slice", s, name)
    for fn in (lambda: v.__setitem__(name, numpy.arange(len(v))), lambda: v.__delitem__(T[1][0][0])):
        try:
            fn()
        except ValueError:
            pass
        else:
            t.fail("a view of a table accepted a column or its removal")
    expect(t, v, plain(values[s]), "view")
    expect(t, a, plain(values), "table")
    w = gen_values(t, ("num", "int64"), n)
    v.base[name] = numpy.array(w, dtype="int64")
    values = [dict(x, **{name: y}) for x, y in zip(values, w)]
    expect(t, a, plain(values), "table after assigning to base")
    expect(t, a[s], plain(values[s]), "view after assigning to base")
    expect(t, a[s][name], w[s], "column of the view")
    t.nontrivial = n >= 2


def aliases(t):
    """another table with the same columns does not get the new one; selected columns stay what they were"""
    T = rec(t)
    n = t.length(6)
    values = gen_values(t, T, n)
    a = build(t, T, values, Layout(LAY, 0.3), wrap=0)
    names = [x for x, _ in T[1]]
    other = t.pick([lambda: Table.frompairs([(x, a[x]) for x in names], 0), lambda: a.copy(), lambda: a[names], lambda: a.deepcopy()])()
    held = [(x, a[x]) for x in names]
    name = t.pick(names + NEW)
    w = gen_values(t, ("list", ("num", "int64")), n)
    a[name] = build(t, ("list", ("num", "int64")), w, Layout(), wrap=1)
    expect(t, other, plain(values), "the other table")
    for x, c in held:
        expect(t, c, plain([v[x] for v in values]), "column taken before")
    if len(names) > 1 or name not in names:
        del a[names[0]]
        expect(t, other, plain(values), "the other table")
    t.nontrivial = n >= 2


def sparse(t):
    """columns of a sparse table: only zeros where it has no records"""
    n = t.length(8)
    pos = sorted(t.shuffle(range(n))[:t.below(n + 1)])
    extra = t.below(3)
    x = [t.between(-5, 5) for _ in range(len(pos) + extra)]
    a = SparseArray(n, numpy.array(pos, dtype=t.pick(["i8", "i4"])), Table(x=numpy.array(x, dtype="i8")))
    t.note("sparse", n, pos, x)

    def full(vals):
        out = [0] * n
        for p, v in zip(pos, vals):
            out[p] = v
        return out
    expect(t, a["x"], full(x), "column of a sparse table")
    for step in range(t.between(1, 3)):
        y = [t.between(-5, 5) for _ in pos]
        w = full(y)
        dt = t.pick(["i8", "f8", "i2"])
        what = build(t, ("num", dt), [numpy.dtype(dt).type(z).item() for z in w], Layout(p=0.3), wrap=1) if t.flag() else w
        others = [i for i in range(n) if i not in pos]
        name = t.pick(["x", "y"])
        cols = list(a.columns)
        if others and t.flag():
            bad = list(w)
            bad[t.pick(others)] = t.pick([1, -1])
            t.check(isinstance(attempt(lambda: a.__setitem__(name, numpy.array(bad))), Refused), "a value was assigned where the sparse table has no record")
        if t.chance(0.2):
            t.check(isinstance(attempt(lambda: a.__setitem__(name, numpy.zeros(n + 2, dtype="i8"))), Refused), "a column with another length was assigned")
        t.check(a.columns == cols, "a rejected column was kept")
        a[name] = what
        expect(t, a[name], w, "column assigned to a sparse table")
        if name != "x":
            expect(t, a["x"], full(x), "the other column of a sparse table")
        else:
            x = y
        for p, v in zip(pos, y):
            expect(t, a[p][name], v, "item of a sparse table")
    t.nontrivial = n >= 2 and len(pos) >= 1


def elements(t):
    """assigning at a jagged index or mask sets those elements in the (numeric) content and no others"""
    dt = t.pick(["int64", "float64", "int32"])
    n = t.length(5)
    values = gen_values(t, ("list", ("num", dt)), n, maxlen=4)
    a = build(t, ("list", ("num", dt)), values, Layout(["scatter", "gap", "idt", "longstops", "nodup"], 0.3), wrap=0)
    t.note("array", describe(a))
    lists = Layout(["scatter", "gap", "idt"], 0.3)
    misfit = t.chance(0.15) and n > 0
    ismask = t.flag()
    if ismask:
        pick = [[i for i in range(len(v)) if t.flag()] for v in values]
        marks = [[i in p for i in range(len(v))] for p, v in zip(pick, values)]
        if misfit:                      # one list of the mask is too long, another may be too short
            i, j = t.below(n), t.below(n)
            marks[i] = marks[i] + [True]
            if marks[j]:
                marks[j] = marks[j][:-1]
            misfit = [len(x) for x in marks] != [len(x) for x in values]
        where = build(t, ("list", ("num", "bool")), marks, lists, wrap=0)
    else:
        pick = [t.shuffle([i for i in range(len(v)) if t.flag()]) for v in values]
        marks = [[i - len(v) if t.flag() else i for i in p] for p, v in zip(pick, values)]
        if misfit:
            i = t.below(n)
            marks[i] = marks[i] + [t.pick((len(values[i]), -len(values[i]) - 1))]
        fit = [d for d in ("int8", "int16", "int32", "uint8", "uint16", "uint32", "uint64") if not any(y < 0 for x in marks for y in x) or d[0] == "i"]
        where = build(t, ("list", ("num", "int64" if t.flag() else t.pick(fit))), marks, lists, wrap=0)
    if ismask and n > 0 and n % 2 == 0 and t.chance(0.3):
        t.feature("shaped")
        a, where = [JaggedArray(x.starts.reshape(2, -1), x.stops[:n].reshape(2, -1), x.content) for x in (a, where)]
    t.note("where", describe(where))
    if misfit:
        t.feature("misfit")
        before = tolist(a)
        got = attempt(lambda: a.__setitem__(where, 5))
        t.check(isinstance(got, Refused) and isinstance(got.err, (ValueError, IndexError)), lambda: "assigning at an index that does not fit gave %r" % (got,))
        expect(t, a, before, "after a refused assignment")
        return
    if t.chance(0.3):
        x = gen_num(t, dt)
        new = [[x for _ in p] for p in pick]
        what = x
    else:
        new = [[gen_num(t, dt) for _ in p] for p in pick]
        flat = [y for x in new for y in x]
        what = numpy.array(flat, dtype=dt) if t.flag() else build(t, ("list", ("num", dt)), new, lists, wrap=0)
        if isinstance(what, JaggedArray) and len(flat) > 0 and t.chance(0.2):
            t.feature("misfit values")
            i, j = t.pick([k for k in range(n) if new[k]]), t.below(n)
            if i != j:
                moved = [list(x) for x in new]
                moved[j].append(moved[i].pop())
                before = tolist(a)
                got = attempt(lambda: a.__setitem__(where, JaggedArray.fromiter(moved).astype(dt)))
                t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "assigning lists of other lengths than the index gave %r" % (got,))
                expect(t, a, before, "after a refused assignment")
    want = [list(v) for v in values]
    for w, p, x in zip(want, pick, new):
        for i, y in zip(p, x):
            w[i] = y
    if len(a.starts.shape) == 2:
        want = [want[:n // 2], want[n // 2:]]
    held = tolist(where)
    a[where] = what
    expect(t, a, want, "after assigning at a jagged index")
    expect(t, where, held, "the index")
    t.nontrivial = sum(len(p) for p in pick) >= 2


def shapes(t):
    """columns of two-dimensional indexes, and those of Numpy structured arrays"""
    r, c = t.between(1, 3), t.between(1, 3)
    flat = t.flag()
    shape = (r * c,) if flat else (r, c)
    n = r * c + t.below(3)
    at = t.shuffle(list(range(n)))[:r * c]
    index = numpy.array(at, dtype=t.pick(("int64", "int32", "uint8"))).reshape(shape)
    xs, ys = [t.below(100) for _ in range(n)], [t.below(100) / 4.0 for _ in range(n)]
    structured = t.flag()
    base = numpy.array(list(zip(xs, ys)), dtype=[("x", "i8"), ("y", "f8")]) if structured else Table(x=numpy.array(xs), y=numpy.array(ys))
    rows = [{"x": x, "y": y} for x, y in zip(xs, ys)]
    kind = t.pick(("indexed", "masked", "jagged", "chunk", "indexedmasked")) if flat else "indexed"
    if kind == "indexed":
        a = IndexedArray(index, base)
    elif kind == "jagged":
        offs = [0, t.below(n + 1), n]
        a, at = JaggedArray.fromoffsets(offs, base), list(range(n))
    elif kind == "chunk":
        a, at = ChunkedArray([base]), list(range(n))
    elif kind == "masked":
        hole = [t.chance(0.3) for _ in range(n)]
        a, at = MaskedArray(hole, base), list(range(n))
    else:
        a = IndexedMaskedArray(numpy.array(at, dtype="int64"), base)
    name = t.pick(("x", "y")) if structured else t.pick(("x", "y", "z"))
    m = len(at)
    t.note("kind", kind, "structured" if structured else "table", name, tolist(index))
    t.nontrivial = m > 1
    if kind != "chunk" and t.chance(0.3):
        new = t.below(100)
        vals, what = [new] * m, new
    else:
        vals = [t.below(100) for _ in range(m)]
        what = numpy.array(vals)
        what = what.reshape(shape) if kind == "indexed" else JaggedArray.fromoffsets(offs, what) if kind == "jagged" else ChunkedArray([what]) if kind == "chunk" else what
    get = lambda p, k: [rows[i][k] for i in p]
    bad = t.chance(0.2)
    if bad:
        what = numpy.array([0] * (m + t.between(1, 2)))
        if kind == "jagged":
            what = JaggedArray.fromcounts([offs[1], len(what) - offs[1]], what)
        got = attempt(lambda: a.__setitem__(name, what))
        t.check(isinstance(got, Refused) and isinstance(got.err, (ValueError, TypeError)), lambda: "a column of another length gave %r" % (got,))
    elif structured and t.chance(0.2):
        got = attempt(lambda: a.__setitem__("nothing", what))
        t.check(isinstance(got, Refused), lambda: "a new field of a Numpy array gave %r" % (got,))
    else:
        a[name] = what
        for i, v in zip(at, vals):
            rows[i][name] = v
    for k in ("x", "y", "z"):
        if k in rows[at[0]] if at else False:
            want = get(at, k)
            if kind == "masked":
                want = [None if h else v for h, v in zip(hole, want)]
            if kind == "jagged":
                want = [want[:offs[1]], want[offs[1]:]]
            if not flat:
                want = [want[i * c:(i + 1) * c] for i in range(r)]
            expect(t, a[k], want, "column %r" % k)
    # nothing else in the content changed
    for k in ("x", "y"):
        full = [rows[i][k] for i in range(n)]
        got = tolist(base[k])
        t.check(all(got[i] == full[i] for i in range(n) if not (kind == "masked" and hole[i]) and (structured or k != name or i in at)), lambda: "content column %r is %r, expected %r" % (k, got, full))


SUBS = [Sub("shapes", shapes, 3000), Sub("elements", elements, 2400), Sub("sequence", sequence, 9600), Sub("views", views, 1600), Sub("aliases", aliases, 1600), Sub("sparse", sparse, 1600)]
