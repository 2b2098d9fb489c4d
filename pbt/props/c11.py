"""C11: tables are records; stateful comparison with a list of dicts."""
import keyword
import operator

from .common import *
from .indexing import gen_index, gen_slice

ID = "C11"
RULE = ("a case draws a table of 1..4 columns (numbers, strings, lists, optional values, nested records, in any layout, possibly of different lengths) and a "
        "history of slices, masks, fancy indexes, projections, assignments and deletions over a pool of tables and views; every table of the pool is compared "
        "with its list of dicts; non-trivial: at least 2 rows and one selection")

LAY = Layout(allow=ALL - {"sparse", "longcol"}, p=0.25)
NAMEPOOL = ("x", "y", "z", "n", "0", "1", "a b", u"\u00e9", "w2", "class")
COLT = (("num", "int64"), ("num", "float64"), ("str",), ("list", ("num", "int32")), ("opt", ("num", "int64")), ("nd", "int64", (2,)),
        ("rec", (("p", ("num", "int64")), ("q", ("num", "float64")))), ("tup", (("num", "int64"), ("str",))), ("list", ("rec", (("p", ("num", "int64")),))), ("bytes",))


class M(object):
    def __init__(self, names, cols, types, view=None, rowname="Row", rowstart=0):
        self.names, self.cols, self.types, self.view, self.rowname, self.rowstart = list(names), dict(cols), dict(types), view, rowname, rowstart

    def copy(self, **kw):
        out = M(self.names, self.cols, self.types, self.view, self.rowname, self.rowstart)
        for k, v in kw.items():
            setattr(out, k, v)
        return out

    def positions(self):
        if self.view is not None:
            return list(self.view)
        return list(range(min(len(self.cols[n]) for n in self.names))) if self.names else []

    def istuple(self):
        return self.rowname == "tuple" and self.names == [str(i) for i in range(len(self.names))]

    def row(self, i):
        if self.istuple():
            return tuple(plain(self.cols[n][i]) for n in self.names)
        return dict((n, plain(self.cols[n][i])) for n in self.names)

    def rows(self):
        return [self.row(i) for i in self.positions()]

    def column(self, n):
        return [plain(self.cols[n][i]) for i in self.positions()]


def make(t, lens=True, T=None, minlen=0):
    names = t.shuffle(NAMEPOOL)[:t.between(1, 4)]
    tup = t.chance(0.25)
    if tup:
        names = [str(i) for i in range(len(names))]
    n = t.length(7, minlen)
    cols, types, arrays = {}, {}, []
    for x in names:
        types[x] = T or t.pick(COLT)
        m = n + (t.below(3) if lens and t.chance(0.25) else 0)
        cols[x] = gen_values(t, types[x], m)
        arrays.append((x, build(t, types[x], cols[x], LAY, wrap=t.below(2))))
    how = t.below(4)
    rowname, rowstart = "Row", 0
    if tup:
        a = Table(*[y for _, y in arrays])
        rowname = "tuple"
    elif how == 0:
        rowstart = t.pick((0, 0, 3, 1000))
        a = Table.frompairs(arrays, rowstart=rowstart)
    elif how == 1:
        import collections
        a = Table(collections.OrderedDict(arrays))
    elif how == 2:
        rowname = "Point"
        a = Table.named("Point", **dict(arrays))
    else:
        a = Table()
        for x, y in arrays:
            a[x] = y
    return a, M(names, cols, types, None, rowname, rowstart)


def checkrow(t, row, m, pos, k=None):
    want = m.row(pos)
    expect(t, row, want, "row")
    n = t.pick(m.names)
    v = plain(m.cols[n][pos])
    expect(t, row[n], v, "row[%r]" % n)
    if n.isidentifier() and n not in ("_",):
        expect(t, getattr(row, n), v, "row.%s" % n)
    if n in ("0", "1", "2"):
        expect(t, getattr(row, "i" + n), v, "row.i" + n)
    t.check(row.columns == m.names and n in row and "absent" not in row, "columns of a row")
    t.check(isinstance(attempt(lambda: row["absent"]).err, ValueError), "absent column")
    names = t.shuffle(m.names)[:t.between(1, len(m.names))]
    sub = row[names]
    t.check(sub.columns == names, "columns of a projected row")
    for x in names:
        expect(t, sub[x], plain(m.cols[x][pos]), "row[%r][%r]" % (names, x))
    if m.rowname == "tuple":
        k = 0
        while str(k) in m.names:
            k += 1
        expect(t, list(row), [plain(m.cols[str(j)][pos]) for j in range(k)], "list(row)")
        t.check(len(row) == k, "len(row)")
    else:
        t.check(list(row) == m.names and len(row) == len(m.names), "iteration over a row")
    t.check(row == row and not (row != row), "row == row")
    checkdir(t, row, m.names, "row")
    t.check(isinstance(attempt(lambda: row.absent).err, AttributeError), "absent attribute")


def checkdir(t, x, names, what):
    """the columns that can be attributes are listed by dir(), which is what tab-completion asks for"""
    have = dir(x)
    for n in names:
        if n.isidentifier() and not keyword.iskeyword(n) and n.isascii():
            t.check(n in have, lambda: "column %r is not in dir(%s)" % (n, what))
        elif not n.isidentifier():
            t.check(n not in have, lambda: "column %r, which can't be an attribute, is in dir(%s)" % (n, what))


def check(t, a, m, deep=False):
    pos = m.positions()
    t.check(len(a) == len(pos), lambda: "len %d, expected %d" % (len(a), len(pos)))
    t.check(list(a.columns) == m.names, lambda: "columns %r, expected %r" % (a.columns, m.names))
    kinds = ["tolist", "column", "iter", "row", "unzip", "project", "attr", "contains", "repr"]
    for k in (kinds if deep else t.shuffle(kinds)[:3]):
        if k == "tolist":
            expect(t, a, m.rows(), "tolist")
        elif k == "repr":
            if pos and not m.istuple():
                i = t.below(len(pos))
                t.check(a.rowstart == m.rowstart, lambda: "rowstart %r" % (a.rowstart,))
                t.check(repr(a[i]) == "<%s %d>" % (m.rowname, pos[i] + m.rowstart), lambda: "repr of row %d is %r, expected row %d of the original" % (i, repr(a[i]), pos[i] + m.rowstart))
            str(a), repr(a)
        elif not m.names:
            continue
        elif k == "column":
            n = t.pick(m.names)
            got = tolist(a[n])
            if m.view is None:
                got = got[:len(pos)]        # a column can be longer than the table
            t.evals += 1
            t.check(same(got, m.column(n)), lambda: "column %r: %r, expected %r" % (n, got, m.column(n)))
        elif k == "attr":
            n = t.pick(m.names)
            if n.isidentifier():
                got = tolist(getattr(a, n))
                t.check(same(got[:len(pos)], m.column(n)), lambda: "attribute %s: %r" % (n, got))
            t.check(isinstance(attempt(lambda: a["absent"]).err, ValueError), "absent column")
            checkdir(t, a, m.names, "table")
            t.check(isinstance(attempt(lambda: a.absent).err, AttributeError), "absent attribute")
        elif k == "iter":
            expect(t, list(a), m.rows(), "iteration")
        elif k == "row" and pos:
            i = t.below(len(pos))
            j = i if t.flag() else i - len(pos)
            checkrow(t, a[j], m, pos[i])
        elif k == "unzip":
            got = [tolist(x)[:len(pos)] for x in a.unzip()]
            t.check(same(got, [m.column(n) for n in m.names]), lambda: "unzip: %r" % (got,))
        elif k == "project":
            names = t.shuffle(m.names)[:t.between(1, len(m.names))]
            w = names if t.flag() else numpy.array(names)
            got = a[w]
            sub = m.copy(names=names)
            t.check(list(got.columns) == names, "columns of a projection")
            expect(t, got, sub.rows(), "projection on %r" % (names,))


def select(t, a, m):
    pos = m.positions()
    where, desc, fn = gen_index(t, len(pos), ("slice", "mask", "fancy", "slice"))
    m.last = desc
    got = attempt(lambda: a[where])
    if fn is None:
        t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "%s of a table with %d rows gave %r" % (desc, len(pos), got))
        return None
    if isinstance(got, Refused):
        raise got.err
    return got, m.copy(view=fn(pos))


def history(t):
    """a pool of tables and views under random histories, against lists of dicts"""
    a, m = make(t, minlen=t.pick([0, 1, 3]))
    t.note("start", describe(a))
    pool = [(a, m)]
    log = []
    for _ in range(t.between(2, 9)):
        i = t.below(len(pool)) if t.chance(0.6) else len(pool) - 1
        a, m = pool[i]
        k = t.pick(("select", "select", "select", "project", "set", "del", "copy", "setscalar", "setmany", "rowname", "contents", "delmany"))
        log.append((k, i))
        if k == "select":
            got = select(t, a, m)
            log[-1] = (k, i, m.last)
            if got is not None:
                pool.append(got)
                if len(m.positions()) > 1:
                    t.nontrivial = True
        elif k == "project":
            if m.names:
                names = t.shuffle(m.names)[:t.between(1, len(m.names))]
                pool.append((a[names], m.copy(names=names)))
        elif k == "copy":
            pool.append((a.copy(), m.copy()))
        elif k in ("set", "setscalar"):
            n = t.pick(NAMEPOOL)
            if k == "set":
                T = t.pick(COLT)
                size = len(m.positions()) + (t.below(2) if t.chance(0.3) else 0)
                vals = gen_values(t, T, size)
                arr = build(t, T, vals, LAY, wrap=t.below(2))
            else:
                if not m.names:
                    continue
                T, arr = t.pick(((("num", "int64"), 5), (("num", "float64"), 2.5), (("num", "bool"), True)))
                vals = [arr] * len(m.positions())
            log[-1] = (k, i, n, describe(arr))
            if m.view is not None:
                got = attempt(lambda: a.__setitem__(n, arr))
                t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), "assigning to a view must raise ValueError, got %r" % (got,))
            else:
                a[n] = arr
                m.cols[n], m.types[n] = vals, T
                if n not in m.names:
                    m.names.append(n)
        elif k == "setmany":
            names = t.shuffle(NAMEPOOL)[:t.between(1, 3)]
            vals = [gen_values(t, ("num", "int64"), len(m.positions())) for _ in names]
            other = Table.frompairs([("c%d" % j, numpy.array(v, dtype=int)) for j, v in enumerate(vals)])
            log[-1] = (k, i, names)
            if m.view is not None:
                t.check(isinstance(attempt(lambda: a.__setitem__(names, other)), Refused), "assigning to a view")
            else:
                a[names] = other
                for n, v in zip(names, vals):
                    m.cols[n], m.types[n] = v, ("num", "int64")
                    if n not in m.names:
                        m.names.append(n)
        elif k in ("del", "delmany"):
            if not m.names:
                continue
            names = t.shuffle(m.names)[:1 if k == "del" else t.between(1, len(m.names))]
            log[-1] = (k, i, names)
            w = names[0] if k == "del" else names
            if m.view is not None:
                t.check(isinstance(attempt(lambda: a.__delitem__(w)), Refused), "deleting from a view")
            else:
                del a[w]
                m.names = [n for n in m.names if n not in names]
        elif k == "rowname":
            a.rowname = "Q"
            m.rowname = "Q"
        elif k == "contents" and m.view is None and m.names:
            a.contents = dict(a.contents)
        t.note("log", list(log))
        j = t.below(len(pool))
        check(t, pool[j][0], pool[j][1])
        check(t, pool[-1][0], pool[-1][1])
    for a, m in pool:
        check(t, a, m)


def views(t):
    """chains of selections only, deep comparison"""
    a, m = make(t, lens=t.flag(), minlen=t.pick([0, 2, 3, 4]))
    t.note("start", describe(a))
    chain = []
    for _ in range(t.between(1, 5)):
        got = select(t, a, m)
        chain.append(m.last)
        if got is None:
            continue
        a, m = got
        t.note("chain", list(chain))
        if len(m.positions()) > 1:
            t.nontrivial = True
    check(t, a, m, deep=True)
    b = t.pick((a.copy, a.deepcopy, lambda: a[:], lambda: a[::-1][::-1]))()
    expect(t, b, m.rows(), "copy")
    for _ in range(2):
        if m.names and m.positions():
            n = t.pick(m.names)
            where, desc, fn = gen_index(t, len(m.positions()), ("slice", "mask", "fancy", "int"))
            if fn is not None:
                expect(t, a[where][n], fn(m.column(n)), "t[%s][%r]" % (desc, n))
                got = tolist(a[n][:len(m.positions())][where])
                t.check(same(got, fn(m.column(n))), lambda: "t[%r][%s] gave %r" % (n, desc, got))


def fromview(t):
    """tables made with a view"""
    a, m = make(t, lens=False)
    n = len(m.positions())
    if t.flag():
        step = t.pick([1, 2, -1, -2, 3, -3])
        start = t.below(n) if n else 0
        most = 0 if n == 0 else (n - start + step - 1) // step if step > 0 else (start + -step) // -step
        length = t.below(most + 1)
        view = (start, step, length)
        pos = [start + step * i for i in range(length)]
    elif t.chance(0.2):
        view, pos = None, None
    else:
        pos = [t.below(n) for _ in range(t.length(6))] if n else []
        view = numpy.array(pos, dtype=t.pick(("int64", "int32", "uint8")))
    t.note("start", describe(a))
    t.note("view", view)
    b = Table.fromview(view, a)
    t.nontrivial = n > 1
    m2 = m.copy(view=pos)
    check(t, b, m2, deep=True)
    for _ in range(t.below(3)):
        got = select(t, b, m2)
        if got is not None:
            b, m2 = got
    check(t, b, m2, deep=True)


def nested(t):
    """projections through nested tables commute with row selections outside them"""
    T = ("rec", (("p", ("num", "int64")), ("r", ("rec", (("s", t.pick(COLT)), ("u", ("num", "float64")))))))
    T = ("rec", (("x", ("num", "int64")), ("n", T)))
    values = gen_values(t, T, t.length(7))
    a = build(t, T, values, LAY, wrap=0)
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.nontrivial = len(values) > 1
    paths = ((("x",), lambda v: v["x"]), (("n", "p"), lambda v: v["n"]["p"]), (("n", "r"), lambda v: v["n"]["r"]), (("n", "r", "s"), lambda v: v["n"]["r"]["s"]), (("n", "r", "u"), lambda v: v["n"]["r"]["u"]))
    path, fn = t.pick(paths)
    cur = values
    at = t.below(len(path) + 1)
    done = []
    b = a
    rows = False
    for j in range(len(path) + 1):
        if j == at and values:
            where, desc, ix = gen_index(t, len(values), ("slice", "mask", "fancy", "int"))
            if ix is not None:
                b = b[:len(values)] if len(b) > len(values) else b
                b = b[where]
                done.append(desc)
                rows = ix
        if j < len(path):
            b = b[path[j]] if t.flag() or not path[j].isidentifier() else getattr(b, path[j])
            done.append(path[j])
    t.note("path", done)
    if b is a:
        return
    want = [plain(fn(v)) for v in values]
    want = rows(want) if rows else want
    got = tolist(b)
    if isinstance(got, list) and isinstance(want, list) and not rows:
        got = got[:len(want)]
    t.evals += 1
    t.check(same(got, want), lambda: "%r: got %r, expected %r" % (done, got, want))


def numpycols(a):
    return all(type(x) is numpy.ndarray for x in a.contents.values())


def rowops(t):
    """operations on rows"""
    a, m = make(t, lens=False, T=t.pick((("num", "int64"), ("num", "float64"))), minlen=1)
    for _ in range(t.below(3)):
        got = select(t, a, m)
        if got is not None:
            a, m = got
    pos = m.positions()
    t.assume(len(pos) > 0)
    t.nontrivial = True
    t.note("start", describe(a))
    i, j = t.below(len(pos)), t.below(len(pos))
    r, s = a[i], a[j]
    x = lambda p: dict((n, m.cols[n][p]) for n in m.names)
    k = t.pick(("scalar", "row", "neg", "eq", "divmod", "array", "table", "table", "numpy"))
    t.note("op", (k, i, j))
    if k == "scalar":
        got = r + 10
        want = dict((n, v + 10) for n, v in x(pos[i]).items())
    elif k == "row":
        got = r - s
        want = dict((n, v - x(pos[j])[n]) for n, v in x(pos[i]).items())
    elif k == "neg":
        got = -r
        want = dict((n, -v) for n, v in x(pos[i]).items())
    elif k == "eq":
        want = all(same(x(pos[i])[n], x(pos[j])[n]) for n in m.names)
        t.check((r == s) is want or bool(r == s) == want, "row == row")
        t.check(bool(r != s) == (not want), "row != row")
        t.check(not (r == 5) and r != 5, "row == number")
        return
    elif k == "table":
        # with every row of a table, from either side
        fn = t.pick((numpy.subtract, numpy.add, numpy.maximum, operator.sub, numpy.equal, numpy.not_equal))
        b = a[t.below(len(pos)):] if t.flag() else a
        bpos = pos[len(pos) - len(b):]
        left = t.flag() and fn not in (numpy.equal, numpy.not_equal)
        t.note("with a table", fn.__name__, "row first" if left else "table first", bpos)
        got = attempt(lambda: fn(r, b) if left else fn(b, r))
        if isinstance(got, Refused) and isinstance(got.err, ValueError) and not numpycols(a):
            return                      # a column of one row broadcasts as Numpy's arrays do
        if fn is numpy.equal or fn is numpy.not_equal:
            expect(t, got, [all(x(p)[n] == x(pos[i])[n] for n in m.names) == (fn is numpy.equal) for p in bpos], "table == row")
            return
        for n in m.names:
            expect(t, got[n], [plain(fn(x(pos[i])[n], x(p)[n]) if left else fn(x(p)[n], x(pos[i])[n])) for p in bpos], "table with row, result[%r]" % n)
        t.check(type(got) is Table and list(got.columns) == list(m.names), lambda: "a table with a row gave %r" % (got,))
        other = Table(dict((n, [0]) for n in list(m.names)[1:]))
        for g in (attempt(lambda: r + other), attempt(lambda: other + r)):
            t.check(isinstance(g, Refused) or len(m.names) == 1, lambda: "columns that are not in both: %r" % (g,))
        return
    elif k == "numpy":
        v = [t.below(50) for _ in range(t.between(1, 4))]
        b = numpy.array(v)
        left = t.flag()
        got = attempt(lambda: r - b if left else b - r)
        if isinstance(got, Refused) and isinstance(got.err, ValueError) and not numpycols(a):
            return
        for n in m.names:
            expect(t, got[n], [x(pos[i])[n] - y if left else y - x(pos[i])[n] for y in v], "row with numbers, result[%r]" % n)
        return
    elif k == "divmod":
        got = numpy.modf(r)
        want = [dict((n, numpy.modf(v)[q]) for n, v in x(pos[i]).items()) for q in (0, 1)]
        for g, w in zip(got, want):
            for n in m.names:
                expect(t, g[n], float(w[n]), "modf(row)[%r]" % n)
        return
    else:
        got = r + a[:1]
        want = [dict((n, v + x(pos[0])[n]) for n, v in x(pos[i]).items())]
        for n in m.names:
            expect(t, got[n], [want[0][n]], "row + table")
        return
    for n in m.names:
        expect(t, got[n], want[n], "%s: result[%r]" % (k, n))


def construct(t):
    """the constructors of tables"""
    n = t.length(5)
    k = t.pick(("fromrec", "badview", "kw", "dup", "mixed", "badpos", "iter", "empty", "rec2d"))
    t.note("kind", k)
    t.nontrivial = n > 1
    xs = [t.below(100) for _ in range(n)]
    ys = [t.below(100) / 4.0 for _ in range(n)]
    if k == "fromrec":
        r = numpy.array(list(zip(xs, ys)), dtype=[("x", "i4"), ("y", "f8")])
        if t.flag():
            r = r[::-1]
            xs, ys = xs[::-1], ys[::-1]
        a = Table.fromrec(r)
        expect(t, a, [{"x": i, "y": j} for i, j in zip(xs, ys)], "fromrec")
        t.check(isinstance(attempt(Table.fromrec, numpy.array(xs)), Refused), "fromrec of plain array")
    elif k == "badview":
        bad = t.pick([(0, 1), (0, 1, 1, 1), (0.5, 1, 1), (0, "1", 1), "0", 0, numpy.array([0.0]), numpy.array([True]), numpy.array(["0"]), [0, 1, 1], {}])
        t.note("view", bad)
        g = attempt(lambda: Table.fromview(bad, Table(x=xs)))
        t.check(isinstance(g, Refused) and isinstance(g.err, TypeError), lambda: "a view of %r gave %r" % (bad, g))
    elif k == "rec2d":
        r = numpy.array(list(zip(xs, ys)), dtype=[("x", "i4"), ("y", "f8")])
        a = JaggedArray.fromcounts([n], r)
        expect(t, a["x"], [xs], "jagged structured array column")
    elif k == "kw":
        a = Table(x=xs, y=ys) if t.flag() else Table({"x": xs}, y=ys)
        expect(t, a, [{"x": i, "y": j} for i, j in zip(xs, ys)], "Table(x, y)")
        t.check(a.rowname == "Row", "rowname")
    elif k == "dup":
        got = attempt(lambda: Table({"x": xs}, x=ys))
        t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), "repeated column name accepted")
    elif k == "mixed":
        a = Table(xs, ys, z=ys)
        t.check(a.columns == ["0", "1", "z"], lambda: "columns %r" % (a.columns,))
        expect(t, a, [{"0": i, "1": j, "z": j} for i, j in zip(xs, ys)], "Table(xs, ys, z=)")
    elif k == "badpos":
        got = attempt(lambda: Table({"x": xs}, ys))
        t.check(isinstance(got, Refused) and isinstance(got.err, TypeError), "positional after dict accepted")
    elif k == "iter":
        a = Table(x=(i for i in []) if False else list(xs), y=tuple(ys))
        expect(t, a, [{"x": i, "y": j} for i, j in zip(xs, ys)], "Table of Python iterables")
    else:
        a = Table()
        t.check(len(a) == 0 and a.tolist() == [] and a.columns == [], "empty table")
        a["x"] = xs
        expect(t, a, [{"x": i} for i in xs], "column added to an empty table")


def multidim(t):
    """columns with fixed inner dimensions: a row can be indexed again"""
    shape = (t.between(1, 4),) + tuple(t.between(1, 3) for _ in range(t.between(1, 2)))
    cols = dict((n, numpy.array([t.below(50) for _ in range(int(numpy.prod(shape)))]).reshape(shape)) for n in ("x", "y"))
    a = Table(cols)
    pos = list(range(shape[0]))
    for _ in range(t.below(3)):
        where, desc, fn = gen_index(t, len(pos), ("slice", "mask", "fancy"))
        if fn is not None and fn(pos):
            a, pos = a[where], fn(pos)
    t.nontrivial = True
    i = t.below(len(pos))
    t.note("shape", shape, "rows", pos)
    t.note("row", i)
    r = a[i]
    at = [pos[i]]
    for d in range(1, len(shape)):
        j = t.below(shape[d])
        r = r[j] if t.flag() else r[(j,)]
        at.append(j)
        for n in cols:
            expect(t, r[n], cols[n][tuple(at)].tolist(), "t[%r][%r]" % (at, n))
        expect(t, r, dict((n, cols[n][tuple(at)].tolist()) for n in cols), "t[%r].tolist()" % (at,))
        repr(r), str(r)


def slots(t):
    """shortcuts for columns of tuples (i0 to i9) and columns as attributes, of tables, jagged tables and rows"""
    k = t.between(1, 10)
    names = [str(i) for i in range(k)] if t.chance(0.7) else t.shuffle(["x", "y", "abc", "_z", "p1", "not valid", "class", "3", "0"])[:k]
    counts = [t.below(3) for _ in range(t.between(1, 3))]
    n = sum(counts)
    cols = [[gen_num(t, "int64") for _ in range(n)] for _ in names]
    a = Table()
    for m, c in zip(names, cols):
        a[m] = build(t, ("num", "int64"), c, Layout(["npstride", "indexed", "chunked"], p=0.2), wrap=1)
    t.note("columns", names, "values", cols)
    t.nontrivial = n >= 2 and len(names) >= 2
    j = JaggedArray.fromcounts(counts, a)
    other = lambda v: [v[sum(counts[:i]):sum(counts[:i + 1])] for i in range(len(counts))]
    kinds = [("table", a, lambda v: v), ("jagged table", j, other)]
    if n:
        i = t.below(n)
        kinds += [("row", a[i], lambda v: v[i]), ("row of a view", a[::-1][n - 1 - i], lambda v: v[i]), ("masked table", MaskedArray([False] * n, a), lambda v: v), ("indexed table", IndexedArray(numpy.arange(n)[::-1], a), lambda v: v[::-1])]
    for what, x, fn in kinds:
        for s in range(10):
            got = attempt(lambda: getattr(x, "i%d" % s))
            if str(s) in names:
                expect(t, got, fn(cols[names.index(str(s))]), "i%d of a %s" % (s, what))
            else:
                t.check(isinstance(got, Refused), lambda: "i%d of a %s without that column gave %r" % (s, what, got))
        for m, c in zip(names, cols):
            expect(t, getattr(x, m), fn(c), "attribute %r of a %s" % (m, what))
            expect(t, x[m], fn(c), "column %r of a %s" % (m, what))
        for bad in ("nothing", "i10", "_nothing"):
            got = attempt(lambda: getattr(x, bad))
            t.check(isinstance(got, Refused) and isinstance(got.err, AttributeError), lambda: "attribute %r of a %s gave %r" % (bad, what, got))
        import keyword
        t.check(set(dir(x)) >= set(m for m in names if m.isidentifier() and not keyword.iskeyword(m)), lambda: "dir of a %s lacks columns" % what)
        t.check(not any(m in dir(x) for m in names if not m.isidentifier() or keyword.iskeyword(m)), lambda: "dir of a %s has names that are no attributes" % what)
        if n:
            t.check(list(x.columns) == names, lambda: "columns of a %s: %r" % (what, x.columns))


SUBS = [Sub("slots", slots, 1500), Sub("multidim", multidim, 600), Sub("history", history, 8000), Sub("views", views, 8000), Sub("fromview", fromview, 2500), Sub("nested", nested, 3000), Sub("rowops", rowops, 2000),
        Sub("construct", construct, 1000)]
