"""C23: object arrays and mixin methods."""
import collections
import operator
import numpy
from .common import *
from .indexing import gen_index

ID = "C23"
RULE = ("a case builds object arrays inside and around any layout, arrays with mixin methods, or Python objects to be put in an array, and performs a history of 1 to 4 operations; "
        "non-trivial: at least 2 objects (or elements)")


def gen_params(t):
    return tuple(t.below(4) for _ in range(t.below(3))), tuple(sorted((k, t.below(3)) for k in ("k", "m")[:t.below(3)]))


def gen_obj(t, depth=1):
    S = gen_type(t, t.below(3), nums=NUMS)
    return ("obj", S) + gen_params(t)


def embed(t, O, depth):
    """a type with objects somewhere inside"""
    if depth == 0 or t.chance(0.3):
        return O
    k = t.below(5)
    sub = embed(t, O, depth - 1)
    if k == 0:
        return ("list", sub)
    if k == 1:
        return ("rec", (("x", sub), ("y", ("num", "int64"))))
    if k == 2:
        return ("tup", (("num", "float64"), sub))
    if k == 3 and sub[0] != "opt":
        return ("opt", sub)
    return ("list", sub)


def selection(t):
    """reading and chains of indexes select the same objects"""
    O = gen_obj(t)
    T = embed(t, O, t.below(3))
    values = gen_values(t, T, t.length(6))
    a = build(t, T, values, Layout(p=0.35), wrap=t.below(3))
    t.note("type", tstr(T))
    t.note("array", describe(a))
    want = plain(values)
    t.nontrivial = len(want) >= 2
    t.check(len(a) == len(want), "length")
    expect(t, list(iter(a)), want, "iteration")
    for step in range(t.between(1, 3)):
        w, what, fn = gen_index(t, len(want))
        if t.chance(0.2):
            w = (w,)
        t.note("index", what)
        if fn is None:
            got = attempt(lambda: tolist(a[w]))
            t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "out-of-range index gave %r instead of IndexError" % (got,))
            return
        a = a[w]
        want = fn(want)
        expect(t, a, want, "result of %s" % what)
        if what.startswith("int"):
            return
        t.check(len(a) == len(want), "length")
    r = attempt(lambda: a.copy())
    expect(t, a.copy() if t.flag() or not isinstance(a, AwkwardArray) else a.deepcopy(), want, "a copy")
    if T[0] == "obj" and isinstance(a, ObjectArray):
        t.check(type(a.type.to) is type(makeobj) or not len(want), "type")
        r = attempt(lambda: AwkwardArray.concatenate([a, a]))
        if not isinstance(r, Refused):
            expect(t, r, want + want, "concatenated")
        if O[1][0] == "rec":
            n = t.pick(O[1][1])[0]
            expect(t, a[n], [x.data[n] for x in want], "a column of the content")
            if not t.features & {"virtual", "chunked"}:
                t.check(set(a.columns) == set(x for x, _ in O[1][1]), "columns")


def tuples(t):
    """an index beyond the objects goes to the objects"""
    n = t.between(1, 5)
    values = [[t.below(10) for _ in range(t.between(1, 4))] for _ in range(n)]
    a = ObjectArray(JaggedArray.fromiter(values), lambda x, k=0: [y + k for y in tolist(x)], (t.below(3),))
    k = a.args[0]
    i = t.below(n) - (n if t.flag() else 0)
    j = t.below(len(values[i]))
    t.note("values", values, i, j)
    expect(t, a[i], [y + k for y in values[i]], "an object")
    expect(t, a[i, j], values[i][j] + k, "an element of an object")
    j = slice(t.below(3), t.below(5))
    expect(t, a[i, j], [y + k for y in values[i]][j], "a slice of an object")
    lo, hi = t.below(n), t.below(n + 1)
    expect(t, a[lo:hi,], [[y + k for y in v] for v in values[lo:hi]], "a slice")
    expect(t, a[()], [[y + k for y in v] for v in values], "everything")
    rows = [(slice(lo, hi), list(range(n))[lo:hi])]
    pos = [t.below(n) for _ in range(t.length(4))]
    rows.append((numpy.array(pos, int), pos))
    mask = [t.flag() for _ in range(n)]
    rows.append((numpy.array(mask), [m for m in range(n) if mask[m]]))
    head, which = t.pick(rows)
    t.note("rows", head)
    for j in (slice(t.below(3), t.below(5)), 0, -1):
        expect(t, a[head, j], [[y + k for y in values[m]][j] for m in which], "an index applied to each of some objects")
    b = ObjectArray(numpy.arange(n), lambda x: numpy.arange(12).reshape(3, 4) + x)
    i, j = t.below(3), slice(t.below(3), t.below(5))
    expect(t, b[head, i, j], [(numpy.arange(12).reshape(3, 4) + m)[i, j] for m in which], "two indexes applied to each of some objects")
    expect(t, b[0, i, j], numpy.arange(12).reshape(3, 4)[i, j], "two indexes applied to an object")
    t.nontrivial = n >= 2


def arithmetic(t):
    """element-wise operations act on the content and make objects of the result"""
    n = t.length(6)
    kind = t.below(4)
    S = [("num", "int64"), ("rec", (("x", ("num", "int64")), ("y", ("num", "float64")))), ("list", ("num", "int64")), ("opt", ("num", "int64"))][kind]
    lay = Layout(ALL - {"virtual"}, p=0.3)
    O = ("obj", S) + gen_params(t)
    x = gen_values(t, O, n)

    def other(v):
        if isinstance(v, list):
            return [gen_num(t, "int64") for _ in v]
        if isinstance(v, dict):
            return dict((k, float(gen_num(t, "int64")) if k == "y" else gen_num(t, "int64")) for k in v)
        return None if kind == 3 and t.chance(0.3) else gen_num(t, "int64")
    y = [Obj(z, O[2], O[3], z) for z in [other(v.src) for v in x]]
    a, b = build(t, O, x, lay, wrap=0), build(t, O, y, lay, wrap=0)
    t.note("arrays", describe(a), describe(b))
    name, op, f = t.pick([("add", numpy.add, operator.add), ("+", operator.add, operator.add), ("*", operator.mul, operator.mul), ("subtract", numpy.subtract, operator.sub), ("maximum", numpy.maximum, max)])
    k = t.below(3)
    t.note("op", name, k)

    def both(u, v):
        if isinstance(u, list):
            return [both(p, q) for p, q in zip(u, v)]
        if isinstance(u, dict):
            return dict((k, both(u[k], v[k])) for k in u)
        return None if u is None or v is None else f(u, v)

    def scalar(u):
        if isinstance(u, list):
            return [scalar(p) for p in u]
        if isinstance(u, dict):
            return dict((k, scalar(p)) for k, p in u.items())
        return None if u is None else f(u, 3)
    if k == 0:
        r, want = op(a, b), [both(u.data, v.data) for u, v in zip(x, y)]
    elif k == 1:
        r, want = op(a, 3), [scalar(u.data) for u in x]
    else:
        r, want = numpy.negative(a), [both(u.data, v.data) for u, v in zip(x, y)]

        def neg(u):
            if isinstance(u, list):
                return [neg(p) for p in u]
            if isinstance(u, dict):
                return dict((k, neg(p)) for k, p in u.items())
            return None if u is None else -u
        want = [neg(u.data) for u in x]
    expect(t, r, [Obj(w, O[2], O[3]) for w in want], name)
    t.check(type(r) is ObjectArray, lambda: "the result is a %s" % type(r).__name__)
    t.nontrivial = n >= 2
    # comparisons are not objects
    if kind == 0:
        expect(t, a == b, [u.data == v.data for u, v in zip(x, y)], "==")
        expect(t, a < b, [u.data < v.data for u, v in zip(x, y)], "<")


def structure(t):
    """objects made of list elements follow the lists through flatten and pad"""
    n = t.length(5)
    O = ("obj", ("num", "int64")) + gen_params(t)
    T = ("list", O)
    values = gen_values(t, T, n)
    a = build(t, T, values, Layout(ALL - {"virtual"}, p=0.35), wrap=t.below(2))
    t.note("array", describe(a))
    want = plain(values)
    t.nontrivial = n >= 2
    expect(t, a.counts, [len(v) for v in want], "counts")
    expect(t, a.flatten(), [x for v in want for x in v], "flatten")
    if isinstance(a, JaggedArray):
        expect(t, a[:, :2], [v[:2] for v in want], "a[:, :2]")
        expect(t, a[:, ::-1], [v[::-1] for v in want], "a[:, ::-1]")
        m = [[t.flag() for _ in v] for v in want]
        if any(m):
            j = JaggedArray.fromcounts([len(x) for x in m], numpy.array([y for x in m for y in x], dtype=bool))
            expect(t, a[j], [[y for y, k in zip(v, x) if k] for v, x in zip(want, m)], "jagged mask")
            ii = [[t.below(len(v)) for _ in range(t.below(3))] if v else [] for v in want]
            if any(ii):
                j = JaggedArray.fromcounts([len(x) for x in ii], numpy.array([y for x in ii for y in x], dtype=int))
                expect(t, a[j], [[v[k] for k in x] for v, x in zip(want, ii)], "jagged index")
        r = attempt(lambda: a.pairs())
        if not isinstance(r, Refused):
            expect(t, r, [[(v[i], v[j]) for i in range(len(v)) for j in range(i, len(v))] for v in want], "pairs")
        else:
            t.check(False, lambda: "pairs refused: %r" % (r,))
        b = gen_values(t, T, n)
        r = a.cross(build(t, T, b, Layout(p=0), wrap=0))
        expect(t, r, [[(x, y) for x in v for y in w] for v, w in zip(want, plain(b))], "cross")


def content(t):
    """structure helpers of an object array act on its content and make objects of the result"""
    n = t.length(5)
    X = gen_type(t, t.below(2), ("num", "list", "rec", "opt", "str"), NUMS[:5])
    S = ("list", X)
    if t.chance(0.25):
        S = ("opt", S)
    O = ("obj", S) + gen_params(t)
    values = gen_values(t, O, n)
    a = build(t, O, values, Layout(ALL - {"virtual", "union"}, p=0.3), wrap=0)
    t.note("type", tstr(O))
    t.note("array", describe(a))
    t.nontrivial = n >= 2
    v = [plain(x.data) for x in values]
    obj = lambda x: Obj(x, O[2], O[3])
    expect(t, a.counts, [-1 if x is None else len(x) for x in v], "counts")
    expect(t, a.boolmask(), [x is None for x in v], "boolmask")
    expect(t, a.flatten(), [obj(y) for x in v for y in ([None] if x is None else x)], "flatten")
    k, clip = t.below(4), t.flag()
    if S[0] == "list":
        want = [(x[:k] if clip else x) + [None] * (k - len(x)) for x in v]
        expect(t, a.pad(k, clip=clip), [obj(x) for x in want], "pad(%d, clip=%s)" % (k, clip))
        if X[0] == "list":
            expect(t, a.flatten(axis=1), [obj([z for y in x for z in y]) for x in v], "flatten(axis=1)")
    expect(t, list(a.regular()), [obj(x) for x in v], "regular")
    r = attempt(lambda: a.deepcopy())
    expect(t, r, [obj(x) for x in v], "deepcopy")


# ------------------------------------------------------------------ mixin methods

class Sized(object):
    def howmany(self):
        return len(self)

    def everything(self):
        return tolist(self)

    @property
    def again(self):
        return self


class Named(object):
    label = "named"

    def describe(self):
        return "%s of %d" % (self.label, len(self))


def mixin(t, cls):
    return awkward0.Methods.mixin(Sized, cls)


CLASSES = ("list", "rec", "obj", "mask", "bits", "index", "union", "chunk", "indexed", "sparse", "append", "virtual", "str")


def gen_mixed(t):
    """(reference values, array without methods, array with methods, mixin class)"""
    k = t.pick(CLASSES)
    n = t.length(6)
    lay = Layout(frozenset(["boolmask", "gap", "scatter", "view", "npstride", "longcol"]), p=0.4)
    S = gen_type(t, t.below(2), nums=NUMS[:5])
    if k == "list":
        T = ("list", S)
    elif k == "rec":
        T = ("rec", (("x", S), ("y", ("num", "int64"))))
    elif k == "obj":
        T = ("obj", S, (), ())
    elif k in ("mask", "bits", "index"):
        T = ("opt", S if S[0] != "opt" else ("num", "int64"))
        lay = Layout(frozenset([{"mask": "boolmask", "bits": "bitmask", "index": "indexmask"}[k], "gap", "scatter", "view"] + (["boolmask"] if has(T[1], "opt") else [])), p=0.4)
    elif k == "union":
        T = ("union", (("num", "int64"), ("str",)))
    elif k in ("sparse", "append"):
        T = ("num", t.pick(NUMS[:4]))
    elif k == "str":
        T = (t.pick(["str", "bytes"]),)
    else:
        T = S
    values = gen_values(t, T, n)
    if k == "union" and n == 0:
        values = gen_values(t, T, 1)
    if k in ("chunk", "indexed", "sparse", "append", "virtual"):
        w = {"chunk": "chunked", "indexed": "indexed", "sparse": "sparse", "append": "appendable", "virtual": "virtual"}[k]
        if k == "append" and n == 0:
            values = gen_values(t, T, 1)
        a = build(t, T, values, Layout(lay.allow | {w, "boolmask"}, p=1.0), wrap=1)
    else:
        a = build(t, T, values, lay, wrap=0)
    return k, T, values, a


def methods(t):
    """operations on an array with methods give the same values, and keep the methods where they select or copy"""
    k, T, values, a = gen_mixed(t)
    if not isinstance(a, AwkwardArray):
        return
    M = mixin(t, type(a))
    t.check(issubclass(M, Sized) and issubclass(M, type(a)), "the class made by mixin")
    if t.flag():
        b = a.copy()
        b.__class__ = M
    else:
        b = a.copy()
        b.__class__ = M
        b = b.copy()
    t.note("class", M.__name__)
    t.note("array", describe(a))
    want = plain(values)
    t.nontrivial = len(want) >= 2
    t.check(b.howmany() == len(want), "method of the array")
    expect(t, b.everything(), want, "method of the array")
    for step in range(t.between(1, 3)):
        how = t.below(8)
        if how < 4:
            w, what, fn = gen_index(t, len(want), ("slice", "mask", "fancy"))
            op = lambda x: x[w]
            if fn is None:
                r = attempt(lambda: tolist(b[w]))
                t.check(isinstance(r, Refused) and isinstance(r.err, IndexError), "IndexError expected")
                return
            want = fn(want)
        elif how == 4:
            what, op = "copy", lambda x: x.copy()
        elif how == 5:
            what, op = "deepcopy", lambda x: x.deepcopy()
        elif how == 6:
            what, op = "[()]", lambda x: x[()]
        else:
            what, op = "column", None
            if not (isinstance(a, AwkwardArray) and a.columns):
                continue
            c = t.pick(a.columns)
            r0, r1 = attempt(lambda: a[c]), attempt(lambda: b[c])
            t.check(not isinstance(r1, Refused) or isinstance(r0, Refused), lambda: "column refused: %r" % (r1,))
            if not isinstance(r1, Refused):
                expect(t, r1, tolist(r0), "column %r" % c)
                t.check(not isinstance(r1, Sized) , "methods of the container appeared in its column")
            continue
        t.note("then", what)
        a, b = op(a), op(b)
        expect(t, b, want, what)
        if type(a) in M.__bases__:
            t.check(isinstance(b, Sized), lambda: "%s of %s gives %s without the methods" % (what, M.__name__, type(b).__name__))
        if not isinstance(b, Sized):
            return
        t.check(b.howmany() == len(want), "method after " + what)
        expect(t, b.everything(), want, "method after " + what)
        t.check(b.again is b, "property")


def nested(t):
    """methods of the content of jagged, masked and other wrappers are there when the content is taken out, and ufuncs keep the methods"""
    n = t.length(5)
    S = ("rec", (("x", ("num", "int64")), ("y", ("num", "int64"))))
    M = awkward0.Methods.mixin(Sized, Table)
    T = ("list", S)
    values = gen_values(t, T, n)
    lay = Layout(frozenset(["gap", "scatter", "view", "npstride", "longcol"]), p=0.4)
    a = build(t, T, values, lay, wrap=0)
    a.content.__class__ = M
    outer = awkward0.Methods.mixin(Named, JaggedArray)
    withouter = t.flag()
    if withouter:
        a.__class__ = outer
    t.note("array", describe(a))
    want = plain(values)
    t.nontrivial = n >= 2
    if n:
        i = t.below(n)
        x = a[i]
        t.check(isinstance(x, Sized), lambda: "one of the lists is a %s" % type(x).__name__)
        t.check(x.howmany() == len(want[i]), "method of one list")
        expect(t, x.everything(), want[i], "method of one list")
    f = a.flatten()
    t.check(isinstance(f, Sized), lambda: "flatten gives %s" % type(f).__name__)
    expect(t, f.everything(), [y for x in want for y in x], "flatten")
    w, what, fn = gen_index(t, n, ("slice", "mask", "fancy"))
    if fn is not None:
        b = a[w]
        t.check(isinstance(b.flatten(), Sized), lambda: "flatten after %s" % what)
        t.check(isinstance(b, Named) == withouter, lambda: "%s of the outer array" % what)
        expect(t, b.flatten().everything(), [y for x in fn(want) for y in x], "flatten after " + what)
    # jagged selections keep both
    m = [[t.flag() for _ in v] for v in want]
    if any(m):
        j = JaggedArray.fromcounts([len(x) for x in m], numpy.array([y for x in m for y in x], dtype=bool))
        b = a[j]
        t.check(isinstance(b.flatten(), Sized) and isinstance(b, Named) == withouter, lambda: "methods after a jagged mask: %s of %s" % (type(b).__name__, type(b.content).__name__))
        expect(t, b, [[y for y, k in zip(v, x) if k] for v, x in zip(want, m)], "jagged mask")
    b = a[:, :1]
    t.check(isinstance(b.flatten(), Sized) and isinstance(b, Named) == withouter, "methods after a[:, :1]")
    expect(t, b, [v[:1] for v in want], "a[:, :1]")
    # a ufunc: the methods of the content
    r = a + 1
    expect(t, r, [[dict((c, y[c] + 1) for c in y) for y in x] for x in want], "a + 1")
    t.check(isinstance(r.content, Sized), lambda: "a + 1 holds a %s" % type(r.content).__name__)


def maybe(t):
    """Methods.maybemixin transfers the methods of a sample class"""
    classes = [JaggedArray, Table, MaskedArray, IndexedMaskedArray, IndexedArray, ChunkedArray, UnionArray, ObjectArray, SparseArray]
    A, B = t.pick(classes), t.pick(classes)

    class More(awkward0.Methods):
        def extra(self):
            return "extra"
    M = awkward0.Methods.mixin(More, A) if False else type("X", (More, A), {})
    t.note("classes", A.__name__, B.__name__)
    r = awkward0.Methods.maybemixin(M, B)
    t.check(issubclass(r, B) and issubclass(r, More), lambda: "maybemixin gives %r" % (r.__mro__,))
    t.check(A is B or issubclass(B, A) or issubclass(A, B) or not issubclass(r, A), lambda: "maybemixin gives a %s that is a %s" % (B.__name__, A.__name__))
    t.check(awkward0.Methods.maybemixin(A, B) is B, "no methods, no mixin")
    r = attempt(lambda: awkward0.Methods.mixin(A, B))
    t.check(isinstance(r, Refused), "an array class as methods")
    t.nontrivial = True


def ufuncs(t):
    """element-wise operations keep the methods of records, and give them to the lists and masks around"""
    class More(awkward0.Methods):
        def extra(self):
            return tolist(self)

        def total(self):
            return len(self)
    n = t.length(5)
    k = t.below(4)
    R = ("rec", (("x", ("num", "int64")),))
    T = [R, ("list", R), ("opt", R), ("list", ("list", R))][k]
    values = gen_values(t, T, n)
    lay = Layout(frozenset(["gap", "scatter", "view", "npstride", "indexmask"]), p=0.5)
    a = build(t, T, values, lay, wrap=0)
    t.note("array", describe(a))
    x = a
    while not isinstance(x, Table):
        if t.flag():
            x.__class__ = type("More" + type(x).__name__, (More, type(x)), {})
        x = x.content
    x.__class__ = type("MoreTable", (More, Table), {})

    def each(v, f):
        if isinstance(v, list):
            return [each(y, f) for y in v]
        if isinstance(v, dict):
            return dict((c, f(y)) for c, y in v.items())
        return v
    op, f = t.pick([(lambda x: x + 1, lambda y: y + 1), (lambda x: 1 - x, lambda y: 1 - y), (numpy.negative, lambda y: -y), (lambda x: x + x, lambda y: y + y), (lambda x: x * 2 + x, lambda y: y * 3)])
    r = op(a)
    want = each(plain(values), f)
    expect(t, r, want, "operation")
    x = r
    while True:
        t.check(isinstance(x, More), lambda: "methods are missing from the %s in the result" % type(x).__name__)
        t.check(same(x.extra(), tolist(x)) and x.total() == len(x), "methods of the result")
        if isinstance(x, Table):
            break
        x = x.content
    t.nontrivial = n >= 2


class PointMethods(awkward0.Methods):
    @property
    def x(self):
        return self["x"]

    @property
    def y(self):
        return self["y"]

    def dist(self, other):
        return (self.x - other.x)**2 + (self.y - other.y)**2


class OnePoint(PointMethods):
    def __init__(self, row, *args):
        self.row = dict((c, tolist(row[c])) for c in ("x", "y"))

    def __getitem__(self, c):
        return self.row[c]

    def __eq__(self, other):
        return isinstance(other, OnePoint) and self.row == other.row

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "P(%s,%s)" % (self.row["x"], self.row["y"])


class PointArray(PointMethods, ObjectArray):
    def __init__(self, table):
        ObjectArray.__init__(self, table, OnePoint)


class JaggedPoints(PointMethods, JaggedArray):
    pass


def gen_points(t, n):
    S = ("rec", (("x", ("num", "int64")), ("y", ("num", "int64"))))
    values = [[dict((c, t.below(9)) for c in "xy") for _ in range(t.length(4))] for _ in range(n)]
    a = build(t, ("list", S), values, Layout(frozenset(["gap", "scatter", "view", "npstride", "longstops"]), p=0.5), wrap=0)
    return [[OnePoint(v) for v in x] for x in values], JaggedPoints(a.starts, a.stops, PointArray(a.content))


def analysis(t):
    """an analysis with methods on lists of objects, against loops"""
    n = t.length(5)
    P, p = gen_points(t, n)
    Q, q = gen_points(t, n)
    t.note("points", P, Q)
    t.nontrivial = n >= 2 and sum(map(len, P)) > 0
    want = P
    for step in range(t.below(3)):
        k = t.below(5)
        if k == 0:
            w, what, fn = gen_index(t, n, ("slice", "mask", "fancy"))
            if fn is None:
                continue
            P, Q, p, q, n = fn(P), fn(Q), p[w], q[w], len(fn(P))
        elif k == 1:
            c = t.below(9)
            P, p, what = [[o for o in v if o.x > c] for v in P], p[p.x > c], "cut on x"
        elif k == 2:
            P, p, what = [v[:2] for v in P], p[:, :2], "the first two"
        elif k == 3:
            P, p, what = [v[::-1] for v in P], p[:, ::-1], "backwards"
        else:
            def nearest(v):
                best = None
                for o in v:
                    if best is None or o.y < best.y:
                        best = o
                return [] if best is None else [best]
            P, p, what = [nearest(v) for v in P], p[p.y.argmin()], "lowest y"
        t.note("step", what)
        expect(t, p, P, what)
        t.check(isinstance(p, JaggedPoints) or isinstance(p, PointMethods), lambda: "%s gives a %s" % (what, type(p).__name__))
        expect(t, p.x, [[o.x for o in v] for v in P], "x after " + what)
    nested = t.flag()
    c = p.cross(q, nested=nested)
    dist = lambda a, b: (a.x - b.x)**2 + (a.y - b.y)**2
    if nested:
        pairs = [[[(a, b) for b in w] for a in v] for v, w in zip(P, Q)]
        D = [[[dist(a, b) for a, b in z] for z in v] for v in pairs]
    else:
        pairs = [[(a, b) for a in v for b in w] for v, w in zip(P, Q)]
        D = [[dist(a, b) for a, b in v] for v in pairs]
    expect(t, c, pairs, "pairs")
    i0, i1 = c.i0, c.i1
    for z in (i0, i1):
        t.check(isinstance(z, PointMethods), lambda: "one side of the pairs is a %s" % type(z).__name__)
    d = i0.dist(i1)
    expect(t, d, D, "distances")
    t.check(not isinstance(d, PointMethods), "methods on the distances")
    best = d.argmin()
    if nested:
        wantbest = [[[min(range(len(z)), key=lambda k: z[k])] if z else [] for z in v] for v in D]
        expect(t, best, wantbest, "argmin")
        expect(t, d[best], [[[z[k] for k in b] for z, b in zip(v, u)] for v, u in zip(D, wantbest)], "smallest distances")
        sel = c[best]
        expect(t, sel, [[[z[k] for k in b] for z, b in zip(v, u)] for v, u in zip(pairs, wantbest)], "nearest pairs")
        cut = d[best] < 9
        expect(t, sel[cut], [[[z[k] for k in b if dist(*z[k]) < 9] for z, b in zip(v, u)] for v, u in zip(pairs, wantbest)], "near pairs")
        expect(t, sel[cut].flatten(axis=1), [[z[k] for z, b in zip(v, u) for k in b if dist(*z[k]) < 9] for v, u in zip(pairs, wantbest)], "near pairs, flattened")
        expect(t, (d < 9).any(), [[any(x < 9 for x in z) for z in v] for v in D], "any")
        expect(t, p[~(d < 9).any()], [[a for a, z in zip(v, w) if not any(x < 9 for x in z)] for v, w in zip(P, D)], "cleaned")
    else:
        wantbest = [[min(range(len(z)), key=lambda k: z[k])] if z else [] for z in D]
        expect(t, best, wantbest, "argmin")
        expect(t, c[best], [[z[k] for k in b] for z, b in zip(pairs, wantbest)], "nearest pairs")
        expect(t, c[d < 9], [[x for x in z if dist(*x) < 9] for z in pairs], "near pairs")
        m = d.min()
        expect(t, c[d < 9].i0.x, [[x[0].x for x in z if dist(*x) < 9] for z in pairs], "x of near pairs")
    two = p.distincts() if t.flag() else p.pairs()
    r = two.i0.dist(two.i1)
    t.check(isinstance(two.i0, PointMethods), "methods of distinct pairs")
    expect(t, r.sum(), [sum(dist(a, b) for i, a in enumerate(v) for b in v[i:]) for v in P], "sum of distances")


# ------------------------------------------------------------------ Python objects

class Point(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return type(self) is type(other) and same(public(self), public(other))

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % x for x in sorted(self.__dict__.items())))


class Other(Point):
    pass


def public(x):
    return dict((k, v) for k, v in x.__dict__.items() if not k.startswith("_"))


Pair = collections.namedtuple("Pair", ["first", "second"])
Reverse = collections.namedtuple("Reverse", ["zz", "aa", "mm"])


def gen_python(t, depth):
    """a schema for Python data with objects in it"""
    k = t.wpick([(3, "int"), (2, "str"), (2, "float")] if depth == 0 else [(1, "int"), (2, "list"), (3, "point"), (3, "pair"), (1, "reverse"), (1, "dict"), (2, "opt"), (1, "other"), (1, "mixed")])
    sub = lambda: gen_python(t, depth - 1)
    if k in ("point", "other"):
        return (k, tuple((n, sub()) for n in NAMES[:t.between(1, 3)]))
    if k == "pair":
        return (k, (sub(), sub()))
    if k == "reverse":
        return (k, (sub(), sub(), sub()))
    if k == "dict":
        return (k, tuple((n, sub()) for n in NAMES[:t.between(1, 2)]))
    if k in ("list", "opt"):
        return (k, sub())
    if k == "mixed":
        return (k, (sub(), sub()))
    return (k,)


def gen_pyvalue(t, P):
    k = P[0]
    sub = lambda Q: gen_pyvalue(t, Q)
    if k == "int":
        return t.below(20) - 5
    if k == "float":
        return t.below(20) / 4.0
    if k == "str":
        return t.pick(STRS)
    if k == "list":
        return [sub(P[1]) for _ in range(t.length(3))]
    if k == "opt":
        return None if t.chance(0.3) else sub(P[1])
    if k == "dict":
        return dict((n, sub(Q)) for n, Q in P[1])
    if k in ("point", "other"):
        return (Point if k == "point" else Other)(**dict((n, sub(Q)) for n, Q in P[1]))
    if k == "pair":
        return Pair(*[sub(Q) for Q in P[1]])
    if k == "reverse":
        return Reverse(*[sub(Q) for Q in P[1]])
    if k == "mixed":
        return sub(t.pick(P[1]))
    raise AssertionError(k)


def eqpy(a, b):
    """named tuples must stay named tuples"""
    if isinstance(a, Point) or isinstance(b, Point):
        return type(a) is type(b) and set(public(a)) == set(public(b)) and all(eqpy(public(a)[k], public(b)[k]) for k in public(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eqpy(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eqpy(a[k], b[k]) for k in a)
    return same(a, b)


def raw(x):
    """like tolist, leaving objects and named tuples alone"""
    if isinstance(x, (AwkwardArray, Table.Row)):
        return x.tolist()
    if isinstance(x, (numpy.ndarray, numpy.generic, numpy.ma.MaskedArray)):
        return x.tolist()
    return x


def pyobjects(t):
    """Python objects and named tuples through fromiter"""
    P = gen_python(t, t.between(1, 3))
    data = [gen_pyvalue(t, P) for _ in range(t.length(5))]
    if t.chance(0.1):
        for x in data:
            if isinstance(x, Point):
                x._private = 1
    t.note("data", data)
    t.nontrivial = len(data) >= 2
    a = awkward0.fromiter(iter(data) if t.flag() else data)
    got = raw(a)
    t.evals += 1
    t.check(eqpy(got, data), lambda: "fromiter(x).tolist() is %r, expected %r" % (got, data))
    t.check(len(a) == len(data), "length")
    if data:
        i = t.below(len(data))
        got = raw(a[i])
        if not isinstance(data[i], (Point, tuple)) or eqpy(got, data[i]):
            pass
        t.check(eqpy(got, data[i]), lambda: "element %d is %r, expected %r" % (i, got, data[i]))
        w, what, fn = gen_index(t, len(data), ("slice", "mask", "fancy"))
        if fn is not None:
            got = raw(a[w])
            t.check(eqpy(got, fn(data)), lambda: "%s is %r, expected %r" % (what, got, fn(data)))


class Vectors(ObjectArray):
    """what users of util.wrapjaggedmethod and util.bothmethod write"""
    awkward0 = awkward0

    def __init__(self, table):
        super(Vectors, self).__init__(table, lambda row: (row["x"], row["y"]))

    @classmethod
    @awkward0.util.wrapjaggedmethod(awkward0.JaggedArray)
    def twice(cls, x, y):
        assert not isinstance(x, JaggedArray) and not isinstance(y, JaggedArray) and len(x) == len(y)
        return cls(Table(x=x * 2, y=y - x))

    @awkward0.util.bothmethod
    def both(isclassmethod, cls_or_self, *args, **kwargs):
        return isclassmethod, cls_or_self, args, kwargs


def decorated(t):
    """helpers for methods: functions of flat arrays act inside jagged arrays, with flat arrays and numbers broadcast into them"""
    depth = t.pick([0, 1, 1, 1, 2])
    n = t.between(1, 5)
    S = ("num", t.pick(["int64", "float64", "int32"]))
    T = S
    for _ in range(depth):
        T = ("list", T)
    values = gen_values(t, T, n)
    lay = Layout(["scatter", "gap", "farempty", "longstops", "npstride", "idt"], p=0.3)
    x = build(t, T, values, lay, wrap=0)
    values = plain(values)

    def like(v):
        return [like(y) for y in v] if isinstance(v, list) else gen_num(t, "int64")
    kind = t.pick(["same", "flat", "number"]) if depth < 2 else "same"
    if kind == "same":
        other = like(values)
        y = build(t, relabel(T), other, lay, wrap=0)
        want = pairs(values, other)
    elif kind == "flat":
        other = [gen_num(t, "int64") for _ in range(n)]
        y = numpy.array(other)
        want = pairs(values, [[o] * len(v) if isinstance(v, list) else o for v, o in zip(values, other)])
    else:
        y = other = 3
        want = pairs(values, [[3] * len(v) if isinstance(v, list) else 3 for v in values])
    swap = kind != "same" and depth == 1 and t.flag()
    t.note("first", describe(x))
    t.note("second", kind, describe(y) if hasattr(y, "__len__") else y, "swapped" if swap else "")
    t.nontrivial = n >= 2
    if swap and kind == "flat":
        got = Vectors.twice(y, x)
        want = swapped(want)
    else:
        got = Vectors.twice(x, y)
    expect(t, got, transformed(want), "a decorated function")
    t.check(isinstance(got, JaggedArray) == (depth > 0) and len(got) == n, "class or length of the result")
    v = Vectors(Table(x=[1], y=[2]))
    a, k = tuple(range(t.below(3))), dict((m, 1) for m in ("p", "q")[:t.below(3)])
    t.check(Vectors.both(*a, **k) == (True, Vectors, a, k), "bothmethod of a class")
    got = v.both(*a, **k)
    t.check(got[0] is False and got[1] is v and got[2:] == (a, k), "bothmethod of an array")


def relabel(T):
    return ("list", relabel(T[1])) if T[0] == "list" else ("num", "int64")


def pairs(u, v):
    return [pairs(a, b) for a, b in zip(u, v)] if isinstance(u, list) else (u, v)


def swapped(w):
    return [swapped(x) for x in w] if isinstance(w, list) else (w[1], w[0])


def transformed(w):
    return [transformed(x) for x in w] if isinstance(w, list) else (w[0] * 2, w[1] - w[0])


SUBS = [Sub("decorated", decorated, 3000), Sub("selection", selection, 6000), Sub("tuples", tuples, 800), Sub("arithmetic", arithmetic, 3000), Sub("structure", structure, 3000), Sub("content", content, 2500), Sub("methods", methods, 6000), Sub("nested", nested, 2400), Sub("maybe", maybe, 400), Sub("ufuncs", ufuncs, 2000), Sub("analysis", analysis, 3000), Sub("pyobjects", pyobjects, 5000)]
