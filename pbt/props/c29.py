"""C29: sparse arrays are the dense arrays they stand for."""
import copy
import operator
import pickle
from .common import *
from .indexing import *
import awkward0.persist

ID = "C29"
RULE = ("a case draws a sparse array (content of any type in any layout, sorted index with gaps, repeats and entries beyond the length, implied or "
        "explicit default) and performs a history of 1 to 4 selections or one operation, compared with the list it stands for; non-trivial: at "
        "least 3 elements, of which at least one is a default and one is not")

LAY = Layout(ALL - {"sparse"}, p=0.25)


def zero(T):
    """the value of an element that is not in a content"""
    k = T[0]
    if k == "num":
        return numpy.zeros((), T[1]).item()
    if k == "nd":
        return numpy.zeros(T[2], T[1]).tolist()
    if k == "str":
        return ""
    if k == "bytes":
        return b""
    if k == "list":
        return []
    if k in ("opt", "obj"):
        return None
    if k == "rec":
        return dict((n, zero(x)) for n, x in T[1])
    if k == "tup":
        return tuple(zero(x) for x in T[1])
    raise AssertionError(T)


def gen_sparse(t, T, lay=LAY, maxlen=9, explicit=None, tight=False):
    """(list, SparseArray); with repeated indexes the first content counts"""
    n = t.length(maxlen)
    m = t.length(6)
    top = n if tight else n + 2
    index = sorted(t.below(top) for _ in range(m)) if top else []
    if t.chance(0.7):
        index = sorted(set(index))
    values = gen_values(t, T, len(index) + (0 if tight else t.below(3) if t.flag() else 0))
    content = build(t, T, values, lay, wrap=t.below(2))
    values = plain(values)
    dt = t.pick(["int64", "int64", "int32", "uint8", "int16"])
    if explicit is None:
        explicit = t.chance(0.3)
    if explicit and T[0] != "opt":
        v = gen_value(t, T)
        d = v if T[0] in ("num", "str", "bytes", "obj") else build(t, T, [v], Layout(["scatter", "boolmask"], p=0.0), wrap=0)[0]
        default = plain(v)
        a = SparseArray(n, numpy.array(index, dtype=dt), content, default=d)
        t.feature("explicit default")
    else:
        default = zero(T)
        a = SparseArray(n, numpy.array(index, dtype=dt), content)
    want = [values[index.index(i)] if i in index else default for i in range(n)]
    if len(set(index)) != len(index):
        t.feature("repeats")
    if index and index[-1] >= n:
        t.feature("beyond")
    t.note("type", tstr(T))
    t.note("length", n, "index", index, "content", describe(content), "default", default if explicit else "implied")
    inside = sum(i in index for i in range(n))
    t.nontrivial = n >= 3 and 0 < inside < n
    return want, a, default, index


def anytype(t, depth=None, kinds=("num", "nd", "str", "bytes", "list", "opt", "rec", "tup", "obj")):
    return gen_type(t, t.below(3) if depth is None else depth, kinds)


def sparse_mask(t, n, m):
    """a sparse array of booleans"""
    d = t.flag()
    at = [i for i in range(n) if m[i] != d or t.chance(0.3)]
    return SparseArray(n, at, numpy.array([m[i] for i in at], dtype=bool), default=True if d else t.pick([None, False]))


def selection(t):
    """reading and chains of selections"""
    T = anytype(t)
    want, a, default, index = gen_sparse(t, T)
    t.check(len(a) == len(want), "length")
    expect(t, a.default, default, "default")
    expect(t, list(iter(a)), want, "iteration")
    expect(t, a.tolist(), want, "tolist")
    for step in range(t.between(1, 4)):
        if isinstance(a, SparseArray) and t.chance(0.2):
            m = [t.flag() for _ in want]
            if t.chance(0.1):
                bad = sparse_mask(t, len(m) + 1, m + [False])
                got = attempt(lambda: a[bad])
                t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "a sparse mask of another length gave %r" % (got,))
            a, want = a[sparse_mask(t, len(m), m)], [x for x, k in zip(want, m) if k]
            t.note("sparse mask", m)
            t.feature("sparse mask")
            expect(t, a, want, "elements at a sparse mask")
            continue
        w, what, fn = gen_index(t, len(want))
        t.note("index", what)
        if fn is None:
            got = attempt(lambda: tolist(a[w]))
            t.assume(not isinstance(a, numpy.ndarray) or a.size)         # Numpy does not check indexes if there is nothing to select
            t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "out-of-range index gave %r instead of IndexError" % (got,))
            return
        a, want = a[w], fn(want)
        expect(t, a, want, "result of %s" % what)
        if what.startswith("int"):
            return
        t.check(len(a) == len(want), "length")
        if t.flag():
            expect(t, list(iter(a)), want, "iteration of the result")


def columns(t):
    """fields of sparse records"""
    depth = t.below(2)
    T = ("rec", tuple((n, anytype(t, depth, ("num", "nd", "str", "list", "opt"))) for n in NAMES[:t.between(1, 3)]))
    want, a, default, index = gen_sparse(t, T)
    names = [n for n, _ in T[1]]
    n = t.pick(names)
    t.note("column", n)
    got = a[n]
    expect(t, got, [x[n] for x in want], "column %r" % n)
    t.check(len(got) == len(want), "length of a column")
    some = t.shuffle(list(names))[:t.between(1, len(names))]
    expect(t, a[some], [dict((m, x[m]) for m in some) for x in want], "columns %r" % (some,))
    if len(a.content) or "ChunkedArray" not in describe(a):
        t.check(list(a.columns) == names, "names of the columns")
    w, what, fn = gen_index(t, len(want), ("slice", "mask", "fancy"))
    if fn is None:
        return
    t.note("rows", what)
    expect(t, a[n][w], [x[n] for x in fn(want)], "rows of a column")
    expect(t, a[w][n], [x[n] for x in fn(want)], "a column of rows")
    if want:
        i = t.below(len(want))
        expect(t, a[i][n], want[i][n], "a field of an element")


def numbers(t):
    """dense form, masks, arithmetic and reducers of sparse numbers"""
    dt = t.pick(["int64", "int32", "float64", "bool", "uint8", "float32"])
    T = ("nd", dt, tuple(t.between(1, 3) for _ in range(t.between(1, 2)))) if t.chance(0.25) else ("num", dt)
    want, a, default, index = gen_sparse(t, T, Layout(["npstride"], p=0.3))
    n = len(want)
    for k in range(t.between(1, 4)):
        what = t.pick(["dense", "boolmask", "ufunc", "scalar", "unary", "compare", "reduce", "arg", "array", "regular", "astype", "type", "sparse"])
        t.note("look", what)
        ref = numpy.array(want, dtype=dt).reshape((n,) + (T[2] if T[0] == "nd" else ()))
        if what == "dense":
            t.check(isinstance(a.dense, numpy.ndarray) and a.dense.dtype == ref.dtype and a.dense.shape == ref.shape, "dtype and shape of dense")
            expect(t, a.dense, want, "dense")
        elif what == "boolmask":
            inside = [i in index for i in range(n)]
            expect(t, a.boolmask(), inside, "boolmask()")
            expect(t, a.boolmask(maskedwhen=False), [not x for x in inside], "boolmask(maskedwhen=False)")
        elif what in ("ufunc", "sparse"):
            y = numpy.array(plain(gen_values(t, T, n)), dtype=dt).reshape(ref.shape)
            b = y
            if what == "sparse":
                at = [i for i in range(n) if t.flag()]
                y = y.copy()
                y[[i for i in range(n) if i not in at]] = 0
                b = SparseArray(n, at, y[at])
            f = t.pick([numpy.add, numpy.multiply, numpy.maximum, numpy.equal, numpy.less])
            t.note(f.__name__)
            l, r = (a, b) if t.flag() else (b, a)
            got, ok = attempt(lambda: f(l, r)), f(ref, y) if l is a else f(y, ref)
            if isinstance(got, Refused):
                raise got.err
            t.check(len(got) == n, "length of the result")
            expect(t, got, ok.tolist(), "%s with an array" % f.__name__)
        elif what == "scalar":
            expect(t, a * 3, (ref * 3).tolist(), "a * 3")
            expect(t, 2 + a, (2 + ref).tolist(), "2 + a")
        elif what == "unary":
            expect(t, numpy.sign(a) if dt != "bool" else numpy.logical_not(a), (numpy.sign(ref) if dt != "bool" else numpy.logical_not(ref)).tolist(), "a function")
        elif what == "compare":
            c = default if T[0] == "num" and t.flag() else 1
            expect(t, a == c, (ref == c).tolist(), "a == %r" % (c,))
            expect(t, a > c, (ref > c).tolist(), "a > %r" % (c,))
        elif what == "reduce" and n and T[0] == "num":
            for m, f in t.pick([(("sum", numpy.sum), ("prod", numpy.prod)), () if dt == "bool" else (("min", numpy.min), ("max", numpy.max)), (("any", numpy.any), ("all", numpy.all)), (("count_nonzero", numpy.count_nonzero), ("count", len))]):
                with numpy.errstate(all="ignore"):
                    expect(t, getattr(a, m)(), f(ref).item() if hasattr(f(ref), "item") else f(ref), m, eq=close)
        elif what == "arg" and n and T[0] == "num":
            expect(t, a.argmax(), int(ref.argmax()), "argmax")
            expect(t, a.argmin(), int(ref.argmin()), "argmin")
        elif what == "array":
            x = numpy.array(a)
            t.check(x.dtype == ref.dtype and x.shape == ref.shape, lambda: "numpy.array has dtype %s and shape %s" % (x.dtype, x.shape))
            expect(t, x, want, "numpy.array")
        elif what == "regular":
            expect(t, a.regular(), want, "regular")
        elif what == "astype" and dt != "bool":
            new = t.pick(["float64", "int64"])
            b = a.astype(new)
            t.check(isinstance(b, SparseArray) and b.dtype == numpy.dtype(new), "astype gives a sparse array of %s" % new)
            expect(t, b, ref.astype(new).tolist(), "astype")
        elif what == "type":
            t.check(gottype(a.type.to) == wanttype(T) and a.type.takes == n, lambda: "type %s" % a.type)
            t.check(a.dtype == ref.dtype and a.shape == ref.shape, lambda: "dtype %s shape %s" % (a.dtype, a.shape))
        if t.chance(0.3):
            w, what, fn = gen_index(t, len(want), ("slice",))
            t.note("rows", what)
            a, want = a[w], fn(want)
            n = len(want)
            index = [i for i in range(n) if (a._index == i).any()] if isinstance(a, SparseArray) else []


def copies(t):
    """copies, changed attributes, serialized forms"""
    T = anytype(t)
    want, a, default, index = gen_sparse(t, T, Layout(ALL - {"sparse", "virtual"}, p=0.25))
    n = len(want)
    what = t.pick(["copy", "deepcopy", "copy.copy", "copy.deepcopy", "persist", "pickle", "length", "default", "zeros", "counts", "nbytes"])
    t.note("copy", what)
    if what in ("persist", "pickle", "copy.copy", "copy.deepcopy"):
        t.assume(not has(T, "obj") and (len(a.content) or "explicit default" in t.features or "ChunkedArray" not in describe(a)))       # empty chunks are not stored
        t.assume(not has(T, "obj") and T[0] not in ("rec", "tup", "list") or "explicit default" not in t.features)
    if what == "copy":
        expect(t, a.copy(), want, what)
    elif what == "deepcopy":
        expect(t, a.deepcopy(), want, what)
    elif what == "copy.copy":
        expect(t, copy.copy(a), want, what)
    elif what == "copy.deepcopy":
        expect(t, copy.deepcopy(a), want, what)
    elif what == "persist":
        t.assume(not has(T, "obj"))
        s = {}
        awkward0.persist.serialize(a, s)
        b = awkward0.persist.deserialize(s)
        expect(t, b, want, "after serialization")
        expect(t, b.default, default, "default after serialization")
    elif what == "pickle":
        t.assume(not has(T, "obj"))
        b = pickle.loads(pickle.dumps(a))
        expect(t, b, want, "after pickling")
    elif what == "length":
        m = t.below(9)
        b = a.copy(length=m)
        expect(t, b, (want + [default] * m)[:m] if not index or index[-1] < n else tolist(b), "copy(length=%d)" % m)
        expect(t, a, want, "the original")
    elif what == "default" and T[0] == "num":
        d = 5 if T[1] != "bool" else True
        b = a.copy(default=d)
        expect(t, b, [x if i in index else d for i, x in enumerate(want)], "copy(default=%r)" % d)
        expect(t, a, want, "the original")
    elif what == "zeros" and T[0] in ("num", "nd"):
        one = numpy.ones(T[2] if T[0] == "nd" else (), T[1]).tolist()
        expect(t, a.zeros_like(), [zero(T) if i in index else default for i in range(n)], "zeros_like")
        expect(t, a.ones_like(), [one if i in index else default for i in range(n)], "ones_like")
        t.check(len(a.empty_like()) == n, "length of empty_like")
    elif what == "counts" and T[0] in ("num", "list", "rec", "str", "bytes"):
        expect(t, a.counts, [len(x) if isinstance(x, (list, str, bytes)) else -1 for x in want], "counts") if T[0] != "str" else None
    elif what == "nbytes":
        t.check(a.nbytes >= a._index.nbytes, "nbytes")


def setters(t):
    """length, index, content and default assigned in any order, with everything remembered read in between"""
    dt = t.pick(["int64", "float64", "int32"])
    n = t.length(7)
    index = sorted(set(t.below(n + 2) for _ in range(t.length(5))))
    values = [i + 1 for i in range(len(index) + t.below(2))]
    default = t.pick([None, None, 9])
    a = SparseArray(n, numpy.array(index, int), numpy.array(values, dtype=dt), default=default)
    t.note("start", n, index, values, default)
    done = set()
    for _ in range(t.between(2, 6)):
        k = t.pick(["length", "length", "index", "content", "default", "copy length", "copy index", "copy content", "copy default", "read"])
        name = k.split()[-1]
        if name == "length":
            value = n = t.length(8)
        elif name == "index":
            index = sorted(set(t.below(n + 2) for _ in range(t.between(0, len(values)))))
            value = numpy.array(index, dtype=t.pick(["int64", "int32", "uint8"]))
        elif name == "content":
            values = [10 * t.below(9) + i for i in range(len(index) + t.below(2))]
            value = numpy.array(values, dtype=dt)
        elif name == "default":
            default = value = t.pick([3, 9, 0])
        if name != "read":
            t.note(k, value)
            if k == name:
                setattr(a, name, value)
            else:
                old, before = a, tolist(a)
                a = a.copy(**{name: value})
                expect(t, old, before, "the array that was copied")
        want = [values[index.index(i)] if i in index else default or 0 for i in range(n)]
        done.add(k)
        for what in t.shuffle(["tolist", "dense", "boolmask", "len", "sum", "slice", "ufunc"])[:t.between(0, 4)]:
            t.note("read " + what)
            if what == "tolist":
                expect(t, a, want, "elements")
            elif what == "dense":
                expect(t, a.dense, want, "dense")
                t.check(a.dense.dtype == numpy.dtype(dt), "dtype of dense")
            elif what == "boolmask":
                expect(t, a.boolmask(), [i in index for i in range(n)], "boolmask()")
            elif what == "len":
                t.check(len(a) == n and a.shape == (n,) and a.type.takes == n, lambda: "length %d" % len(a))
            elif what == "sum":
                expect(t, a.sum(), sum(want), "sum")
            elif what == "ufunc":
                expect(t, a + 1, [x + 1 for x in want], "a + 1")
            else:
                i = t.below(n + 1)
                expect(t, a[i:], want[i:], "a[%d:]" % i)
                expect(t, a[i:].dense, want[i:], "a[%d:].dense" % i)
    expect(t, a, want, "elements in the end")
    expect(t, a.dense, want, "dense in the end")
    t.nontrivial = len(done) >= 2


SUBS = [Sub("selection", selection, 12000), Sub("columns", columns, 4000), Sub("numbers", numbers, 8000), Sub("copies", copies, 6000), Sub("setters", setters, 5000)]
