"""C25: conversions to Numpy and pandas, the global switches, str and repr."""
import re
import numpy
import pandas
from .common import *

ID = "C25"
RULE = ("a case builds an array of any type in any layout and converts it to Numpy or pandas, prints it, or does both with allow_tonumpy / allow_iter switched off on the "
        "instance, its class or all classes; non-trivial: at least 2 elements and either a layout feature or a type that is not plain numbers")

SCALAR = ("num", "opt", "str")


def loosely(a, b, strict=False):
    """equality of plain values in which nan may stand for missing"""
    if a is None or b is None:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, list) and x and y is None:
                return all(loosely(z, None) for z in x)
        return (a is None or a != a) and (b is None or b != b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(loosely(x, y) for x, y in zip(a, b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(loosely(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(loosely(a[k], b[k]) for k in a)
    return same(a, b)


def items(x):
    """the elements of a Numpy array, keeping the field names of records"""
    if isinstance(x, numpy.ma.core.MaskedConstant):
        return None
    if isinstance(x, numpy.ndarray) and x.dtype.names is not None and x.ndim == 0:
        x = x[()]
    if isinstance(x, numpy.void) and x.dtype.names is not None:
        return dict((n, items(x[n])) for n in x.dtype.names)
    if isinstance(x, numpy.ndarray) and (x.dtype.names is not None or x.dtype == object):
        return [items(y) for y in x]
    return tolist(x)


def untuple(v):
    """records and tuples as dicts, as structured arrays have them"""
    if isinstance(v, tuple):
        return dict((str(i), untuple(x)) for i, x in enumerate(v))
    if isinstance(v, dict):
        return dict((k, untuple(x)) for k, x in v.items())
    if isinstance(v, list):
        return [untuple(x) for x in v]
    return v


def scalars(T):
    """only numbers, or records of such"""
    return T[0] == "num" or (T[0] == "rec" and len(T[1]) > 0 and all(scalars(x) for n, x in T[1]))


def dtypeof(T):
    if T[0] == "num":
        return numpy.dtype(T[1])
    return numpy.dtype([(n, dtypeof(x)) for n, x in T[1]])


def anything(t, maxlen=6, kinds=("num", "list", "rec", "opt", "str", "union", "bytes", "tup", "nd")):
    T = gen_type(t, t.between(0, 2), kinds, NUMS)
    k = t.below(12) if "bytes" in kinds else 12
    if k == 0:
        T = ("obj", T, (), ())
    elif k == 1:
        T = ("list", ("obj", T, (), ()))
    return sample(t, T=T, special=t.chance(0.3), maxlen=maxlen)


def anynumpy(t):
    """numpy.array and numpy.asarray of every layout"""
    if t.chance(0.3):
        def flat(d):
            if d == 0 or t.chance(0.6):
                return ("num", t.pick(NUMS))
            return ("rec", tuple((n, flat(d - 1)) for n in NAMES[:t.between(1, 3)]))
        T, values, a = sample(t, T=flat(2), special=t.flag())
    else:
        T, values, a = anything(t)
    if not isinstance(a, AwkwardArray):
        t.assume(False)
    n = len(values)
    how = t.below(4)
    t.note("how", ["numpy.array", "numpy.asarray", "__array__", "dtype=object"][how])
    if how == 0:
        got = numpy.array(a)
    elif how == 1:
        got = numpy.asarray(a)
    elif how == 2:
        got = a.__array__()
    else:
        got = numpy.array(a, dtype=object)
    t.check(isinstance(got, numpy.ndarray), lambda: "not a Numpy array: %r" % type(got))
    t.check(len(got) == n, lambda: "length %d, expected %d" % (len(got), n))
    t.check(how != 3 or got.dtype == object, lambda: "dtype %s, expected object" % got.dtype)
    want = untuple(plain(values))
    g = [untuple(items(x)) for x in got]
    t.evals += 1
    t.check((loosely if "opt" in repr(T) else same)(g, want), lambda: "got %r, expected %r" % (clip(g), clip(want)))
    if how == 3:
        return
    exact = "emptychunk" not in t.features and n > 0
    if T[0] == "rec" and "sparse" in t.features:          # items of sparse arrays are unions of the content and the default
        exact = False
    if scalars(T) and exact:
        d = dtypeof(T)
        t.check(got.dtype == d and got.shape == (n,), lambda: "dtype %s, shape %s, expected %s, %s" % (got.dtype, got.shape, d, (n,)))
        if T[0] == "num" and t.flag():
            d = t.pick(["float64", "complex128", "float32"])
            same_ = numpy.array(a, dtype=d)
            w = numpy.array(values, dtype=T[1]).astype(d)
            t.check(same_.dtype == w.dtype and same(same_.tolist(), w.tolist()), lambda: "dtype=%s: %r, expected %r" % (d, same_, w))
    elif T[0] == "nd" and exact:
        t.check(got.dtype == numpy.dtype(T[1]) and got.shape == (n,) + tuple(T[2]), lambda: "dtype %s, shape %s" % (got.dtype, got.shape))
    elif T[0] == "opt" and T[1][0] == "num" and exact:
        if numpy.dtype(T[1][1]).kind in "fc" or None not in values:
            t.check(got.dtype == numpy.dtype(T[1][1]), lambda: "dtype %s, expected %s" % (got.dtype, T[1][1]))
        else:
            t.check(got.dtype == object or numpy.isnan(got.astype(float)).all(), lambda: "dtype %s although something is missing" % got.dtype)
    elif T[0] in ("list", "str", "bytes") and exact:
        t.check(got.dtype == object and got.shape == (n,), lambda: "dtype %s, shape %s, expected objects" % (got.dtype, got.shape))


################################################################ switches

class Off(object):
    """a switch turned off on an instance, its class or all classes, restored at the end"""

    def __init__(self, a, name, where):
        self.target = {0: a, 1: type(a), 2: AwkwardArray}[where]
        self.name = name

    def __enter__(self):
        self.had = self.name in self.target.__dict__
        self.old = self.target.__dict__.get(self.name)
        setattr(self.target, self.name, False)

    def __exit__(self, *exc):
        if self.had:
            setattr(self.target, self.name, self.old)
        elif self.name in self.target.__dict__:
            delattr(self.target, self.name)


def refusal(x, name):
    return isinstance(x, Refused) and isinstance(x.err, RuntimeError) and name in str(x.err)


def switched(t):
    """allow_tonumpy and allow_iter off: refused, and nothing else is"""
    T, values, a = anything(t)
    if not isinstance(a, AwkwardArray):
        t.assume(False)
    t.assume(not ("obj" in repr(T) and (T[1] if T[0] == "obj" else T[1][1])[0] not in ("num", "str", "bytes")))     # constructors of objects may iterate
    n = len(values)
    want = plain(values)
    name = t.pick(["allow_tonumpy", "allow_iter"])
    where = t.below(3)
    t.note("off", name, "on", ["the instance", "its class", "all classes"][where])
    ops = [("len", lambda: len(a)),
           ("type", lambda: str(a.type)),
           ("slice", lambda: a[t_start:t_stop]),
           ("mask", lambda: a[mask]),
           ("fancy", lambda: a[fancy]),
           ("layout", lambda: str(a.layout)),
           ("copy", lambda: a.copy())]
    t_start, t_stop = sorted([t.below(n + 1), t.below(n + 1)])
    mask = numpy.array([t.flag() for i in range(n)], dtype=bool)
    fancy = numpy.array([t.below(n) for i in range(t.below(4))] if n else [], dtype=int)
    wants = {"slice": want[t_start:t_stop], "mask": [x for x, m in zip(want, mask) if m], "fancy": [want[i] for i in fancy], "copy": want, "len": n}
    if T[0] == "num" and T[1] != "bool":
        ops += [("ufunc", lambda: a + a), ("sum", lambda: a.sum())]
    elif T[0] == "list" and T[1][0] == "num":
        ops += [("flatten", lambda: a.flatten()), ("ufunc", lambda: a == a), ("count", lambda: a.count()), ("any", lambda: a.any())]
        wants["flatten"] = [x for v in want for x in v]
        wants["count"] = [len([x for x in v if x == x]) for v in want]
    elif T[0] == "rec" and T[1]:
        c = t.pick([k for k, _ in T[1]])
        ops += [("column", lambda: a[c])]
    before = dict((k, attempt(f)) for k, f in ops)
    strs = str(a)
    with Off(a, name, where):
        if name == "allow_tonumpy":
            refused = [("numpy.array", lambda: numpy.array(a)), ("numpy.asarray", lambda: numpy.asarray(a)), ("numpy.array(dtype=object)", lambda: numpy.array(a, dtype=object)),
                       ("__array__", lambda: a.__array__()), ("numpy.concatenate", lambda: numpy.concatenate([a, a])), ("numpy.vstack", lambda: numpy.vstack([a]))]
        else:
            refused = [("list", lambda: list(a)), ("iter", lambda: next(iter(a), None)), ("loop", lambda: [x for x in a]), ("in", lambda: object() in a), ("tuple", lambda: tuple(a)), ("tolist", lambda: a.tolist())]
        what, f = t.pick(refused)
        got = attempt(f)
        t.evals += 1
        t.check(refusal(got, name), lambda: "%s with %s off gave %r" % (what, name, got))
        s1, s2 = attempt(lambda: str(a)), attempt(lambda: repr(a))
        t.check(not isinstance(s1, Refused), lambda: "str failed: %r" % s1)
        t.check(not isinstance(s2, Refused) and type(a).__name__ in s2, lambda: "repr failed: %r" % s2)
        t.check(s1 == strs, lambda: "str changed: %r, was %r" % (s1, strs))
        k, f = t.pick(ops)
        t.note("operation", k)
        got = attempt(f)
    if isinstance(before[k], Refused):
        return
    if k == "fancy" and isinstance(a, ChunkedArray) and any(isinstance(x, AwkwardArray) for x in a.chunks) and refusal(got, name):
        return                        # gathering Numpy values from chunks that are not Numpy arrays converts them
    t.check(not isinstance(got, Refused), lambda: "%s failed with %s off: %r" % (k, name, got))
    if where == 0 and isinstance(got, AwkwardArray):        # derived arrays may take over what was set on the instance
        got.allow_tonumpy = got.allow_iter = True
    if k in ("type",):
        t.check(got == before[k], lambda: "type changed: %r, was %r" % (got, before[k]))
    elif k != "layout":
        expect(t, got, wants.get(k, tolist(before[k])), "%s with %s off" % (k, name))
    # switched on again
    if not (T[0] == "union" or (where == 0 and k == "copy")):
        expect(t, list(a), want, "list after switching on again")


################################################################ checks switched off

INVALID = [
    ("starts", lambda: JaggedArray([-1, 0], [1, 2], [1, 2, 3])),
    ("mask", lambda: MaskedArray(numpy.zeros((2, 2), dtype=bool), [1, 2])),
    ("index", lambda: IndexedArray(numpy.array([0.0, 1.0]), [1, 2])),
    ("tags", lambda: UnionArray(numpy.array([0.0, 0.0]), [0, 1], [[1, 2]])),
    ("generator", lambda: VirtualArray(5)),
    ("cache", lambda: VirtualArray(lambda: [1], cache=5)),
    ("persistentkey", lambda: VirtualArray(lambda: [1], persistentkey=5)),
    ("nbytes", lambda: VirtualArray(lambda: [1], nbytes=-5)),
    ("object generator", lambda: ObjectArray([1, 2], 5)),
    ("length", lambda: SparseArray(-1, [], [])),
]


def multidim(t):
    """the switches and printing, for arrays whose own structure has two dimensions"""
    n, m = t.between(1, 4), t.between(1, 3)
    k = t.pick(["jagged", "indexed", "union"])
    S = gen_type(t, 1, ("num", "str", "list", "opt"), ("int64", "float64", "bool"))
    t.assume(k != "indexed" or S[0] in ("num", "list"))         # (masks and strings have one dimension)
    c = t.between(1, 5)
    pool = gen_values(t, S, c)
    content = build(t, S, pool, Layout(p=0.2), wrap=0)
    pool = plain(pool)
    if k == "jagged":
        se = [[sorted([t.below(c + 1), t.below(c + 1)]) for _ in range(m)] for _ in range(n)]
        a = JaggedArray(numpy.array([[x[0] for x in r] for r in se]), numpy.array([[x[1] for x in r] for r in se]), content)
        want = [[pool[i:j] for i, j in r] for r in se]
    elif k == "indexed":
        ii = [[t.below(c) for _ in range(m)] for _ in range(n)]
        a, want = IndexedArray(numpy.array(ii), content), [[pool[i] for i in r] for r in ii]
    else:
        ii = [[(t.below(2), t.below(c)) for _ in range(m)] for _ in range(n)]
        a = UnionArray(numpy.array([[x[0] for x in r] for r in ii]), numpy.array([[x[1] for x in r] for r in ii]), [content, StringArray.fromiter(["s%d" % i for i in range(c)])])
        want = [["s%d" % i if g else pool[i] for g, i in r] for r in ii]
    t.note(k, describe(a))
    t.nontrivial = n >= 2 and m >= 2
    expect(t, a, want, "values")
    expect(t, [tolist(x) for x in a], want, "iteration")
    strs, name, where = str(a), t.pick(["allow_tonumpy", "allow_iter"]), t.below(3)
    lo, hi = sorted([t.below(n + 1), t.below(n + 1)])
    i = t.below(n)
    with Off(a, name, where):
        if name == "allow_iter":
            for what, f in (("list", lambda: list(a)), ("tolist", lambda: a.tolist())):
                got = attempt(f)
                t.check(refusal(got, name), lambda: "%s with %s off gave %r" % (what, name, got))
        else:
            got = attempt(lambda: numpy.array(a))
            t.check(refusal(got, name), lambda: "numpy.array with %s off gave %r" % (name, got))
        got = attempt(lambda: str(a))
        t.check(got == strs, lambda: "str is %r, was %r" % (got, strs))
        got = attempt(lambda: repr(a))
        t.check(not isinstance(got, Refused) and type(a).__name__ in got, lambda: "repr failed: %r" % got)
        part, one = a[lo:hi], a[i]
        for x in (part, one):
            if isinstance(x, AwkwardArray) and where == 0:
                x.allow_tonumpy = x.allow_iter = True
    expect(t, part, want[lo:hi], "slice")
    expect(t, one, want[i], "element")
    expect(t, a, want, "values afterwards")


class OffAll(object):
    def __init__(self, offs):
        self.offs = offs

    def __enter__(self):
        for x in self.offs:
            x.__enter__()

    def __exit__(self, *exc):
        for x in self.offs[::-1]:
            x.__exit__(*exc)


CLASSES = [JaggedArray, MaskedArray, BitMaskedArray, IndexedMaskedArray, IndexedArray, SparseArray, UnionArray, ChunkedArray, AppendableArray, VirtualArray, ObjectArray, Table, StringArray]


def unchecked(t):
    """skipping the validity checks changes nothing about valid arrays"""
    names = t.pick([["check_prop_valid"], ["check_whole_valid"], ["check_prop_valid", "check_whole_valid"]])
    classes = [AwkwardArray] if t.flag() else CLASSES
    when = t.below(3)
    t.note("off", names, "on", "AwkwardArray" if len(classes) == 1 else "each class", "while", ["building", "using", "building and using"][when])
    off = lambda: OffAll([Off(c, n, 0) for c in classes for n in names])
    none = OffAll([])
    with (none if when == 1 else off()):
        T, values, a = anything(t)
    want = plain(values)
    n = len(want)
    if not isinstance(a, AwkwardArray):
        return
    with (none if when == 0 else off()):
        if t.flag():
            expect(t, a, want, "array")
        t.check(len(a) == n, "len")
        i, j = t.below(n + 1), t.below(n + 1)
        s = t.pick([1, 1, 2, -1])
        expect(t, a[i:j:s], want[i:j:s], "slice")
        m = numpy.array([t.flag() for _ in range(n)], dtype=bool)
        expect(t, a[m], [x for x, y in zip(want, m) if y], "masked")
        if n:
            f = [t.between(-n, n - 1) for _ in range(t.length(4, 1))]
            expect(t, a[f], [want[k] for k in f], "gathered")
            k = t.between(-n, n - 1)
            expect(t, a[k], want[k], "item")
            if T[0] in ("rec",) and T[1]:
                c = t.pick([k for k, _ in T[1]])
                expect(t, a[c][:n], [x[c] for x in want], "column")
        if T[0] == "list":
            t.check(tolist(a.counts) == [len(x) for x in want], lambda: "counts %r" % a.counts)
            if T[1][0] != "union":
                expect(t, a.flatten(), [y for x in want for y in x], "flatten")
        t.check(str(a.type) and isinstance(repr(a), str), "type")
        expect(t, a.copy(), want, "copy")
        expect(t, a.deepcopy(), want, "deepcopy")
    expect(t, a, want, "array, with the checks on again", strict=True)
    r = attempt(lambda: a.valid())
    t.check(r is True, lambda: "valid is %r" % (r,))
    # what would be refused is accepted while single properties are not checked
    what, f = t.pick(INVALID)
    r = attempt(f)
    t.check(isinstance(r, Refused), lambda: "invalid %s was accepted" % what)
    if "check_prop_valid" in names:
        with off():
            r = attempt(f)
        t.check(not isinstance(r, Refused), lambda: "invalid %s was refused with check_prop_valid off: %r" % (what, r))


################################################################ str and repr

def text(T, values, first=None):
    """what str should show, for types whose text does not depend on the layout"""
    def one(T, v):
        if v is None:
            return "None"
        if T[0] == "opt":
            return one(T[1], v)
        if T[0] == "num":
            return repr(numpy.dtype(T[1]).type(v))
        if T[0] in ("str", "bytes"):
            return repr(v)
        if T[0] == "list":
            return text(T[1], v)
        if T[0] == "nd":
            return draw(v, lambda x: x if isinstance(x, list) else numpy.dtype(T[1]).type(x))
        raise AssertionError(T)

    def draw(v, f):
        if not isinstance(v, list):
            return repr(f(v))
        if len(v) > 6:
            return "[" + " ".join(draw(x, f) for x in v[:3]) + " ... " + " ".join(draw(x, f) for x in v[-3:]) + "]"
        return "[" + " ".join(draw(x, f) for x in v) + "]"

    if first is not None:
        return "[%s ...]" % " ".join(one(T, x) for x in values[:first])
    if len(values) > 6:
        return "[%s ... %s]" % (" ".join(one(T, x) for x in values[:3]), " ".join(one(T, x) for x in values[-3:]))
    return "[%s]" % " ".join(one(T, x) for x in values)


def simple(T):
    return T[0] in ("num", "str", "bytes", "nd") or (T[0] in ("list", "opt") and simple(T[1]))


def printing(t):
    """str and repr of arrays, rows and types"""
    T, values, a = anything(t, t.pick([4, 9, 14]))
    if not isinstance(a, AwkwardArray):
        t.assume(False)
    s, r = str(a), repr(a)
    t.evals += 1
    t.check(isinstance(s, str) and isinstance(r, str), "not strings")
    s2 = str(a)              # the sizes of the chunks of a chunked array may be known by now
    t.check(s == s2 or isinstance(a, ChunkedArray), lambda: "str %r, then %r" % (s, s2))
    t.check(r.startswith("<%s %s" % (type(a).__name__, s)) or r.startswith("<%s %s" % (type(a).__name__, s2)), lambda: "repr %r of %r" % (r, s))
    if simple(T):
        want = text(T, plain(values))
        if isinstance(a, ChunkedArray) and s.endswith(" ...]"):                          # sizes of the later chunks unknown
            want = text(T, plain(values), 7)
        t.check(s.replace("-0.0", "0.0") == want.replace("-0.0", "0.0"), lambda: "str %r, expected %r" % (s, want))
    for f in (lambda: repr(a.type), lambda: str(a.type), lambda: repr(a.layout), lambda: str(a.layout)):
        t.check(isinstance(f(), str), "not a string")
    if len(values) and not isinstance(a, numpy.ndarray):
        x = a[t.below(len(values))]
        t.check(isinstance(str(x), str) and isinstance(repr(x), str), "an element")


################################################################ pandas, without flattening

def extension(t):
    """Series and DataFrames of awkward arrays"""
    T, values, a = anything(t, kinds=("num", "list", "rec", "opt", "str", "union", "obj"))
    if not isinstance(a, AwkwardArray):
        t.assume(False)
    t.assume(not (T[0] == "rec" and any(x[0] == "nd" or (x[0] == "opt" and x[1][0] == "nd") for _, x in T[1])))     # the columns of a DataFrame are one-dimensional
    t.assume(not ("emptychunk" in t.features or (T[0] == "rec" and not len(values))))                  # no columns are known
    want = plain(values)
    n = len(want)
    df = awkward0.topandas(a)
    if T[0] == "rec" and T[1]:
        t.check(isinstance(df, pandas.DataFrame), lambda: "%r for a table" % type(df))
        t.check(list(df.columns) == [k for k, _ in T[1]], lambda: "columns %r" % list(df.columns))
    if isinstance(df, pandas.DataFrame):
        t.check(list(df.columns) == a.columns, lambda: "columns %r" % list(df.columns))
        c = t.pick(list(df.columns))
        t.check(len(df) == n, lambda: "length %d" % len(df))
        s, w = df[c], ([x[c] for x in want] if T[0] == "rec" else tolist(a[c])[:n])
        t.note("column", c)
    else:
        t.check(isinstance(df, pandas.Series), lambda: "%r" % type(df))
        s, w = df, want
    t.check(list(s.index) == list(range(n)), lambda: "index %r" % list(s.index))
    eq = loosely if "opt" in repr(T) else same
    expect(t, s.values, w, "values", eq=eq)
    i, j = t.below(n + 1), t.below(n + 2)
    expect(t, s[i:j].values, w[i:j], "sliced", eq=eq)
    t.check(list(s[i:j].index) == list(range(n))[i:j], "index of the slice")
    m = numpy.array([t.flag() for _ in range(n)], dtype=bool)
    expect(t, s[m].values, [x for x, y in zip(w, m) if y], "masked", eq=eq)
    t.check(list(s[m].index) == [k for k in range(n) if m[k]], "index of the masked")
    if isinstance(df, pandas.DataFrame):
        expect(t, df[i:j][c].values, w[i:j], "sliced frame", eq=eq)
        expect(t, df[m][c].values, [x for x, y in zip(w, m) if y], "masked frame", eq=eq)
    if n:
        k = t.below(n)
        expect(t, s.iloc[k], w[k], "iloc", eq=eq)
    t.check(isinstance(str(s), str), "str")
    if T[0] == "list" and T[1][0] == "num" and T[1][1] in ("int64", "float64") and s is df:
        expect(t, (s + 1).values, [[x + 1 for x in v] for v in w], "plus one")
        expect(t, (s == s).values, [[x == x for x in v] for v in w], "equal")
    if isinstance(s.values, AwkwardArray):
        p = [t.below(n) for _ in range(t.below(4))] if n else []
        expect(t, s.take(p).values, [w[k] for k in p], "take", eq=eq)
        t.check(s.isna().tolist() == [x is None for x in w] or T[0] != "opt", lambda: "isna %r" % s.isna().tolist())


def deeply(x):
    if isinstance(x, numpy.ndarray) and x.dtype == object:
        return [deeply(y) for y in x]
    return [deeply(y) for y in x] if isinstance(x, list) else tolist(x)


def classes(s):
    """the classes an array is made of, from the outside to the inside"""
    return re.findall("[A-Z][A-Za-z]+|np", re.sub("'[^']*'|b\"[^\"]*\"", "", describe(s.values)))


def wrapped(t):
    """the arrays in a Series behave like the arrays they wrap, and Pandas operations on them act on their elements"""
    T, values, a = anything(t, kinds=("num", "list", "rec", "opt", "str", "union"))
    if not isinstance(a, AwkwardArray):
        t.assume(False)
    t.assume(not ("emptychunk" in t.features or T[0] == "rec"))
    n = len(values)
    want = plain(values)
    s = awkward0.topandas(a)
    w = s.values
    if not isinstance(w, AwkwardArray):
        return
    t.check(str(s.dtype) == "awkward0", lambda: "dtype %r" % s.dtype)
    base = [c for c in type(w).__mro__ if c.__module__.startswith("awkward0.array") and c in CLASSES]
    t.check(isinstance(w, pandas.api.extensions.ExtensionArray) and type(w).__name__ == base[0]._topandas_name, lambda: "class %r" % type(w))
    eq = loosely if "opt" in repr(T) else same
    i, j = sorted([t.below(n + 1), t.below(n + 1)])
    m = numpy.array([t.flag() for _ in range(n)], dtype=bool)
    f = numpy.array([t.between(-n, n - 1) for _ in range(t.below(4))] if n else [], dtype=int)
    ops = [("tolist", lambda x: x.tolist()), ("slice", lambda x: x[i:j]), ("mask", lambda x: x[m]), ("gather", lambda x: x[f]), ("copy", lambda x: x.copy()), ("deepcopy", lambda x: x.deepcopy()),
           ("type", lambda x: str(x.type)), ("len", lambda x: len(x)), ("concatenate", lambda x: x.concatenate([x])), ("boolmask", lambda x: x.boolmask(maskedwhen=True)), ("valid", lambda x: x.valid()),
           ("counts", lambda x: x.counts), ("ufunc", lambda x: x + 1), ("less", lambda x: x < 2), ("equal", lambda x: x == x), ("item", lambda x: x[n // 2] if n else None), ("iter", lambda x: list(x)),
           ("sum", lambda x: x.sum()), ("max", lambda x: x.max()), ("any", lambda x: x.any()), ("mean", lambda x: x.mean()), ("astype", lambda x: x.astype("float32")), ("zeros", lambda x: x.zeros_like()),
           ("flatten", lambda x: x.flatten()), ("pad", lambda x: x.pad(2)), ("pairs", lambda x: x.pairs()), ("inner", lambda x: x[:, :1]), ("numpy", lambda x: numpy.array(x, dtype=object)),
           ("fillna", lambda x: x.fillna(0)), ("nbytes", lambda x: x.nbytes), ("columns", lambda x: x.columns), ("two", lambda x: x * x - x)]
    if has(T, "opt", "union"):
        ops = ops[:18]               # more need the Numpy dtype of the parts, which a part wrapped for Pandas does not give (not fully implemented)
    if "appendable" in t.features:
        ops = [x for x in ops if x[0] != "nbytes"]         # the wrapped array has no room to append to
    for name, op in [t.pick(ops) for _ in range(4)]:
        t.note("operation", name)
        x, y = attempt(lambda: op(a)), attempt(lambda: op(w))
        if isinstance(x, Refused):
            continue
        t.check(not isinstance(y, Refused), lambda: "%s of the wrapped array raised %r" % (name, y))
        expect(t, deeply(y), deeply(x), "%s of the wrapped array" % name, eq=lambda p, q: close(p, q, 1e-6))
        if isinstance(y, AwkwardArray) and name in ("slice", "mask", "gather", "copy", "ufunc", "two"):
            t.check(isinstance(y, pandas.api.extensions.ExtensionArray), lambda: "%s of the wrapped array is a %s" % (name, type(y).__name__))
    if n:
        t.nontrivial = True
    # Pandas operations
    what = t.below(6)
    t.note("Pandas", what)
    if what == 0:
        parts = [s, s[i:j]]
        r = attempt(lambda: pandas.concat(parts))
        t.assume(not (isinstance(r, Refused) and (isinstance(r.err, NotImplementedError) or classes(parts[0]) != classes(parts[1]))))      # arrays of unlike classes may be refused
        t.check(not isinstance(r, Refused), lambda: "pandas.concat: %r" % r)
        expect(t, r.values, want + want[i:j], "pandas.concat", eq=eq)
        t.check(list(r.index) == list(range(n)) + list(range(i, j)), "index of pandas.concat")
    elif what == 1:
        index = [t.between(0, n + 1) for _ in range(t.below(5))]
        r = attempt(lambda: s.reindex(index))
        if isinstance(r, Refused) and isinstance(r.err, NotImplementedError):
            return
        t.check(not isinstance(r, Refused), lambda: "reindex(%r): %r" % (index, r))
        got = tolist(r.values)
        t.check(all(same(x, want[k]) or eq(x, want[k]) if k < n else x is None for x, k in zip(got, index)) and len(got) == len(index), lambda: "reindex(%r) gave %r" % (index, got))
    elif what == 2:
        order = t.shuffle(range(n))
        r = s.iloc[order]
        expect(t, r.values, [want[k] for k in order], "iloc", eq=eq)
        expect(t, r.sort_index().values, want, "sort_index", eq=eq)
    elif what == 3:
        expect(t, s.head(2).values, want[:2], "head", eq=eq)
        expect(t, s.tail(2).values, want[-2:] if n else [], "tail", eq=eq)
        expect(t, s.copy().values, want, "copy", eq=eq)
    elif what == 4:
        r = s.astype(s.dtype)
        expect(t, r.values, want, "astype of the same dtype", eq=eq)
        t.check(str(r.dtype) == "awkward0", "astype of the same dtype")
        t.check(s.isna().tolist() == [x is None for x in want] or T[0] != "opt", lambda: "isna %r" % s.isna().tolist())
    elif what == 5:
        df = pandas.DataFrame({"a": s, "b": numpy.arange(n)})
        d = df[df.b % 2 == 1]
        expect(t, d.a.values, want[1::2], "rows of a DataFrame", eq=eq)
    # Numpy arrays
    z = numpy.array([gen_num(t, "int64") for _ in range(n)])
    r = awkward0.topandas(z)
    t.check(isinstance(r, pandas.Series) and r.tolist() == z.tolist(), "topandas of a Numpy array")
    z = numpy.array([(k, k * 1.5) for k in range(n)], dtype=[("p", "i8"), ("q", "f4")])
    r = awkward0.topandas(z)
    t.check(isinstance(r, pandas.DataFrame) and list(r.columns) == ["p", "q"] and r.q.tolist() == z["q"].tolist() and r.p.tolist() == z["p"].tolist(), "topandas of a structured Numpy array")


################################################################ pandas, flattened

def leaf(t, jag=True):
    k = t.below(10)
    if k < 6:
        return ("num", t.pick(NUMS))
    if k < 8:
        return ("str",)
    return ("opt", ("num", t.pick(["int64", "float64"])))


def frec(t, d):
    return ("rec", tuple((n, leaf(t) if d == 0 or t.chance(0.7) else frec(t, d - 1)) for n in NAMES[:t.between(1, 3)]))


def flattened(t):
    """topandas(flatten=True)"""
    depth = t.pick([0, 1, 1, 2, 2])            # of the lists
    n = t.length(5)
    shape = None
    kind = t.below(4)

    def nest(counts, one, d):
        if d == 0:
            return one()
        return [nest(c, one, d - 1) for c in counts]

    def draw(d):
        if d == 0:
            return None
        return [draw(d - 1) for _ in range(t.below(4))]
    counts = [draw(depth) for _ in range(n)]
    jagrec = depth > 0 and t.chance(0.35)
    inner = frec(t, 1) if jagrec else None

    def column(d):
        """type of a column below d tables and a function giving its values"""
        k = t.below(10)
        if depth > 0 and k < 5:
            X = inner if jagrec else leaf(t)
            J = X
            for _ in range(depth):
                J = ("list", J)
            return J, [nest(c, lambda: gen_value(t, X, 3), depth) for c in counts]
        if k < 8 or d == 0:
            X = leaf(t)
            return X, gen_values(t, X, n)
        cols = [(nm,) + column(d - 1) for nm in NAMES[:t.between(1, 3)]]
        return ("rec", tuple((nm, X) for nm, X, v in cols)), [dict((nm, v[i]) for nm, X, v in cols) for i in range(n)]
    if kind == 0:
        X = inner if jagrec else leaf(t)
        T = X
        for _ in range(depth):
            T = ("list", T)
        values = [nest(c, lambda: gen_value(t, X, 3), depth) for c in counts]
    else:
        cols = [(nm,) + column(t.below(2)) for nm in NAMES[:t.between(1, 3)]]
        T = ("rec", tuple((nm, X) for nm, X, v in cols))
        values = [dict((nm, v[i]) for nm, X, v in cols) for i in range(n)]
    T, values, a = fixed(t, T, values)
    if not isinstance(a, AwkwardArray):
        t.assume(False)

    def paths(T, p=()):
        if T[0] == "rec":
            return [y for k, X in T[1] for y in paths(X, p + (k,))]
        if T[0] == "list":
            return paths(T[1], p)
        return [p]

    def at(v, p, where):
        if isinstance(v, list):
            return at(v[where[0]], p, where[1:])
        if isinstance(v, dict):
            return at(v[p[0]], p[1:], where)
        return v

    def haslist(T):
        return T[0] == "list" or (T[0] == "rec" and any(haslist(x) for _, x in T[1]))
    d = depth if haslist(T) else 0
    rows = []

    def walk(c, where, left):
        if left == 0:
            rows.append(where)
        else:
            for i, x in enumerate(c):
                walk(x, where + (i,), left - 1)
    for i in range(n):
        walk(counts[i], (i,), d)
    if n >= 2:
        t.nontrivial = True
    df = attempt(lambda: awkward0.topandas(a, flatten=True))
    if isinstance(df, Refused):
        t.assume(not (isinstance(df.err, NotImplementedError) and "BitMaskedArray" in str(df.err)))       # joining the chunks
        raise df.err
    ps = paths(T)
    deepest = max(len(p) for p in ps)
    t.evals += 1
    index = [x if isinstance(x, tuple) else (x,) for x in df.index.tolist()]
    t.check(index == rows, lambda: "index %r, expected %r" % (index, rows))
    if deepest == 0:
        t.check(isinstance(df, pandas.Series), lambda: "%r" % type(df))
        got = {(): df}
    else:
        t.check(isinstance(df, pandas.DataFrame), lambda: "%r" % type(df))
        cols = [x if isinstance(x, tuple) else (x,) for x in df.columns.tolist()]
        want = [p + ("",) * (deepest - len(p)) for p in ps]
        t.check(sorted(cols) == sorted(want), lambda: "columns %r, expected %r" % (cols, want))
        got = dict((p, df.iloc[:, cols.index(w)]) for p, w in zip(ps, want))
    for p in ps:
        w = [at(values[r[0]], p, r[1:]) for r in rows]
        g = [None if x is None or x is pandas.NA else x for x in got[p].tolist()]
        t.check(loosely(g, w), lambda: "column %r: %r, expected %r" % (p, clip(g), clip(w)))


def fixed(t, T, values):
    a = build(t, T, values, Layout(p=0.3), wrap=t.below(2))
    t.note("type", tstr(T))
    t.note("array", describe(a))
    return T, values, a


def exactly(x):
    """plain values, with the kind of each number"""
    if isinstance(x, (list, tuple)):
        return [exactly(y) for y in x]
    if isinstance(x, dict):
        return dict((k, exactly(y)) for k, y in x.items())
    return (type(x).__name__, repr(x)) if isinstance(x, (bool, int, float, str, bytes)) else repr(x)


def unionchunks(t):
    """numpy.array of chunks that look alike or unlike, depending on what was selected of them"""
    alts = t.pick([("int64", "float64"), ("int64", "float64"), ("bool", "int64"), ("float32", "int64"), ("int8", "int64"), ("int64", "float64", "bool"), ("int64", "int32"), ("int64", "list"), ("str", "int64")])
    draw = {"list": lambda: [t.between(-3, 3) for _ in range(t.below(3))], "str": lambda: t.pick(["", "a", "bcd"])}
    chunks, want, tags = [], [], []
    for _ in range(t.between(1, 4)):
        only = t.chance(0.4)
        one = t.below(len(alts))
        tg = [one if only else t.below(len(alts)) for _ in range(t.length(4))]
        conts, vals = [], []
        for k, x in enumerate(alts):
            m = tg.count(k) + t.below(2)
            v = [draw[x]() for _ in range(m)] if x in draw else [gen_num(t, x) for _ in range(m)]
            vals.append(v)
            c = StringArray.fromiter(v) if x == "str" else (JaggedArray.fromiter(v) if v else JaggedArray([], [], numpy.array([], dtype="int64"))) if x == "list" else numpy.array(v, dtype=x)
            conts.append(c)
        u = UnionArray.fromtags(numpy.array(tg, dtype=t.pick(["uint8", "int8", "int64"])), conts)
        it = [iter(v) for v in vals]
        want.extend(next(it[k]) for k in tg)
        tags.extend(tg)
        k = t.below(6)
        if k == 0:
            u = IndexedArray(numpy.arange(len(u)), u)
        elif k == 1:
            u = VirtualArray(lambda u=u: u)
        chunks.append(u)
    def typeof(x):
        return awkward0.type.fromarray(x).to
    for _ in range(2):
        if len(chunks) >= 2 and t.flag():
            k = t.below(len(chunks) - 1)
            if len(chunks[k]) and len(chunks[k + 1]) and typeof(chunks[k]) == typeof(chunks[k + 1]):          # chunks must be of the same type
                x = ChunkedArray(chunks[k:k + 2])
                if t.chance(0.4):
                    x = IndexedArray(numpy.arange(len(x)), x) if t.flag() else VirtualArray(lambda x=x: x)
                chunks[k:k + 2] = [x]
                t.feature("nested")
    n = len(want)
    t.note("alternatives", alts, "tags", tags, "chunks", [describe(c) for c in chunks])
    a = ChunkedArray(chunks)
    if t.chance(0.3):
        a = IndexedArray(numpy.arange(n), a)
        t.feature("indexed")
    w = [exactly(x) for x in want]
    rows = list(range(n))
    for _ in range(t.between(1, 2)):
        k = t.below(4)
        if k == 0:
            i, j = sorted([t.below(len(rows) + 1), t.below(len(rows) + 1)])
            s = t.pick([1, 1, 2, -1])
            a, rows = a[i:j][::s], rows[i:j][::s]
            t.note("slice", i, j, s)
        elif k == 1:
            m = [t.flag() for _ in rows]
            a, rows = a[numpy.array(m, dtype=bool)], [r for r, x in zip(rows, m) if x]
            t.note("mask", m)
        elif k == 2:
            f = [t.below(len(rows)) for _ in range(t.below(5))] if rows else []
            a, rows = a[numpy.array(f, dtype=int)], [rows[x] for x in f]
            t.note("index", f)
        else:                # only those of some alternatives
            keep = t.below(len(alts))
            m = [(tags[r] == keep) != t.chance(0.1) for r in rows]
            a, rows = a[numpy.array(m, dtype=bool)], [r for r, x in zip(rows, m) if x]
            t.note("of alternative", keep, m)
    used = set(tags[r] for r in rows)
    if len(rows) >= 2 and len(chunks) >= 2 and len(set(tags)) > 1:
        t.nontrivial = True
    g = attempt(lambda: a.tolist())
    t.check(not isinstance(g, Refused) and [exactly(x) for x in g] == [w[r] for r in rows], lambda: "tolist %r, expected %r" % (g, [want[r] for r in rows]))
    if not isinstance(a, AwkwardArray):
        return
    got = attempt(lambda: numpy.array(a))
    t.evals += 1
    t.check(isinstance(got, numpy.ndarray) and got.shape == (len(rows),), lambda: "numpy.array gave %r" % (got,))
    if len(used) == 1 and alts[min(used)] not in draw:
        t.check(same(got.tolist(), [want[r] for r in rows]), lambda: "numpy.array %r, expected %r" % (got, [want[r] for r in rows]))
    elif got.dtype == object:
        x = [exactly(tolist(y)) for y in got]
        t.check(x == [w[r] for r in rows], lambda: "numpy.array %r, expected %r" % (got, [want[r] for r in rows]))
    else:
        x = got.tolist()
        t.check(same(x, [want[r] for r in rows]), lambda: "numpy.array %r, expected %r" % (got, [want[r] for r in rows]))


def mixedunions(t):
    """a union of any number types becomes a Numpy array that holds all their values, before and after a change of contents"""
    pool = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "complex64", "complex128"]

    def make(dts, counts):
        out = []
        for d, c in zip(dts, counts):
            k = numpy.dtype(d).kind
            if k in "iu":
                hi, lo = int(numpy.iinfo(d).max), int(numpy.iinfo(d).min)
                v = [t.pick([hi, lo, hi - 1, lo + 1, 0, 1, 2**53 + 1 if hi > 2**53 + 1 else 3]) for _ in range(c)]
            elif k == "b":
                v = [t.flag() for _ in range(c)]
            else:
                v = [t.pick([0.5, -2.25, 1.0, float(numpy.finfo(d).max), 0.0]) for _ in range(c)]
            out.append(numpy.array(v, dtype=d))
        return out

    def look(u, contents, tags, index, what):
        want = [contents[g][i] for g, i in zip(tags, index)]
        kinds = set(c.dtype for c in contents)
        d = u.dtype
        t.check(all(numpy.can_cast(k, d, "safe") for k in kinds), lambda: "%s: dtype %s for %s" % (what, d, sorted(map(str, kinds))))
        if len(kinds) == 1:
            t.check(d in kinds, lambda: "%s: dtype %s for %s" % (what, d, kinds))
        if all(k.kind in "iufc" for k in kinds):
            t.check(d.kind in "iufc", lambda: "%s: dtype %s for %s" % (what, d, sorted(map(str, kinds))))
        for how, got in (("array", attempt(numpy.array, u)), ("regular", attempt(u.regular))):
            t.evals += 1
            t.check(isinstance(got, numpy.ndarray) and got.dtype == d and got.shape == (len(tags),), lambda: "%s: %s is %r, expected dtype %s and length %d" % (what, how, got, d, len(tags)))
            w = numpy.empty(len(want), dtype=d)
            for i, x in enumerate(want):
                w[i] = x
            t.check(same(got.tolist(), w.tolist()), lambda: "%s: %s is %r, expected %r" % (what, how, got.tolist(), w.tolist()))
            if d.kind in "iub":
                t.check(same(got.tolist(), [x.item() for x in want]), lambda: "%s: %s is %r, expected %r" % (what, how, got.tolist(), want))
        expect(t, u, [x.item() for x in want], what)

    group = t.pick([pool, pool[1:9], ["int8", "uint8", "int16"], ["uint8", "uint16", "uint32", "uint64"], pool[9:12], pool[1:14], pool[12:]])
    k = t.between(1, 3)
    dts = [t.pick(group) for _ in range(k)]
    counts = [t.below(4) for _ in range(k)]
    contents = make(dts, counts)
    tags = t.shuffle([g for g in range(k) for _ in range(counts[g])])
    index = [t.below(counts[g]) for g in tags]
    t.nontrivial = len(set(dts)) > 1 and len(tags) > 1
    t.feature("kinds:" + "".join(sorted(set(numpy.dtype(d).kind for d in dts))))
    u = UnionArray(numpy.array(tags, dtype=numpy.uint8), numpy.array(index, dtype=numpy.int64), contents)
    t.note("dtypes", dts)
    look(u, contents, tags, index, "the union")
    # the contents are replaced
    contents = make([t.pick(group) for _ in range(k)], counts)
    how = t.below(2)
    if how == 0:
        u.contents = contents
    else:
        u = u.copy(contents=contents)
    look(u, contents, tags, index, "contents set" if how == 0 else "a copy with other contents")


SUBS = [
    Sub("mixedunions", mixedunions, 2500),
    Sub("tonumpy", anynumpy, 7200),
    Sub("unionchunks", unionchunks, 2000),
    Sub("unchecked", unchecked, 5000),
    Sub("multidim", multidim, 3000),
    Sub("wrapped", wrapped, 4000),
    Sub("switches", switched, 7200),
    Sub("strings", printing, 5600),
    Sub("extension", extension, 2000),
    Sub("flattened", flattened, 3200),
]
