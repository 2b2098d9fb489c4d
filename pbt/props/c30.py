"""C30: operations compose."""
import itertools
import pickle
from .common import *
from .indexing import gen_index, gen_slice
from .c21 import must
import awkward0.persist

ID = "C30"
RULE = ("a case draws an array of any type in any layout and performs 2 to 7 operations of any kind on it (selections, jagged selections, columns, arithmetic, flattening, "
        "padding, combinations, reducers, copies, serialized forms, and putting the result into new structures), each on the result of the previous, compared with a "
        "model of nested lists after every step; non-trivial: at least 3 operations of different kinds on at least 2 elements")

LAY = Layout(ALL, p=0.25)


class State(object):
    def __init__(self, T, v, a):
        self.T, self.v, self.a = T, v, a
        self.lazy = False      # has a VirtualArray of a function that can't be serialized


def numeric(T):
    k = T[0]
    if k == "num":
        return T[1] != "bool"
    if k in ("list", "opt"):
        return numeric(T[1])
    if k == "rec":
        return all(numeric(x) for _, x in T[1])
    if k == "tup":
        return all(numeric(x) for x in T[1])
    return False


def deep(fn, v):
    if v is None:
        return None
    if isinstance(v, list):
        return [deep(fn, x) for x in v]
    if isinstance(v, dict):
        return dict((k, deep(fn, x)) for k, x in v.items())
    if isinstance(v, tuple):
        return tuple(deep(fn, x) for x in v)
    return fn(v)


def floats(T):
    k = T[0]
    if k == "num":
        return ("num", "float64")
    if k in ("list", "opt"):
        return (k, floats(T[1]))
    if k == "rec":
        return (k, tuple((n, floats(x)) for n, x in T[1]))
    return (k, tuple(floats(x) for x in T[1]))


def bools(T):
    return ("num", "bool") if T[0] == "num" else (T[0], bools(T[1]))


def stripped(T):
    """without missing values"""
    return stripped(T[1]) if T[0] == "opt" else T


# each operation returns (what, type, values, function of the array) or None if it does not apply

def select(t, s):
    w, what, fn = gen_index(t, len(s.v), ("slice", "mask", "fancy"))
    if fn is None:
        return None
    return what, s.T, fn(s.v), lambda a: a[w]


def inner_slice(t, s):
    if s.T[0] != "list":
        return None
    w = gen_slice(t, 3)
    return "[:, %r]" % w, s.T, [x[w] for x in s.v], lambda a: a[:, w]


def inner_int(t, s):
    if s.T[0] != "list" or not s.v or any(len(x) == 0 for x in s.v):
        return None
    w = t.pick([0, -1])
    return "[:, %r]" % w, s.T[1], [x[w] for x in s.v], lambda a: a[:, w]


def jagged_mask(t, s):
    if s.T[0] != "list" or not isinstance(s.a, JaggedArray):
        return None
    m = [[t.flag() for _ in x] for x in s.v]
    j = JaggedArray.fromcounts([len(x) for x in m], numpy.array([y for x in m for y in x], bool))
    return "jagged mask %r" % m, s.T, [[y for y, k in zip(x, n) if k] for x, n in zip(s.v, m)], lambda a: a[j]


def jagged_index(t, s):
    if s.T[0] != "list" or not isinstance(s.a, JaggedArray):
        return None
    m = [[t.below(len(x)) for _ in range(t.below(3))] if x else [] for x in s.v]
    j = JaggedArray.fromcounts([len(x) for x in m], numpy.array([y for x in m for y in x], int))
    return "jagged index %r" % m, s.T, [[x[i] for i in n] for x, n in zip(s.v, m)], lambda a: a[j]


def flatten(t, s):
    if s.T[0] != "list" or not s.v:
        return None
    return "flatten", s.T[1], [y for x in s.v for y in x], lambda a: a.flatten()


def counts(t, s):
    if s.T[0] != "list":
        return None
    return "counts", ("num", "int64"), [len(x) for x in s.v], lambda a: a.counts


def pad(t, s):
    if s.T[0] != "list" or s.T[1][0] == "union":
        return None
    n, clip = t.below(4), t.flag()
    S = s.T[1] if s.T[1][0] == "opt" else ("opt", s.T[1])
    return "pad(%d, clip=%r)" % (n, clip), ("list", S), [(x + [None] * (n - len(x)))[:n if clip else None] for x in s.v], lambda a: a.pad(n, clip=clip)


def reducer(t, s):
    if s.T[0] != "list" or stripped(s.T[1])[0] != "num" or stripped(s.T[1])[1] == "bool":
        return None
    name = t.pick(["sum", "count", "count_nonzero", "any", "prod"])
    f = {"sum": sum, "count": len, "count_nonzero": lambda x: sum(1 for y in x if y), "any": lambda x: any(x), "prod": lambda x: numpy.prod(numpy.array(x, dtype=stripped(s.T[1])[1])).item()}[name]
    S = ("num", "bool") if name == "any" else ("num", "int64") if name.startswith("count") else ("num", stripped(s.T[1])[1])
    v = [f([y for y in x if y is not None]) for x in s.v]
    if any(abs(x) > 1e9 for x in v) or S[1] not in ("int64", "float64", "bool"):
        return None
    return name, S, v, lambda a: getattr(a, name)()


def argmax(t, s):
    if s.T[0] != "list" or s.T[1][0] != "num" or s.T[1][1] == "bool" or "Union" in describe(s.a) or "Sparse" in describe(s.a):
        return None       # (positions in the numbers of a union are not implemented)
    name = t.pick(["argmax", "argmin"])
    f = max if name == "argmax" else min
    return name, ("list", ("num", "int64")), [[x.index(f(x))] if x else [] for x in s.v], lambda a: getattr(a, name)()


def combos(t, s):
    if s.T[0] != "list" or sum(len(x) ** 2 for x in s.v) > 150 or has(s.T, "tup") or not isinstance(s.a, JaggedArray):
        return None       # (tuples of tuples are flattened, as documented)
    name = t.pick(["pairs", "distincts", "self cross"])
    T = ("list", ("tup", (s.T[1], s.T[1])))
    if name == "pairs":
        return name, T, [list(itertools.combinations_with_replacement(x, 2)) for x in s.v], lambda a: a.pairs()
    if name == "distincts":
        return name, T, [list(itertools.combinations(x, 2)) for x in s.v], lambda a: a.distincts()
    return name, T, [list(itertools.product(x, x)) for x in s.v], lambda a: a.cross(a)


def column(t, s):
    T, lists = s.T, 0
    while T[0] in ("list", "opt"):
        T = T[1]
    if T[0] not in ("rec", "tup"):
        return None
    fields = T[1] if T[0] == "rec" else tuple((str(i), x) for i, x in enumerate(T[1]))
    n, S = t.pick(fields)

    def newtype(U):
        if U[0] == "opt":
            V = newtype(U[1])
            return V if V[0] == "opt" else ("opt", V)
        return (U[0], newtype(U[1])) if U[0] == "list" else S
    get = (lambda x: x[n]) if T[0] == "rec" else (lambda x: x[int(n)])

    def pick(v):
        return None if v is None else [pick(x) for x in v] if isinstance(v, list) else get(v)
    return "column %r" % n, newtype(s.T), pick(s.v), lambda a: fit(a[n], s)


def fit(column, s):
    """the columns of a table may be longer than the table"""
    a = s.a
    while isinstance(a, VirtualArray):
        a = a.array
    return column[:len(s.v)] if isinstance(a, Table) else column


def someof(t, s):
    if s.T[0] != "rec":
        return None
    fields = t.shuffle(list(s.T[1]))[:t.between(1, len(s.T[1]))]
    names = [n for n, _ in fields]
    return "columns %r" % names, ("rec", tuple(fields)), [dict((n, x[n]) for n in names) for x in s.v], lambda a: fit(a[names], s)


def setcolumn(t, s):
    if s.T[0] != "rec" or not isinstance(s.a, Table) or s.a._view is not None:
        return None
    S = gen_type(t, t.below(2), ("num", "list", "str", "opt"))
    new = gen_values(t, S, len(s.v))
    n = t.pick(["x", "new", "y"])
    b = build(t, S, new, LAY, wrap=1)
    v = [dict(x) for x in s.v]
    for x, y in zip(v, plain(new)):
        x[n] = y

    def fn(a):
        a = a.copy()
        a[n] = b
        return a
    return "set column %r" % n, ("rec", tuple((m, x) for m, x in s.T[1] if m != n) + ((n, S),)), v, fn


def arithmetic(t, s):
    if not numeric(s.T) or any_big(s.v):
        return None
    k = t.below(5)
    F = floats(s.T)
    return [("+ 1.5", F, deep(lambda x: x + 1.5, s.v), lambda a: a + 1.5),
            ("* 2.0", F, deep(lambda x: x * 2.0, s.v), lambda a: 2.0 * a),
            ("negative", F, deep(lambda x: -1.0 * x, s.v), lambda a: -(a * 1.0)),
            ("a + a*1.0", F, deep(lambda x: x + x * 1.0, s.v), lambda a: a + a * 1.0),
            ("square", F, deep(lambda x: float(x) * x, s.v), lambda a: numpy.multiply(a * 1.0, a))][k]


def any_big(v):
    big = []
    deep(lambda x: big.append(1) if abs(x) > 1e6 else None, v)
    return bool(big)


def compare(t, s):
    if not numeric(s.T) or has(s.T, "rec", "tup"):
        return None
    c = t.pick([0, 1, 5])
    return "> %d" % c, bools(s.T), deep(lambda x: x > c, s.v), lambda a: a > c


def ownmask(t, s):
    """select with a comparison of the array itself"""
    if not numeric(s.T) or has(s.T, "rec", "tup", "opt"):
        return None
    c = t.pick([0, 1])
    if s.T[0] == "num":
        return "a[a > %d]" % c, s.T, [x for x in s.v if x > c], lambda a: a[numpy.array(a > c, dtype=bool)]
    if s.T[1][0] == "num" and isinstance(s.a, JaggedArray) and any(s.v):       # (the dtype of empty chunks is not known)
        return "a[a > %d]" % c, s.T, [[y for y in x if y > c] for x in s.v], lambda a: a[a > c]
    return None


def fillna(t, s):
    if not numeric(s.T) or has(s.T, "rec", "tup"):
        return None
    S = s.T

    def fill(T, v):
        if T[0] == "opt":
            return 7 if v is None and T[1][0] == "num" else v if v is None else fill(T[1], v)
        return [fill(T[1], x) for x in v] if T[0] == "list" else v

    def newtype(T):
        return newtype(T[1]) if T[0] == "opt" and T[1][0] == "num" else (T[0], newtype(T[1])) if T[0] != "num" else T
    if "opt" in outer(S):
        return None
    return "fillna(7)", newtype(S), [fill(S, x) for x in s.v], lambda a: a.fillna(7)


def outer(T):
    """kinds of types around a list"""
    return ((T[0],) + outer(T[1]) if has(T[1], "list") else ()) if T[0] in ("list", "opt") else ()


def joined(t, s):
    w = gen_slice(t, len(s.v))
    first = t.flag()
    if has(s.T, "union") or not must([s.a, s.a[w]]) or not isinstance(s.a[w], AwkwardArray):
        return None       # arrays of unlike classes may be refused
    return "concatenate with [%r]" % w, s.T, (s.v + s.v[w] if first else s.v[w] + s.v), lambda a: awkward0.AwkwardArray.concatenate([a, a[w]] if first else [a[w], a])


def emptychunks(a):
    """empty chunks are not serialized, and what has only empty chunks loses its type"""
    if isinstance(a, ChunkedArray) and (len(a.chunks) == 0 or any(len(c) == 0 for c in a.chunks)):
        return True
    inner = a.chunks if isinstance(a, ChunkedArray) else a.contents if isinstance(a, UnionArray) else a._contents.values() if isinstance(a, Table) else [a.array] if isinstance(a, VirtualArray) else [getattr(a, "_content", None)]
    return any(emptychunks(x) for x in inner if isinstance(x, AwkwardArray))


def copies(t, s):
    k = t.below(2 if s.lazy or emptychunks(s.a) or has(s.T, "obj") else 4)
    return [("copy", s.T, s.v, lambda a: a.copy()), ("deepcopy", s.T, s.v, lambda a: a.deepcopy()), ("pickle", s.T, s.v, lambda a: pickle.loads(pickle.dumps(a))), ("persist", s.T, s.v, roundtrip)][k]


def roundtrip(a):
    store = {}
    awkward0.persist.serialize(a, store)
    return awkward0.persist.deserialize(store)


def known(T, v):
    """the values show the type"""
    if not v:
        return False
    k = T[0]
    if k == "list":
        return known(T[1], [y for x in v for y in x])
    if k == "opt":
        return None in v and known(T[1], [x for x in v if x is not None])
    if k == "rec":
        return all(known(S, [x[n] for x in v]) for n, S in T[1])
    return True


def again(t, s):
    """from Python objects"""
    if not s.v or has(s.T, "union", "bytes", "tup", "obj") or numeric(s.T) is False and has(s.T, "nd"):
        return None
    if not known(s.T, s.v):
        return None
    return "fromiter(tolist)", s.T, s.v, lambda a: awkward0.fromiter(a.tolist())


def extremes(t, s):
    """min, max, mean of lists that are not empty"""
    if s.T[0] != "list" or s.T[1][0] != "num" or s.T[1][1] not in ("int64", "float64") or any(len(x) == 0 for x in s.v) or any_big(s.v):
        return None
    name = t.pick(["max", "min", "mean"])
    f = {"max": max, "min": min, "mean": lambda x: sum(x) / float(len(x))}[name]
    return name, ("num", "float64") if name == "mean" else s.T[1], [f(x) for x in s.v], lambda a: getattr(a, name)()


def ordered(t, s):
    """selected by the array's own argsort, argmax or argmin"""
    if s.T[0] != "list" or s.T[1][0] != "num" or s.T[1][1] == "bool" or not isinstance(s.a, JaggedArray) or s.a.starts.ndim != 1 or "Union" in describe(s.a) or "Sparse" in describe(s.a) or not any(s.v):
        return None
    k = t.pick(["argsort", "ascending", "argmax", "argmin"])
    if k == "argsort":
        return "a[a.argsort()]", s.T, [sorted(x, reverse=True) for x in s.v], lambda a: a[a.argsort()]
    if k == "ascending":
        return "a[a.argsort(True)]", s.T, [sorted(x) for x in s.v], lambda a: a[a.argsort(True)]
    f = max if k == "argmax" else min
    return "a[a.%s()]" % k, s.T, [[f(x)] if x else [] for x in s.v], lambda a: a[getattr(a, k)()]


def choose(t, s):
    if s.T[0] != "list" or sum(len(x) ** 3 for x in s.v) > 200 or has(s.T, "tup") or not isinstance(s.a, JaggedArray):
        return None
    n = t.pick([2, 3])
    return "choose(%d)" % n, ("list", ("tup", (s.T[1],) * n)), [[tuple(x[i] for i in c) for c in sorted(itertools.combinations(range(len(x)), n), key=lambda c: c[::-1])] for x in s.v], lambda a: a.choose(n)


def cross(t, s):
    if s.T[0] != "list" or has(s.T, "tup") or not isinstance(s.a, JaggedArray) or s.a.starts.ndim != 1 or sum(len(x) for x in s.v) > 40:
        return None
    S = ("list", gen_type(t, 0, ("num", "str")))
    w = gen_values(t, S, len(s.v))
    b = build(t, S, w, Layout(ALL - {"virtual", "chunked", "indexed", "sparse"}, p=0.2), wrap=0)
    w, nested = plain(w), t.chance(0.3)
    T = ("tup", (s.T[1], S[1]))
    if nested:
        return "cross(%r, nested=True)" % w, ("list", ("list", T)), [[[(p, q) for q in y] for p in x] for x, y in zip(s.v, w)], lambda a: a.cross(b, nested=True)
    return "cross(%r)" % w, ("list", T), [list(itertools.product(x, y)) for x, y in zip(s.v, w)], lambda a: a.cross(b)


def deleted(t, s):
    if s.T[0] != "rec" or len(s.T[1]) < 2 or not isinstance(s.a, Table) or s.a._view is not None:
        return None
    n = t.pick([m for m, _ in s.T[1]])

    def fn(a):
        a = a.copy()
        del a[n]
        return a
    return "del %r" % n, ("rec", tuple((m, x) for m, x in s.T[1] if m != n)), [dict((m, y) for m, y in x.items() if m != n) for x in s.v], lambda a: fn(a)[:len(s.v)]


def unzipped(t, s):
    if s.T[0] != "list" or s.T[1][0] not in ("rec", "tup") or not isinstance(s.a, JaggedArray) or not isinstance(s.a.content, Table):
        return None
    i = t.below(len(s.T[1][1]))
    S = s.T[1][1][i][1] if s.T[1][0] == "rec" else s.T[1][1][i]
    n = s.T[1][1][i][0] if s.T[1][0] == "rec" else i
    if list(s.a.content.columns) != ([m for m, _ in s.T[1][1]] if s.T[1][0] == "rec" else [str(j) for j in range(len(s.T[1][1]))]):
        return None
    return "unzip[%d]" % i, ("list", S), [[y[n] for y in x] for x in s.v], lambda a: a.unzip()[i]


def tuples(t, s):
    """rows and then elements of the lists"""
    if s.T[0] != "list":
        return None
    w, what, fn = gen_index(t, len(s.v), ("slice", "mask", "fancy"))
    if fn is None:
        return None
    rows = fn(s.v)
    if rows and all(rows) and t.flag():
        k = t.pick([0, -1])
        return "[%s, %d]" % (what, k), s.T[1], [x[k] for x in rows], lambda a: a[w, k]
    k = gen_slice(t, 3)
    return "[%s, %r]" % (what, k), s.T, [x[k] for x in rows], lambda a: a[w, k]


def present(t, s):
    """those that are not missing, by the array's own mask"""
    if s.T[0] != "opt" or not isinstance(s.a, MaskedArray) or "Masked" in describe(s.a.content):
        return None
    k = t.below(3)
    if k == 0:
        return "a[a.boolmask(False)]", s.T, [x for x in s.v if x is not None], lambda a: a[a.boolmask(maskedwhen=False)]
    if k == 1:
        return "isunmasked", ("num", "bool"), [x is not None for x in s.v], lambda a: a.isunmasked
    return "indexed", s.T, s.v, lambda a: a.indexed()


def inner_flatten(t, s):
    if s.T[0] != "list" or s.T[1][0] != "list" or not s.v or not any(s.v):
        return None
    return "flatten(axis=1)", ("list", s.T[1][1]), [[z for y in x for z in y] for x in s.v], lambda a: a.flatten(axis=1)


def broadcast(t, s):
    """one number for each element"""
    if s.T[0] not in ("num", "list") or not numeric(s.T) or has(s.T, "rec", "tup") or any_big(s.v):
        return None
    w = [t.pick([0.0, 0.5, -2.0, 3.0]) for _ in s.v]
    first = t.flag()
    return "+ %r" % w, floats(s.T), [deep(lambda y: y + z, x) for x, z in zip(s.v, w)], lambda a: numpy.array(w) + a if first else a + numpy.array(w)


def asfloat(t, s):
    if not numeric(s.T) or has(s.T, "rec", "tup", "opt") or any_big(s.v):
        return None
    return "astype(float)", floats(s.T), deep(float, s.v), lambda a: a.astype(float)


def sidebyside(t, s):
    if s.T[0] != "list" or has(s.T, "union") or not isinstance(s.a, JaggedArray):
        return None
    w = gen_slice(t, 3)
    if not must([s.a, s.a]):
        return None
    return "concatenate(axis=1) with itself reversed", s.T, [x + x[::-1] for x in s.v], lambda a: awkward0.AwkwardArray.concatenate([a, a[:, ::-1]], axis=1)


def compacted(t, s):
    if s.T[0] != "list" or not isinstance(s.a, JaggedArray):
        return None
    if t.flag():
        return "compact", s.T, s.v, lambda a: a.compact()
    b = JaggedArray.fromcounts([len(x) for x in s.v], numpy.zeros(sum(len(x) for x in s.v)))
    return "tojagged", s.T, s.v, lambda a: b.tojagged(a) if b.starts.shape == a.starts.shape else a


def assigned(t, s):
    """attributes replaced in a copy"""
    a, n = s.a, len(s.v)
    if type(a) is IndexedArray and a.index.ndim == 1 and n:
        i = [t.below(n) for _ in range(t.length(5))]
        new = a.index[numpy.array(i, int)]
        return "index = %r" % (new,), s.T, [s.v[j] for j in i], lambda a: changed(a, index=new)
    if s.T[0] == "list" and type(a) is JaggedArray and a.starts.ndim == 1 and not has(s.T, "union"):
        content = plain(tolist(a.content))
        m = len(content)
        p = [sorted([t.below(m + 1), t.below(m + 1)]) for _ in range(t.length(4))]
        st, sp = numpy.array([x for x, _ in p], int), numpy.array([x for _, x in p], int)
        k = t.below(3)
        if k == 0:
            return "starts, stops = %r" % p, s.T, [content[x:y] for x, y in p], lambda a: changed(a, stops=sp, starts=st) if len(a) >= len(p) else changed(a, starts=st, stops=sp)
        if k == 1:
            o = sorted(t.below(m + 1) for _ in range(t.between(1, 5)))
            return "offsets = %r" % o, s.T, [content[x:y] for x, y in zip(o[:-1], o[1:])], lambda a: changed(a, offsets=numpy.array(o))
        return "content = content", s.T, s.v, lambda a: changed(a, content=a.content[:])
    if type(a) is MaskedArray and s.T[0] == "opt":
        content = plain(tolist(a.content))[:n]
        if len(content) == n and None not in content:
            m = [t.flag() for _ in s.v]
            return "mask = %r" % m, s.T, [x if b else None for x, b in zip(content, m)], lambda a: changed(a, mask=numpy.array(m, bool) != bool(a.maskedwhen))
    return None


def changed(a, **new):
    b = a.copy()
    for k, x in new.items():
        setattr(b, k, x)
    return b


# new structures around the array

def wrapped(t, s):
    n = len(s.v)
    k = t.pick(["indexed", "chunked", "virtual", "masked", "indexmasked", "jagged", "table", "union", "bitmasked", "sparse", "zip", "starts"])
    if k == "indexed":
        i = [t.below(n) for _ in range(t.length(6))] if n else []
        return "IndexedArray(%r)" % i, s.T, [s.v[j] for j in i], lambda a: IndexedArray(numpy.array(i, int), a)
    if k == "chunked":
        c = t.below(n + 1)
        return "ChunkedArray at %d" % c, s.T, s.v, lambda a: ChunkedArray([a[:c], a[c:]])
    if k == "virtual":
        return "VirtualArray", s.T, s.v, lambda a: VirtualArray(lambda: a)
    if k in ("masked", "bitmasked"):
        m = [t.flag() for _ in s.v]
        T, v = s.T if s.T[0] == "opt" else ("opt", s.T), [None if b else x for b, x in zip(m, s.v)]
        if k == "masked":
            w = t.flag()
            return "MaskedArray(%r)" % m, T, v, lambda a: MaskedArray(numpy.array(m, bool) == w, a, maskedwhen=w)
        return "BitMaskedArray(%r)" % m, T, v, lambda a: BitMaskedArray.fromboolmask(numpy.array(m, bool), a)
    if k == "indexmasked":
        i = [t.below(n + 1) - 1 for _ in range(t.length(6))]
        return "IndexedMaskedArray(%r)" % i, s.T if s.T[0] == "opt" else ("opt", s.T), [None if j < 0 else s.v[j] for j in i], lambda a: IndexedMaskedArray(numpy.array(i, int), a)
    if k in ("jagged", "starts"):
        if k == "jagged":
            c, left = [], n
            while left > 0 and len(c) < 5:
                c.append(t.below(left + 1))
                left -= c[-1]
            o = [sum(c[:i]) for i in range(len(c) + 1)]
            return "fromcounts(%r)" % c, ("list", s.T), [s.v[o[i]:o[i + 1]] for i in range(len(c))], lambda a: JaggedArray.fromcounts(numpy.array(c, int), a)
        st = [t.below(n + 1) for _ in range(t.length(4))]
        sp = [t.between(i, n) for i in st]
        return "JaggedArray(%r, %r)" % (st, sp), ("list", s.T), [s.v[i:j] for i, j in zip(st, sp)], lambda a: JaggedArray(numpy.array(st, int), numpy.array(sp, int), a)
    if k == "table":
        return "Table", ("rec", (("x", s.T), ("y", ("num", "int64")))), [{"x": x, "y": i} for i, x in enumerate(s.v)], lambda a: Table(x=a, y=numpy.arange(n))
    if k == "union":
        if s.T[0] == "opt" or has(s.T, "union"):
            return None
        g = [t.below(2) for _ in s.v]
        v = ["s%d" % i if b else s.v[i] for i, b in enumerate(g)]
        return "UnionArray(%r)" % g, ("union", (s.T, ("str",))), v, lambda a: UnionArray(numpy.array(g, "u1"), numpy.arange(n), [a, StringArray.fromiter(["s%d" % i for i in range(n)])])
    if k == "sparse":
        if s.T[0] == "opt" or has(s.T, "union") or "Sparse" in describe(s.a):
            return None       # (the default of a sparse content is its own)
        m = n + 2
        at = sorted(t.shuffle(list(range(m)))[:n])
        from .c29 import zero
        try:
            z = zero(s.T)
        except AssertionError:
            return None
        return "SparseArray at %r" % at, s.T, [s.v[at.index(i)] if i in at else z for i in range(m)], lambda a: SparseArray(m, numpy.array(at, int), a)
    if k == "zip" and s.T[0] == "list" and isinstance(s.a, JaggedArray):
        return "zip", ("list", ("rec", (("x", s.T[1]), ("y", ("num", "int64"))))), [[{"x": y, "y": i} for y in x] for i, x in enumerate(s.v)], lambda a: JaggedArray.zip(x=a, y=numpy.arange(n))
    return None


OPS = [select, select, inner_slice, inner_int, jagged_mask, jagged_index, flatten, counts, pad, reducer, argmax, combos, column, column, someof, setcolumn, arithmetic, arithmetic, compare, ownmask,
       fillna, joined, copies, copies, again, wrapped, wrapped, wrapped, wrapped, wrapped,
       extremes, ordered, choose, cross, deleted, unzipped, tuples, present, inner_flatten, broadcast, asfloat, sidebyside, compacted, assigned, assigned]


def history(t):
    T = gen_type(t, t.below(3), ("num", "list", "rec", "opt", "str", "tup", "bytes", "union", "nd", "obj"), ("int64", "float64", "bool", "int32"))
    values = gen_values(t, T, t.between(1, 6) if t.chance(0.7) else t.length(6))
    a = build(t, T, values, LAY, wrap=1)
    s = State(T, plain(values), a)
    t.note("type", tstr(T))
    t.note("array", describe(a))
    done = set()
    for _ in range(t.between(2, 9)):
        op = t.pick(OPS)
        if not isinstance(s.a, AwkwardArray) and op is not wrapped:
            op = wrapped
        r = op(t, s)
        if r is None:
            continue
        what, T, v, fn = r
        t.note("do", what)
        before = s.v
        got = attempt(lambda: fn(s.a))
        if isinstance(got, Refused):
            if isinstance(got.err, NotImplementedError):
                t.feature("not implemented: " + op.__name__)
                continue
            raise got.err
        expect(t, got, v, what)
        t.check(len(got) == len(v), lambda: "%s: length %d" % (what, len(got)))
        structure(t, got, v, what)
        done.add(op.__name__ if op is not wrapped else what.split("(")[0])
        expect(t, s.a, before, "the array before %s" % what) if t.chance(0.3) else None
        if T is None or sum(1 for _ in walk(v)) > 600:
            break
        lazy, s = s.lazy or what == "VirtualArray", State(T, v, got)
        s.lazy = lazy
        t.check(not isinstance(got, AwkwardArray) or got.valid(), lambda: "%s: not valid: %s" % (what, got.valid(message=True)))
    t.nontrivial = len(done) >= 3 and len(values) >= 2


def walk(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            for y in walk(x):
                yield y
    elif isinstance(v, dict):
        for x in v.values():
            for y in walk(x):
                yield y
    else:
        yield v


SUBS = [Sub("history", history, 100000)]
