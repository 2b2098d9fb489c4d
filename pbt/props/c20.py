"""C20: operations never modify their inputs."""
import io
import os
import numpy
from .common import *
from .indexing import gen_index, gen_slice
from awkward0 import persist

ID = "C20"
RULE = ("a case builds one or more arrays in any layout, records every buffer they can reach (and the indexes, masks and Python objects passed along), performs 1 to 4 operations and compares all of them; "
        "non-trivial: at least 2 elements and an operation that returned a result")


# ------------------------------------------------------------------ what is watched

def owners(x, seen, out):
    """every Numpy array reachable from x"""
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, numpy.ndarray):
        out.append(x)
        b = x.base
        while isinstance(b, numpy.ndarray):
            out.append(b)
            b = b.base
        if isinstance(x, numpy.ma.MaskedArray):
            owners(x.mask, seen, out)
        return
    if isinstance(x, (list, tuple)):
        for y in x:
            owners(y, seen, out)
        return
    if isinstance(x, dict):
        for y in list(x.values()):
            owners(y, seen, out)
        return
    if isinstance(x, (AwkwardArray, Table.Row, Gen)):
        for y in list(x.__dict__.values()):
            owners(y, seen, out)
        if isinstance(x, VirtualArray) and x.ismaterialized:
            owners(x.array, seen, out)


def generators(x, seen):
    if id(x) in seen:
        return []
    seen[id(x)] = x
    if isinstance(x, Gen):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in generators(y, seen)]
    if isinstance(x, dict):
        return [z for y in list(x.values()) for z in generators(y, seen)]
    if isinstance(x, AwkwardArray):
        return [z for y in list(x.__dict__.values()) for z in generators(y, seen)]
    return []


def bits(a):
    if a.dtype.hasobject:
        return repr(a.tolist())
    return (a.dtype.str, a.shape, numpy.ascontiguousarray(a).tobytes())


class Watch(object):
    def __init__(self, *things):
        self.things = things
        self.refs = []
        owners(list(things), {}, self.refs)
        self.was = [bits(a) for a in self.refs]
        self.objs = [(x, freeze(x)) for x in things if not isinstance(x, (AwkwardArray, numpy.ndarray))]

    def verify(self, t, what):
        for a, w in zip(self.refs, self.was):
            t.check(bits(a) == w, lambda: "%s changed a buffer from %r to %r" % (what, numpy.frombuffer(w[2], dtype=a.dtype).tolist() if isinstance(w, tuple) else w, a.tolist()))
        for x, w in self.objs:
            t.check(freeze(x) == w, lambda: "%s changed an argument from %s to %s" % (what, w, freeze(x)))
        t.evals += 1


def freeze(x):
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__, ",".join(freeze(y) for y in x))
    if isinstance(x, dict):
        return "{%s}" % ",".join("%r:%s" % (k, freeze(y)) for k, y in x.items())
    if isinstance(x, numpy.ndarray):
        return "np" + repr(bits(x))
    if isinstance(x, AwkwardArray):
        return "awkward"
    return repr(x)


# ------------------------------------------------------------------ operations

def arg_index(t, a, n):
    k = t.below(8)
    if k < 4:
        return gen_index(t, n)[0]
    if k == 4:
        return tuple(gen_index(t, t.pick([n, 2, 3]), ("int", "slice", "fancy"))[0] if i else gen_index(t, n)[0] for i in range(2))
    if k == 5 and isinstance(a, JaggedArray):
        c = [int(x) for x in a.counts.reshape(-1)]
        m = [[t.below(max(x, 1)) - (x if t.flag() else 0) for _ in range(t.below(3))] if x else [] for x in c]
        return JaggedArray.fromiter(m) if any(m) else JaggedArray.fromcounts([0] * len(m), numpy.array([], dtype=int))
    if k == 6 and isinstance(a, JaggedArray):
        c = [int(x) for x in a.counts.reshape(-1)]
        return JaggedArray.fromcounts(c, numpy.array([t.flag() for _ in range(sum(c))], dtype=bool))
    if k == 7 and isinstance(a, AwkwardArray) and a.columns:
        return t.pick(a.columns) if t.flag() else t.shuffle(a.columns)
    # an awkward array as the index
    ii = numpy.array([t.below(n) - (n if t.flag() else 0) if n else 0 for _ in range(t.below(4))], dtype=int)
    return t.pick([lambda: ii, lambda: IndexedArray(numpy.arange(len(ii)), ii), lambda: ChunkedArray([ii[:1], ii[1:]]), lambda: MaskedArray([t.flag() for _ in ii], ii), lambda: IndexedMaskedArray(numpy.arange(len(ii)), ii)])()


UNARY = (numpy.negative, numpy.absolute, numpy.sqrt, numpy.isnan, numpy.sign, numpy.logical_not, numpy.modf, numpy.square)
BINARY = (numpy.add, numpy.subtract, numpy.multiply, numpy.true_divide, numpy.maximum, numpy.equal, numpy.less, numpy.logical_or, numpy.divmod, numpy.power)
REDUCE = ("any", "all", "count", "count_nonzero", "sum", "prod", "min", "max", "argmin", "argmax")
MOMENT = ("mean", "var", "std")


def op_get(t, T, v, a, other):
    w = arg_index(t, a, len(v))
    return "a[%s]" % show(w), (w,), lambda: a[w]


def op_ufunc(t, T, v, a, other):
    k = t.below(4)
    if k == 0:
        f = t.pick(UNARY)
        return f.__name__, (), lambda: f(a)
    f = t.pick(BINARY)
    o = t.pick([2, 0.5, numpy.arange(len(v)), other, a, [1] * len(v), numpy.array(3)])
    if t.flag():
        return "%s(a, %s)" % (f.__name__, show(o)), (o,), lambda: f(a, o)
    return "%s(%s, a)" % (f.__name__, show(o)), (o,), lambda: f(o, a)


def op_inplace(t, T, v, a, other):
    """a += 1 on another name for the array"""
    def f():
        b = a
        b += 1
        return b
    if isinstance(a, numpy.ndarray):
        return "len", (), lambda: len(a)
    return "in place", (), f


def op_reduce(t, T, v, a, other):
    n = t.pick(REDUCE)
    if n in ("argmin", "argmax", "count", "count_nonzero", "any", "all", "sum", "prod", "min", "max"):
        if t.chance(0.3):
            return n + "(regularaxis)", (), lambda: getattr(a, n)(0)
        return n, (), lambda: getattr(a, n)()


def op_moment(t, T, v, a, other):
    n = t.pick(MOMENT + ("moment",))
    w = t.pick([None, other, numpy.ones(len(v)), a, numpy.arange(len(v))])
    if n == "moment":
        k = t.below(4)
        return "moment(%d, %s)" % (k, show(w)), (w,), lambda: a.moment(k, weight=w)
    kw = {} if n == "mean" else {"ddof": t.below(2)}
    return "%s(%s)" % (n, show(w)), (w,), lambda: getattr(a, n)(weight=w, **kw)


def op_struct(t, T, v, a, other):
    k = t.pick(["counts", "flatten", "flatten1", "pad", "padclip", "regular", "fillna", "boolmask", "ismasked", "compact", "parents", "index", "offsets", "localindex", "structure1d", "flattentuple", "argsort", "argsorta", "iscompact", "unzip", "startsstops"])
    f = {"counts": lambda: a.counts, "flatten": lambda: a.flatten(), "flatten1": lambda: a.flatten(axis=1), "regular": lambda: a.regular(),
         "boolmask": lambda: a.boolmask(), "ismasked": lambda: (a.ismasked, a.isunmasked), "compact": lambda: a.compact(), "parents": lambda: a.parents, "index": lambda: a.index, "offsets": lambda: a.offsets,
         "localindex": lambda: a.localindex, "structure1d": lambda: a.structure1d(), "flattentuple": lambda: a.flattentuple(), "argsort": lambda: a.argsort(), "argsorta": lambda: a.argsort(True), "iscompact": lambda: a.iscompact, "unzip": lambda: a.unzip(), "startsstops": lambda: (a.starts, a.stops)}
    if k in ("pad", "padclip"):
        n = t.below(4)
        m = t.pick([None, -1, 999])
        return "%s(%d)" % (k, n), (), lambda: a.pad(n, clip=k == "padclip") if m is None else a.pad(n, maskedwhen=m, clip=k == "padclip")
    if k == "fillna":
        x = t.pick([0, 7, 2.5])
        return "fillna(%r)" % x, (), lambda: a.fillna(x)
    return k, (), f[k]


def op_comb(t, T, v, a, other):
    k = t.pick(["cross", "argcross", "pairs", "argpairs", "distincts", "argdistincts", "choose", "argchoose", "zip", "tojagged", "cross3"])
    nested = t.flag()
    if k in ("cross", "argcross"):
        return k, (other,), lambda: getattr(a, k)(other, nested=nested)
    if k == "cross3":
        return k, (other,), lambda: a.cross(other).cross(a)
    if k in ("choose", "argchoose"):
        n = t.between(2, 4)
        return "%s(%d)" % (k, n), (), lambda: getattr(a, k)(n)
    if k == "zip":
        s = numpy.arange(len(v))
        how = t.below(4)
        d = {"x": a, "y": other}
        return "zip", (other, s, d), lambda: JaggedArray.zip(a, other, s) if how == 0 else JaggedArray.zip(x=a, y=s, z=3) if how == 1 else JaggedArray.zip(d) if how == 2 else a.zip(other)
    if k == "tojagged":
        s = numpy.arange(len(v))
        return "tojagged", (s, other), lambda: a.tojagged(s if t.flag() else other)
    return k, (), lambda: getattr(a, k)(nested=nested)


def op_concat(t, T, v, a, other):
    ax = t.below(2)
    m = [a] * t.between(1, 2) + [other]
    if isinstance(a, numpy.ndarray) or t.flag():
        return "concatenate axis %d" % ax, (m,), lambda: AwkwardArray.concatenate(m, axis=ax)
    return "a.concatenate axis %d" % ax, (m,), lambda: a.concatenate(m, axis=ax)


def op_convert(t, T, v, a, other):
    k = t.pick(["tolist", "iter", "str", "repr", "numpy", "numpyobj", "type", "layout", "nbytes", "valid", "astype", "zeros", "ones", "empty", "arrow", "pandas", "pandasflat", "persist", "save", "copy", "hash", "len", "fromiter", "bool", "deepcopy"])
    if k == "persist":
        def f():
            s = {}
            persist.serialize(a, s)
            return persist.deserialize(s)
        return k, (), f
    if k == "save":
        p = os.path.join(t.tmpdir(), "a.awkd")
        def g():
            awkward0.save(p, {"a": a}, mode="w")
            return awkward0.load(p)["a"]
        return k, (), g
    dt = t.pick([numpy.float32, numpy.int64, numpy.complex128])
    f = {"tolist": lambda: a.tolist(), "iter": lambda: list(a), "str": lambda: str(a), "repr": lambda: repr(a), "numpy": lambda: numpy.array(a), "numpyobj": lambda: numpy.array(a, dtype=object), "type": lambda: str(awkward0.type.fromarray(a)),
         "layout": lambda: repr(a.layout), "nbytes": lambda: a.nbytes, "valid": lambda: a.valid(), "astype": lambda: a.astype(dt), "zeros": lambda: a.zeros_like(), "ones": lambda: a.ones_like(), "empty": lambda: a.empty_like(),
         "arrow": lambda: awkward0.fromarrow(awkward0.toarrow(a)), "pandas": lambda: awkward0.topandas(a), "pandasflat": lambda: awkward0.topandas(a, flatten=True), "copy": lambda: a.copy(), "hash": lambda: hash(awkward0.type.fromarray(a)),
         "len": lambda: len(a), "fromiter": lambda: awkward0.fromiter(a.tolist()), "bool": lambda: bool(a), "deepcopy": lambda: a.deepcopy()}
    return k, (), f[k]


def op_assigncopy(t, T, v, a, other):
    """a column assigned to or removed from a copy stays there"""
    x = numpy.arange(len(v))
    # (a shallow copy of a wrapper has the same table inside)
    how = t.below(3) if isinstance(a, Table) else 2
    def f():
        b = t_copy(a, how)
        cols = b.columns
        b["new"] = x
        if cols:
            b[cols[0]] = x
            del b[cols[-1]]
        return b
    return "assign to a copy (%d)" % how, (x,), f


def t_copy(a, how):
    import copy
    return a.copy() if how == 0 else copy.copy(a) if how == 1 else a.deepcopy()


OPS = ((6, op_get), (5, op_ufunc), (1, op_inplace), (4, op_reduce), (2, op_moment), (5, op_struct), (3, op_comb), (2, op_concat), (5, op_convert), (1, op_assigncopy))


def show(x):
    if isinstance(x, (AwkwardArray, numpy.ndarray)):
        return describe(x)
    return repr(x)


def ops(t):
    """operations on arrays of any type and layout"""
    T, v, a = sample(t, special=t.chance(0.3), depth=t.below(3), nums=NUMS[:6])
    if t.flag():
        # one of the same structure
        S = T
        other = build(t, T, v, Layout(p=0.35), wrap=1)
    else:
        S, ov, other = sample(t, nums=NUMS[:6])
    want = plain(v)
    wother = tolist(other)
    for step in range(t.between(1, 3)):
        op = t.wpick(OPS)
        r = op(t, T, v, a, other)
        what, args, fn = r
        t.note("op", what)
        watch = Watch(a, other, *args)
        out = attempt(fn)
        watch.verify(t, what)
        expect(t, a, want, "the array after %s" % what, strict=True)
        expect(t, other, wother, "the other array after %s" % what)
        if not isinstance(out, Refused) and len(v) >= 2:
            t.nontrivial = True
        if isinstance(out, AwkwardArray) and t.chance(0.3):
            # go on with the result, still watching the first ones
            try:
                w = tolist(out)
                n = len(out)
            except Exception:
                continue
            op = t.wpick(OPS)
            r = op(t, T, [None] * n, out, a)
            what2, args, fn = r
            t.note("then", what2)
            watch2 = Watch(out, *args)
            attempt(fn)
            watch.verify(t, what2 + " on the result")
            watch2.verify(t, what2 + " on the result")
            expect(t, a, want, "the array after %s on the result" % what2, strict=True)
            if what2 not in ("empty",) and what not in ("empty",):
                expect(t, out, w, "the result of %s after %s" % (what, what2))


def num(t):
    """numeric jagged arrays and records, where most operations give a result"""
    T = t.pick([("list", ("num", "float64")), ("list", ("num", "int64")), ("list", ("opt", ("num", "float64"))), ("opt", ("list", ("num", "int64"))), ("opt", ("num", "float64")), ("num", "float64"),
                ("rec", (("x", ("num", "float64")), ("y", ("num", "int64")))), ("list", ("rec", (("x", ("num", "float64")), ("y", ("num", "int64"))))), ("list", ("list", ("num", "float64"))), ("union", (("num", "float64"), ("num", "int64")))])
    n = t.length(6)
    v = gen_values(t, T, n, t.chance(0.5))
    a = build(t, T, v, Layout(p=0.3), wrap=t.below(3))
    other = build(t, T, v, Layout(p=0.3), wrap=t.below(2))
    t.note("type", tstr(T))
    t.note("array", describe(a))
    want = plain(v)
    for step in range(t.between(1, 4)):
        op = t.wpick(OPS)
        what, args, fn = op(t, T, v, a, other)
        t.note("op", what)
        watch = Watch(a, other, *args)
        out = attempt(fn)
        watch.verify(t, what)
        expect(t, a, want, "the array after %s" % what, strict=True)
        expect(t, other, want, "the other array after %s" % what, strict=True)
        if not isinstance(out, Refused) and len(v) >= 2:
            t.nontrivial = True


def construct(t):
    """making an array does not change what it is made of"""
    n = t.length(6)
    counts = [t.below(4) for _ in range(n)]
    tot = sum(counts)
    content = numpy.arange(tot) * 1.5
    dt = t.pick(["int64", "int32", "uint8"])
    k = t.below(12)
    off = numpy.array([0] + list(numpy.cumsum(counts)), dtype=dt)
    par = numpy.repeat(numpy.arange(n), counts).astype(dt if dt != "uint8" else "int64")
    mask = numpy.array([t.flag() for _ in range(n)], dtype=bool)
    strs = [t.pick(STRS) for _ in range(n)]
    lst = [[t.below(5) for _ in range(c)] for c in counts]
    x, y = numpy.arange(n), numpy.arange(n) * 1.1
    rec = numpy.array([(1, 2.5)] * n, dtype=[("a", int), ("b", float)])
    tags = numpy.array([t.below(2) for _ in range(n)], dtype="uint8")
    makers = [
        (lambda: JaggedArray.fromcounts(counts, content), (counts, content)),
        (lambda: JaggedArray.fromoffsets(off, content), (off, content)),
        (lambda: JaggedArray(off[:-1], off[1:], content), (off, content)),
        (lambda: JaggedArray.fromparents(par, content), (par, content)),
        (lambda: JaggedArray.fromuniques(par, content), (par, content)),
        (lambda: JaggedArray.fromiter(lst), (lst,)),
        (lambda: MaskedArray(mask, y, maskedwhen=t.flag()), (mask, y)),
        (lambda: BitMaskedArray.fromboolmask(mask, y, lsborder=t.flag()), (mask, y)),
        (lambda: StringArray.fromiter(strs), (strs,)),
        (lambda: Table.fromrec(rec), (rec,)),
        (lambda: UnionArray.fromtags(tags, [x, y]), (tags, x, y)),
        (lambda: awkward0.fromiter(lst), (lst,)),
        (lambda: JaggedArray.fromregular(numpy.arange(n * 2).reshape(n, 2)), (off,)),
        (lambda: SparseArray(tot + 1, par[:0], content[:0]), (par, content)),
        (lambda: ChunkedArray([x, y]), (x, y)),
        (lambda: Table(x=x, y=y), (x, y)),
        (lambda: StringArray.fromnumpy(numpy.array(strs)), (strs,)),
        (lambda: IndexedMaskedArray(numpy.where(mask, -1, x), y), (mask, x, y)),
    ]
    i = t.below(len(makers))
    f, args = makers[i]
    t.note("maker", i)
    t.nontrivial = n >= 2
    watch = Watch(*args)
    a = attempt(f)
    watch.verify(t, "maker %d" % i)
    t.check(not isinstance(a, Refused) or i in (3, 16), lambda: "refused: %r" % (a,))
    if isinstance(a, Refused):
        return
    for step in range(t.between(1, 3)):
        what, oargs, fn = t.wpick(OPS)(t, None, [None] * len(a), a, a)
        t.note("op", what)
        attempt(fn)
        watch.verify(t, what)


def deep(t):
    """a deep copy shares no buffer with its source"""
    T, v, a = sample(t, nums=NUMS[:6])
    t.assume(isinstance(a, AwkwardArray))
    b = a.deepcopy()
    expect(t, b, plain(v), "deep copy", strict=True)
    mine, its = [], []
    # (what a generator function holds does not belong to the array)
    gens = {}
    for x in generators(a, {}) + generators(b, {}):
        gens[id(x)] = x
    owners(a, dict(gens), mine)
    owners(b, dict(gens), its)
    for x in mine:
        for y in its:
            t.check(not numpy.shares_memory(x, y) if x.size and y.size else True, lambda: "the deep copy shares %r" % (x.tolist(),))
    t.evals += 1
    want = plain(v)
    for y in its:
        if y.flags.writeable and y.dtype.kind in "iufb" and y.size:
            y[...] = numpy.array(t.below(3)).astype(y.dtype)
    expect(t, a, want, "the source after overwriting its deep copy", strict=True)


SUBS = [Sub("ops", ops, 15000), Sub("num", num, 15000), Sub("construct", construct, 5000), Sub("deep", deep, 5000)]
