"""C05: universal functions and operators act element by element, with broadcasting."""
import itertools
import operator
from .common import *

ID = "C05"
RULE = ("a case draws one or two operands with matching nested structure (lists, records, options, unions over numbers) in independent "
        "random layouts, or an operand and a scalar / flat array, and a function; non-trivial: at least 2 elements and a nested structure")

KINDS = ("num", "list", "rec", "opt", "tup")
DT = ("int64", "float64", "bool", "int32", "uint8", "float32")

UNARY = {"any": [numpy.isnan, numpy.absolute, numpy.logical_not, numpy.sqrt, numpy.isfinite, numpy.square, numpy.sin, numpy.signbit],
         }
def rounded(n=None):
    def round_(x):
        if not isinstance(x, AwkwardArray):
            return numpy.rint(x) if not n else numpy.rint(x * 10**n) / 10**n
        return round(x) if n is None else round(x, n)
    return round_


def positive(x):
    return +x if isinstance(x, AwkwardArray) else numpy.positive(x)


UNARYOPS = [operator.neg, operator.invert, positive, abs, rounded(), rounded(0), rounded(1), rounded(2), rounded(-1)]
BINARY = [numpy.add, numpy.multiply, numpy.maximum, numpy.minimum, numpy.less, numpy.equal, numpy.not_equal, numpy.greater_equal,
          numpy.logical_and, numpy.logical_or, numpy.true_divide, numpy.hypot, numpy.power, numpy.subtract, numpy.floor_divide, numpy.remainder,
          numpy.arctan2, numpy.logical_xor]
OPS = [("+", operator.add), ("*", operator.mul), ("<", operator.lt), ("==", operator.eq), ("!=", operator.ne), (">=", operator.ge),
       ("-", operator.sub), ("/", operator.truediv), ("//", operator.floordiv), ("&", operator.and_), ("|", operator.or_), ("%", operator.mod),
       ("**", operator.pow), ("<=", operator.le), (">", operator.gt), ("^", operator.xor)]


class Mismatch(Exception):
    pass


class Leaf(object):
    """a number with its dtype"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


def typed(T, v):
    if v is None:
        return None
    k = T[0]
    if k == "num":
        return Leaf(numpy.array([v], dtype=T[1]))
    if k == "list":
        return [typed(T[1], x) for x in v]
    if k == "opt":
        return typed(T[1], v)
    if k == "rec":
        return dict((n, typed(S, v[n])) for n, S in T[1])
    if k == "tup":
        return tuple(typed(S, x) for S, x in zip(T[1], v))
    if k == "union":
        return typed(T[1][v.tag], v.val)
    raise AssertionError(T)


def ref(f, xs):
    """f at every position; xs are typed values, Python or Numpy scalars"""
    if any(x is None for x in xs):
        return None
    if any(isinstance(x, list) for x in xs):
        n = set(len(x) for x in xs if isinstance(x, list))
        if len(n) != 1:
            raise Mismatch()
        n = n.pop()
        return [ref(f, [x[i] if isinstance(x, list) else x for x in xs]) for i in range(n)]
    if any(isinstance(x, dict) for x in xs):
        ks = [x for x in xs if isinstance(x, dict)][0]
        if CMP.get(f) is not None:        # records are equal if all their columns are
            return CMP[f](ref(f, [x[k] if isinstance(x, dict) else x for x in xs]) for k in ks)
        return dict((k, ref(f, [x[k] if isinstance(x, dict) else x for x in xs])) for k in ks)
    if any(isinstance(x, tuple) for x in xs):
        n = [len(x) for x in xs if isinstance(x, tuple)][0]
        if CMP.get(f) is not None:
            return CMP[f](ref(f, [x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(n))
        return tuple(ref(f, [x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(n))
    out = f(*[x.a if isinstance(x, Leaf) else x for x in xs])
    return out[0].item()


CMP = {numpy.equal: all, operator.eq: all, numpy.not_equal: any, operator.ne: any}
ORDER = (numpy.less, numpy.greater_equal, operator.lt, operator.ge, operator.le, operator.gt)


def records(t, T, f):
    """ordering of records is not defined; equality only if all columns are flat numbers"""
    if has(T, "rec", "tup"):
        t.assume(f not in ORDER)
        if f in CMP:
            t.assume(flatrecords(T))


def flatrecords(T, inside=False):
    k = T[0]
    if k == "num":
        return True
    if k in ("list", "opt"):
        return not inside and flatrecords(T[1])
    if k == "union":
        return not inside and all(flatrecords(S) for S in T[1])
    return all(flatrecords(S, True) for S in ([x for _, x in T[1]] if k == "rec" else T[1]))


def retype(t, T):
    """the same structure with other number types"""
    k = T[0]
    if k == "num":
        return ("num", t.pick(DT))
    if k in ("list", "opt"):
        return (k, retype(t, T[1]))
    if k == "rec":
        fields = [(n, retype(t, S)) for n, S in T[1]]
        if len(fields) > 1 and t.chance(0.4):
            t.feature("columnorder")
            fields = t.shuffle(fields)
        return ("rec", tuple(fields))
    if k in ("tup", "union"):
        return (k, tuple(retype(t, S) for S in T[1]))
    raise AssertionError(T)


def alike(t, T, v, S, special):
    """a value of type S with the list lengths of v, a value of type T"""
    k = T[0]
    if k == "opt":
        if t.chance(0.3):
            return None
        if v is None:
            return gen_value(t, S[1], special)
        return alike(t, T[1], v, S[1], special)
    if k == "num":
        return gen_num(t, S[1], special)
    if k == "list":
        return [alike(t, T[1], x, S[1], special) for x in v]
    if k == "rec":
        first = dict(T[1])
        return dict((n, alike(t, first[n], v[n], B, special)) for n, B in S[1])
    if k == "tup":
        return tuple(alike(t, A, x, B, special) for x, A, B in zip(v, T[1], S[1]))
    raise AssertionError(T)


def quiet(f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a)


def leafdts(T):
    k = T[0]
    if k == "num":
        return {T[1]}
    if k in ("list", "opt"):
        return leafdts(T[1])
    if k == "rec":
        return set().union(*[leafdts(S) for _, S in T[1]])
    return set().union(*[leafdts(S) for S in T[1]])


def accepts(f, *dts):
    """does Numpy define f for all combinations of these dtypes?"""
    try:
        for combo in itertools.product(*dts):
            quiet(f, *[numpy.ones(1, d) if isinstance(d, str) else d for d in combo])
        return True
    except (TypeError, ValueError, OverflowError):
        return False


def layout(t):
    return Layout() if t.chance(0.8) else Layout(PLAIN)


def nested(t, kinds=KINDS, depth=None):
    return gen_type(t, t.pick([1, 2, 2, 3]) if depth is None else depth, kinds, DT)


def operand(t, T, values, name, special=False, lay=None):
    a = build(t, T, values, lay or layout(t), wrap=t.below(2), special=special)
    t.note(name, describe(a))
    return a


def outcome(t, f, args, want, what):
    for x in args:
        readings(t, x)
    got = quiet(f, *args)
    expect(t, got, want, what, eq=equality(f))
    structure(t, got, want, what)
    return got


INEXACT = (numpy.sin, numpy.hypot, numpy.arctan2, numpy.power, operator.pow)


def equality(f):
    return (lambda a, b: close(a, b, 1e-6)) if f in INEXACT else same


def lengths_vary_under_option(T):
    return False


def unary(t):
    """one operand: the function of every scalar"""
    T = nested(t, KINDS + ("union",))
    f = t.pick(UNARY["any"] + UNARYOPS)
    t.assume(accepts(f, leafdts(T)))
    special = t.flag()
    n = t.length(5)
    values = gen_values(t, T, n, special)
    t.note("type", tstr(T))
    a = operand(t, T, values, "a", special)
    t.note("function", f.__name__)
    want = quiet(lambda: [ref(f, [typed(T, v)]) for v in values])
    t.nontrivial = n >= 2 and T[0] != "num"
    outcome(t, f, (a,), want, f.__name__)


def leaftype(T):
    while T[0] == "list":
        T = T[1]
    return T


def anyleaf(v):
    return any(anyleaf(x) if isinstance(x, list) else True for x in v)


def deeplists(t, v):
    """the same in Python lists and tuples"""
    return t.pick((list, list, tuple))([deeplists(t, x) if isinstance(x, list) else x for x in v])


def binary(t):
    """two operands of the same structure in independent layouts"""
    T = nested(t)
    S = retype(t, T)
    special = t.chance(0.3)
    if t.flag():
        f = t.pick(BINARY)
        name = f.__name__
    else:
        name, f = t.pick(OPS)
    t.assume(accepts(f, leafdts(T), leafdts(S)))
    records(t, T, f)
    n = t.length(5)
    values = gen_values(t, T, n, special)
    other = [alike(t, T, v, S, special) for v in values]
    t.note("types", tstr(T), tstr(S))
    a = operand(t, T, values, "a", special)
    b = operand(t, S, other, "b", special)
    if type(a) is awkward0.JaggedArray and S[0] == "list" and leaftype(S) in (("num", "int64"), ("num", "float64"), ("num", "bool")) and t.chance(0.4):
        t.feature("nestedpython")
        b = deeplists(t, plain(other))
        t.assume(anyleaf(other) or accepts(f, leafdts(T), ["float64"]))      # lists without numbers are of floats
    t.note("function", name)
    try:
        want = quiet(lambda: [ref(f, [typed(T, v), typed(S, w)]) for v, w in zip(values, other)])
    except ValueError:
        raise Discard("Numpy refuses these values")       # negative integer powers
    t.nontrivial = n >= 2 and T[0] != "num"
    outcome(t, f, (a, b), want, "a %s b" % name)


def scalar(t):
    """an operand with a Python or Numpy scalar, on either side"""
    T = nested(t, KINDS + ("union",))
    special = t.chance(0.3)
    if t.flag():
        f = t.pick(BINARY)
        name = f.__name__
    else:
        name, f = t.pick(OPS)
    s = t.pick([2, 0, -1, 1.5, True, 3, numpy.int32(2), numpy.float64(0.5), numpy.array(2), numpy.uint8(1)])
    left = t.flag()
    args = lambda x: (x, s) if left else (s, x)
    g = (lambda x: f(x, s)) if left else (lambda x: f(s, x))
    t.assume(accepts(g, leafdts(T)))
    records(t, T, f)
    t.assume(f is not operator.pow or not special)     # Numpy itself has shortcuts such as sqrt for ** 0.5
    if f in CMP:
        CMP[g] = CMP[f]
    n = t.length(5)
    values = gen_values(t, T, n, special)
    t.note("type", tstr(T))
    a = operand(t, T, values, "a", special)
    t.note("function", name, "scalar", s, "left" if left else "right")
    try:
        want = quiet(lambda: [ref(g, [typed(T, v)]) for v in values])
    except (ValueError, OverflowError):
        raise Discard("Numpy refuses these values")
    t.nontrivial = n >= 2 and T[0] != "num"
    got = quiet(f, *args(a))
    expect(t, got, want, "%s with a scalar" % name, eq=equality(f))


def flat(t):
    """a flat array broadcasts into a jagged one of any depth"""
    T = nested(t, ("num", "list", "opt", "rec"), t.between(0, 2))
    T = ("list", T)
    F = ("num", t.pick(DT))
    f = t.pick(BINARY)
    left = t.flag()
    S = T
    while S[0] in ("list", "opt"):
        S = S[1]
    if t.chance(0.3):                   # one record per list, combined with each of its items
        t.feature("flatrecords")
        left = True                     # (the other way around, every column would meet the lists of records)
        F = ("rec", tuple((x[0], ("num", t.pick(DT))) for x in S[1])) if S[0] == "rec" else ("rec", tuple((x, ("num", t.pick(DT))) for x in "xy"[:t.between(1, 2)]))
        t.assume(f not in ORDER and f not in CMP)
    elif t.chance(0.15):
        t.feature("flatmissing")
        F = ("opt", F)
    g = f if left else (lambda x, y: f(y, x))
    t.assume(accepts(g, leafdts(T), leafdts(F)))
    records(t, T, f)
    if f in CMP:
        CMP[g] = CMP[f]
    n = t.length(5)
    values = gen_values(t, T, n)
    fl = gen_values(t, F, n)
    t.note("types", tstr(T), tstr(F))
    a = operand(t, T, values, "a")
    b = operand(t, F, fl, "flat", lay=Layout(PLAIN) if t.flag() else None)
    if F[0] == "num" and n and t.chance(0.2):
        t.feature("pythonlist")
        b = numpy.array(fl, dtype=F[1]).tolist()
        fl = b
        F = ("num", numpy.array(b).dtype.name)
        b = tuple(b) if t.flag() else b
        t.assume(accepts(g, leafdts(T), leafdts(F)))
    t.note("function", f.__name__, "jagged first" if left else "flat first")
    try:
        want = quiet(lambda: [ref(g, [typed(T, v), typed(F, w)]) for v, w in zip(values, fl)])
    except ValueError:
        raise Discard("Numpy refuses these values")
    t.nontrivial = n >= 2
    readings(t, a)
    got = quiet(f, *((a, b) if left else (b, a)))
    expect(t, got, want, f.__name__ + " with a flat array", eq=equality(f))
    structure(t, got, want, f.__name__ + " with a flat array")


def mismatch(t):
    """jagged arrays of equal length whose inner lengths differ cannot be combined"""
    T = ("list", ("num", "int64"))
    for _ in range(t.below(2)):
        T = ("list", T)
    n = 1 + t.length(4)
    values = gen_values(t, T, n)
    other = gen_values(t, T, n)

    def shape(v):
        return [shape(x) for x in v] if isinstance(v, list) else None
    t.assume(shape(values) != shape(other))
    lay = Layout(ALL - {"virtual", "indexed", "chunked", "inner"})
    a = operand(t, T, values, "a", lay=lay)
    b = operand(t, T, other, "b", lay=lay)
    t.nontrivial = True
    got = attempt(lambda: tolist(numpy.add(a, b)))
    t.check(isinstance(got, Refused), lambda: "operands with different inner lengths gave %r" % (got,))


def two(t):
    """functions with two results"""
    T = nested(t)
    f = t.pick([numpy.divmod, numpy.modf, numpy.frexp])
    n = t.length(5)
    values = gen_values(t, T, n)
    t.note("type", tstr(T))
    if f is numpy.divmod:
        g = lambda x: f(x, 2)
    else:
        g = f
    t.assume(accepts(g, leafdts(T)))
    a = operand(t, T, values, "a")
    t.note("function", f.__name__)
    want = [[ref(lambda x: g(x)[k], [typed(T, v)]) for v in values] for k in range(2)]
    got = quiet(g, a)
    t.check(isinstance(got, tuple) and len(got) == 2, lambda: "result is %r, expected two arrays" % (got,))
    t.nontrivial = n >= 2 and T[0] != "num"
    for k in range(2):
        expect(t, got[k], want[k], "output %d" % k)


def resulttype(t):
    """the result's item type is the one Numpy gives for the operands' item types"""
    dt1, dt2 = t.pick(NUMS), t.pick(NUMS)
    f = t.pick(BINARY)
    t.assume(accepts(f, {dt1}, {dt2}))
    n = t.length(4, 1)
    T, S = ("list", ("num", dt1)), ("list", ("num", dt2))
    values = gen_values(t, T, n)
    other = [alike(t, T, v, S, False) for v in values]
    t.assume(sum(map(len, values)) > 0)
    lay = Layout(ALL - {"sparse", "appendable"})
    a = operand(t, T, values, "a", lay=lay.without("virtual", "indexed", "chunked"))
    b = operand(t, S, other, "b", lay=lay.without("virtual", "indexed", "chunked"))
    t.note("function", f.__name__)
    try:
        want = quiet(lambda: f(numpy.ones(1, dt1), numpy.ones(1, dt2)).dtype)
        got = quiet(f, a, b)
    except ValueError:
        raise Discard("Numpy refuses these values")
    t.nontrivial = True
    t.check(got.content.dtype == want, lambda: "dtype %r, expected %r" % (got.content.dtype, want))


def manytags(t):
    """unions of many possibilities: every combination of them is one of the result's"""
    k, m = t.pick([2, 3, 15, 16, 17, 20, 30]), t.pick([1, 2, 15, 16, 17, 18, 40])
    pairs = [(i, j) for i in range(k) for j in range(m)]
    pairs = t.shuffle(pairs) if t.flag() else pairs
    n = len(pairs)
    dts = [t.pick(("int64", "int32", "float64")) for _ in range(k + m)]
    x = [t.below(1000) + 1000 * i for i, j in pairs]
    y = [t.below(1000) + 100000 * j for i, j in pairs]

    def union(vals, tags, count, dts):
        contents, index = [[] for _ in range(count)], []
        for v, g in zip(vals, tags):
            index.append(len(contents[g]))
            contents[g].append(v)
        return UnionArray(numpy.array(tags, dtype=t.pick(("uint8", "int64", "int16"))), numpy.array(index), [numpy.array(c, dtype=d) for c, d in zip(contents, dts)])
    a = union(x, [i for i, j in pairs], k, dts[:k])
    b = union(y, [j for i, j in pairs], m, dts[k:])
    f = t.pick((numpy.add, numpy.subtract, numpy.maximum, numpy.less, numpy.equal, numpy.divmod))
    t.note("possibilities", k, m, f.__name__)
    t.nontrivial = n > 1
    if f is numpy.divmod:
        y = [v + 1 for v in y]
        b = b + 1
        got = quiet(f, a, b)
        for q in (0, 1):
            expect(t, got[q], [divmod(v, w)[q] for v, w in zip(x, y)], "divmod[%d]" % q)
        return
    expect(t, quiet(f, a, b), [plain(f(v, w).item()) for v, w in zip(x, y)], f.__name__)


SUBS = [Sub("manytags", manytags, 80), Sub("unary", unary, 12000), Sub("binary", binary, 30000), Sub("scalar", scalar, 15000), Sub("flat", flat, 12000),
        Sub("mismatch", mismatch, 7500), Sub("two", two, 6000), Sub("resulttype", resulttype, 4500)]
