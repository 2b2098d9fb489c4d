"""C06: reducers."""
import math
from .common import *

ID = "C06"
RULE = ("a case draws a flat, jagged (1..3 levels), optional, union or record array of numbers with empty lists, None, NaN and infinities, "
        "in a random layout, and a reducer; non-trivial: at least 2 elements and a non-numeric outer type")

DT = ("int64", "float64", "bool", "int32", "uint8", "float32", "int16", "uint64", "int8")
REDUCERS = ("any", "all", "count", "count_nonzero", "sum", "prod", "min", "max", "reduce")


class OneOf(object):
    def __init__(self, *options):
        self.options = options

    def __repr__(self):
        return "one of %r" % (self.options,)


def eq(a, b):
    if isinstance(b, OneOf):
        return any(close(a, x, 1e-5) for x in b.options)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    return close(a, b, 1e-5)


def hasjagged(T):
    k = T[0]
    if k == "list":
        return True
    if k == "opt":
        return hasjagged(T[1])
    if k in ("rec", "tup"):
        return [hasjagged(S) for S in fields(T).values()][0]
    if k == "union":
        return hasjagged(T[1][0])
    return False


def fields(T):
    return dict(T[1]) if T[0] == "rec" else dict((str(i), S) for i, S in enumerate(T[1]))


def part(T, v, n):
    return None if v is None else v[n] if T[0] == "rec" else v[int(n)]


def group(T, parts):
    return dict(parts) if T[0] == "rec" else tuple(parts[str(i)] for i in range(len(parts)))


def identity(name, dts):
    out = [float("inf") if name == "min" else float("-inf")]
    for d in dts:
        if d != "bool" and not d.startswith("float"):
            out.append(int(numpy.iinfo(d).max if name == "min" else numpy.iinfo(d).min))
    return OneOf(*out)


def leaf(name, vals, dts):
    vals = [v for v in vals if v is not None and v == v]
    if name == "any":
        return any(bool(v) for v in vals)
    if name == "all":
        return all(bool(v) for v in vals)
    if name == "count":
        return len(vals)
    if name == "count_nonzero":
        return sum(1 for v in vals if v != 0)
    if name in ("sum", "reduce"):
        return sum((float(v) if isinstance(v, float) else int(v) for v in vals), 0)
    if name == "prod":
        p = 1
        for v in vals:
            p = p * (v if isinstance(v, float) else int(v))
        return p
    if not vals:
        return identity(name, dts)
    m = min(vals) if name == "min" else max(vals)
    return OneOf(m, float(m)) if isinstance(m, bool) else m


def flatreduce(name, T, vals, top=True):
    """reduction of a flat sequence of values of type T (no lists inside)"""
    k = T[0]
    if k == "opt":
        return flatreduce(name, T[1], [v for v in vals if v is not None], top)
    if k == "num":
        return leaf(name, vals, [T[1]])
    if k == "union":
        return leaf(name, [v.val for v in vals], [S[1] for S in T[1]])
    parts = dict((n, flatreduce(name, S, [part(T, v, n) for v in vals if v is not None], top)) for n, S in fields(T).items())
    return parts if top else group(T, parts)      # a reduced record array is one row named by the reducer, even if its records are tuples


def each(name, T, v):
    """reduce the innermost lists of one value of a type with lists"""
    k = T[0]
    if k == "opt":
        return None if v is None else each(name, T[1], v)
    if k == "list":
        if hasjagged(T[1]):
            return [each(name, T[1], x) for x in v]
        return flatreduce(name, T[1], v, False)
    if k in ("rec", "tup"):
        return group(T, dict((n, each(name, S, part(T, v, n))) for n, S in fields(T).items()))
    raise AssertionError(T)


def flattype(t, depth=1):
    k = t.wpick([(5, "num"), (3, "opt"), (2 if depth else 0, "rec"), (1 if depth else 0, "tup"), (1, "union")])
    if k == "num":
        return ("num", t.pick(DT))
    if k == "opt":
        T = ("num", t.pick(DT)) if not depth or t.chance(0.6) else flattype(t, depth)
        return T if T[0] == "opt" else ("opt", T)
    if k == "union":
        a, b = t.pick(DT), t.pick(DT)
        return ("num", a) if a == b or "bool" in (a, b) else ("union", (("num", a), ("num", b)))
    n = t.between(1, 2)
    subs = [flattype(t, depth - 1) for _ in range(n)]
    return ("rec", tuple(zip(NAMES, subs))) if k == "rec" else ("tup", tuple(subs))


def jaggedtype(t):
    T = ("list", flattype(t, t.below(2)))
    for _ in range(t.below(3)):
        k = t.wpick([(3, "list"), (1, "opt"), (1, "rec"), (1, "tup")])
        if k == "list":
            T = ("list", T)
        elif k == "opt":
            T = T if T[0] == "opt" else ("opt", T)
        elif k == "rec":
            T = ("rec", (("x", T), ("y", ("list", ("num", t.pick(DT))))))
        else:
            T = ("tup", (T,))
    return T


def run(a, name):
    if name == "reduce":
        return a.reduce(numpy.add, 0)
    return getattr(a, name)()


def numbers(t, T, n, special):
    return gen_values(t, T, n, special)


def layout(t):
    return Layout(p=t.pick([0.1, 0.35, 0.6])) if t.chance(0.8) else Layout(PLAIN)


def case(t, T, n=5):
    values = gen_values(t, T, t.length(n), t.flag())
    lay = layout(t) if T[0] != "num" else Layout(p=1)
    a = build(t, T, values, lay, wrap=t.below(3) or int(T[0] == "num"), special=t.flag())
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.nontrivial = len(values) >= 2
    return values, a


def jagged(t):
    """reducers of jagged arrays against loops over the innermost lists"""
    T = jaggedtype(t)
    values, a = case(t, T)
    t.assume(isinstance(a, AwkwardArray))
    name = t.pick(REDUCERS)
    t.note("reducer", name)
    expect(t, run(a, name), [each(name, T, v) for v in values], name, eq=eq)


def flat(t):
    """reducers of flat arrays and of records"""
    T = flattype(t)
    values, a = case(t, T, 7)
    t.assume(isinstance(a, AwkwardArray))
    t.assume(len(values) > 0 or T[0] == "num")
    name = t.pick(REDUCERS)
    t.note("reducer", name)
    expect(t, run(a, name), flatreduce(name, T, values), name, eq=eq)


def mixed(t):
    """records with a jagged and a flat column cannot be reduced together"""
    T = ("rec", (("x", ("list", ("num", "int64"))), ("y", ("num", "float64"))))
    values = gen_values(t, T, t.length(4))
    a = build(t, T, values, LOCAL, wrap=0)
    t.note("array", describe(a))
    name = t.pick(REDUCERS)
    got = attempt(lambda: run(a, name))
    t.nontrivial = True
    t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "%s of a record array with jagged and flat columns gave %r" % (name, got))


LOCAL = Layout(ALL - {"inner"})


def sparse(t):
    """sparse arrays of lists: the default is a list like the others"""
    dt = t.pick(DT)
    T = ("list", ("num", dt))
    for _ in range(t.below(2)):
        T = ("list", T)
    n = t.length(6)
    values = gen_values(t, T, n, t.flag())
    default = t.pick([None, [], gen_value(t, T)])
    pos = [i for i in range(n) if t.chance(0.6)]
    content = build(t, T, [values[i] for i in pos], layout(t).without("inner"), wrap=0)
    a = SparseArray(n, numpy.array(pos, dtype=t.pick(["int64", "int32"])), content, default=default)
    want = [values[i] if i in pos else default or [] for i in range(n)]
    if t.chance(0.3):
        a = IndexedArray(numpy.arange(n)[::-1], a) if n else a
        want = want[::-1]
    t.note("type", tstr(T))
    t.note("array", describe(a), "default", default)
    t.nontrivial = n >= 2 and len(pos) < n
    expect(t, a, want, "array")
    name = t.pick(REDUCERS)
    t.note("reducer", name)
    if isinstance(a, IndexedArray):
        got = attempt(lambda: run(a, name))
        t.assume(not (isinstance(got, Refused) and isinstance(got.err, NotImplementedError)))
    else:
        got = run(a, name)
    expect(t, got, [each(name, T, v) for v in want], name, eq=eq)


# ------------------------------------------------------------------ other functions

OTHER = {"float": [(numpy.add, 0), (numpy.multiply, 1), (numpy.maximum, -1000), (numpy.minimum, 1000), (numpy.fmax, -1000.5), (numpy.logical_or, False), (numpy.logical_and, True)],
         "int": [(numpy.add, 0), (numpy.multiply, 1), (numpy.maximum, -1000), (numpy.minimum, 1000), (numpy.bitwise_or, 0), (numpy.bitwise_and, -1), (numpy.bitwise_xor, 0), (numpy.logical_or, False), (numpy.logical_xor, False)]}


def reduceby(f, T, v, identity, odd):
    if T[0] == "opt":
        return None if v is None else reduceby(f, T[1], v, identity, odd)
    if T[0] == "rec":
        return dict((k, reduceby(f, S, v[k], identity, odd)) for k, S in T[1])
    if T[1][0] == "list":
        return [reduceby(f, T[1], x, identity, odd) for x in v]
    v = [x for x in v if x is not None and x == x]
    if not v:
        return identity
    if odd:
        return Anything()
    out = f.reduce(numpy.array(v))
    return out.item()


class Anything(object):
    pass


def about2(a, b):
    if isinstance(b, Anything):
        return True
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(about2(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(about2(a[k], b[k]) for k in b)
    return close(a, b, 1e-5)


def functions(t):
    """reduce with any function and the identity for lists without a number"""
    dt = t.pick(["int64", "float64", "int32", "float32"])
    f, identity = t.pick(OTHER[dt.rstrip("0123456789")])
    odd = f in (numpy.add, numpy.multiply, numpy.maximum, numpy.minimum) and t.chance(0.3)
    if odd:                  # only matters for lists without a number
        identity = t.pick([3, 7, -2])
    S = ("num", dt)
    if t.chance(0.3):
        S = ("opt", S)
    T = ("list", S)
    for _ in range(t.below(3)):
        T = ("list", T)
    if t.chance(0.15):
        T = ("rec", (("x", T), ("y", ("list", ("num", dt)))))
    flat = t.chance(0.25)
    if flat:
        T = ("list", S)
        values = gen_value(t, T, t.flag(), 6)
        a = build(t, S, values, layout(t), wrap=1)
        t.assume(isinstance(a, AwkwardArray))
    else:
        values = gen_values(t, T, t.length(5), t.flag())
        a = build(t, T, values, layout(t), wrap=t.below(2))
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.note("function", f.__name__, "identity", identity)
    t.nontrivial = len(values) >= 2
    want = reduceby(f, T, values, identity, odd) if flat else [reduceby(f, T, v, identity, odd) for v in values]
    with numpy.errstate(all="ignore"):
        got = a.reduce(f, identity)
    if odd:
        want = only(T, values, want, flat)
    expect(t, got, want, "reduce(%s, %r)" % (f.__name__, identity), eq=about2)


def only(T, v, want, flat):
    """with a value that is not neutral, only lists without any element are known"""
    if flat:
        return want if not v else Anything()
    def walk(T, v, w):
        if v is None:
            return w
        if T[0] == "opt":
            return walk(T[1], v, w)
        if T[0] == "rec":
            return dict((k, walk(S, v[k], w[k])) for k, S in T[1])
        if T[1][0] == "list":
            return [walk(T[1], x, y) for x, y in zip(v, w)]
        return w if not v else Anything()
    return [walk(T, x, y) for x, y in zip(v, want)]


# ------------------------------------------------------------------ moments

def div(a, b):
    return float(numpy.true_divide(a, b)) if b else float(numpy.true_divide(numpy.float64(a), numpy.float64(b)))


def moments(name, xs, ws, n, ddof):
    keep = [(x, w) for x, w in zip(xs, ws) if x is not None and x == x]
    W = float(sum(w for _, w in keep))
    S = lambda k: float(sum(w * x ** k for x, w in keep))
    if name == "moment":
        return div(S(n), W)
    if name == "mean":
        return div(S(1), W)
    mean = div(S(1), W)
    var = div(sum(w * (x - mean) ** 2 for x, w in keep), W)
    if ddof:
        var = div(var * W, W - ddof) if W == W else float("nan")
    if name == "var":
        return var
    return float(numpy.sqrt(var)) if var >= 0 else float("nan")


def about(a, b):
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(about(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(about(a[k], b[k]) for k in b)
    if a is None or b is None:
        return a is b
    if b != b or a != a:
        return a != a and b != b
    if abs(b) == float("inf"):
        return a == b
    return abs(a - b) <= 1e-5 * max(1.0, abs(b))


def leaves(T, v, w, f):
    k = T[0]
    if k == "list" and T[1][0] == "list":
        return [leaves(T[1], x, y, f) for x, y in zip(v, w)]
    if k == "list" and T[1][0] == "rec":
        return dict((n, f([part(T[1], x, n) for x in v], w)) for n, _ in T[1][1])
    return f(v, w)


def moment(t):
    """moment, mean, var, std with weights and ddof against their formulas"""
    special = t.chance(0.3)
    dt = t.pick(["float64", "int64"])
    S = ("num", dt)
    if t.chance(0.3):
        S = ("opt", S)
    elif t.chance(0.3):
        S = ("rec", (("x", S), ("y", ("num", t.pick(["float64", "int64"])))))
    T = S
    for _ in range(t.between(0, 2)):
        T = ("list", T)
    n = t.length(5, 1)
    values = gen_values(t, T, n)
    if special:
        def nan(T, v):
            if T[0] == "num":
                return float("nan") if T[1] == "float64" and t.chance(0.2) else v
            if T[0] == "list":
                return [nan(T[1], x) for x in v]
            if T[0] == "rec":
                return dict((k, nan(x, v[k])) for k, x in T[1])
            return v
        values = [nan(T, v) for v in values]
    if t.chance(0.3):       # values that are not binary fractions, often equal within a list
        def inexact(T, v, x):
            if T[0] == "num":
                return v if T[1] != "float64" else x[0] if t.chance(0.7) else v / 7
            if T[0] == "list":
                x = [t.pick([0.1, 1.1, 12.7, -0.3])]
                return [inexact(T[1], y, x) for y in v]
            if T[0] == "rec":
                return dict((k, inexact(y, v[k], x)) for k, y in T[1])
            return v if v is None else inexact(T[1], v, x)
        x = [t.pick([0.1, 1.1, 12.7, -0.3])]
        values = [inexact(T, v, x) for v in values]
    a = build(t, T, values, layout(t) if T[0] != "num" else Layout(p=1), wrap=t.below(2) or int(T[0] == "num"))
    t.assume(isinstance(a, AwkwardArray))
    name = t.pick(["moment", "mean", "var", "std"])
    k = t.between(1, 3)
    ddof = t.pick([0, 0, 1]) if name in ("var", "std") else 0
    args = (k,) if name == "moment" else ()
    kw = {"ddof": ddof} if ddof else {}
    mode = t.pick(["none", "scalar", "perlist", "full"]) if S[0] == "num" else t.pick(["none", "scalar"])
    wt = lambda: t.pick([1.0, 2.0, 0.5, 3.0])
    if mode == "perlist" and T[0] != "list":
        mode = "full"

    def const(v, w):
        return [const(x, w) for x in v] if isinstance(v, list) else w

    def full(v):
        return [full(x) for x in v] if isinstance(v, list) else wt()
    if mode == "none":
        w = [const(v, 1.0) for v in values]
    elif mode == "scalar":
        x = t.pick([2, 1.0, 0.5])
        w = [const(v, x) for v in values]
        kw["weight"] = x
    elif mode == "perlist":
        x = [wt() for _ in values]
        w = [const(v, y) for v, y in zip(values, x)]
        kw["weight"] = numpy.array(x)
    else:
        w = [full(v) for v in values]
        W = ("num", "float64")
        for _ in range(sum(1 for c in tstr(T) if c == "[")):
            W = ("list", W)
        kw["weight"] = build(t, W, w, Layout(), wrap=0)
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.note(name, k if name == "moment" else "", "ddof", ddof, "weights", mode, w)
    t.nontrivial = n >= 2
    f = lambda xs, ws: moments(name, xs, ws, k, ddof)
    with numpy.errstate(all="ignore"):
        if T[0] == "list":
            want = [leaves(T, v, y, f) for v, y in zip(values, w)]
        elif T[0] == "rec":
            want = dict((c, f([part(T, v, c) for v in values], w)) for c, _ in T[1])
        else:
            want = f(values, w)
        got = getattr(a, name)(*args, **kw)
    expect(t, got, want, name, eq=about)


SUBS = [Sub("jagged", jagged, 30000), Sub("flat", flat, 15000), Sub("mixed", mixed, 1500), Sub("sparse", sparse, 3000), Sub("functions", functions, 6000), Sub("moment", moment, 15000)]
