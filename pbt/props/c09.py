"""C09: argmin, argmax, argsort."""
from .common import *

ID = "C09"
RULE = ("a case draws a flat or jagged array (1..3 levels) of numbers with ties, empty lists, None, NaN, infinities and integer extremes, in a "
        "random layout, and takes argmin, argmax or argsort; non-trivial: at least two elements or lists")

DT = ("int64", "float64", "bool", "int32", "uint8", "float32", "int16", "uint64", "int8", "uint32")
SLAY = Layout(allow=(ALL - {"sparse"}) | {"boolmask"})
JLAY = Layout(allow=("scatter", "gap", "npstride", "bitmask", "indexmask", "boolmask", "idt", "longstops", "farempty"))


def extreme(t, dt, v):
    if t.chance(0.12) and not isinstance(v, list):
        if dt.startswith("float"):
            return t.pick([float("inf"), float("-inf"), float("nan"), -0.0])
        if dt != "bool":
            i = numpy.iinfo(dt)
            return int(t.pick([i.max, i.min, i.max - 1]))
    return v


def leaftype(t, opt=0.25):
    T = ("num", t.pick(DT))
    return ("opt", T) if t.chance(opt) else T


def dtype_of(T):
    while T[0] in ("list", "opt"):
        T = T[1]
    return T[1]


def sprinkle(t, T, v):
    if v is None:
        return None
    if T[0] == "list":
        return [sprinkle(t, T[1], x) for x in v]
    if T[0] == "opt":
        return sprinkle(t, T[1], v)
    return extreme(t, T[1], v)


def nested(T):
    return T[0] == "list" or (T[0] == "opt" and nested(T[1]))


def leveltype(t, leafT, opt=True):
    for i in range(t.wpick([(6, 1), (3, 2), (1, 3)])):
        leafT = ("list", leafT)
        if i > 0 and opt and t.chance(0.15):
            leafT = ("opt", leafT)
    if opt and t.chance(0.15):
        leafT = ("opt", leafT)
    return leafT


def ok(v):
    return v is not None and v == v


def best(vals, ismin):
    """local position of the first smallest or largest value, or None"""
    at = None
    for i, v in enumerate(vals):
        if ok(v) and (at is None or (v < vals[at] if ismin else v > vals[at])):
            at = i
    return at


def each(T, v, fn):
    if v is None:
        return None
    if T[0] == "opt":
        return each(T[1], v, fn)
    if nested(T[1]):
        return [each(T[1], x, fn) for x in v]
    return fn(v)


def draw(t, T, lay, special=True, wrap=None, maxlen=6):
    n = t.length(maxlen)
    values = [sprinkle(t, T, v) for v in gen_values(t, T, n, special)]
    a = build(t, T, values, lay, wrap=t.below(3) if wrap is None else wrap, special=special)
    t.note("type", tstr(T))
    t.note("values", values)
    t.note("array", describe(a))
    if n >= 2:
        t.nontrivial = True
    return values, a


def jagged(t):
    """argmin and argmax of lists: one position each, of the first extreme"""
    T = leveltype(t, leaftype(t))
    values, a = draw(t, T, SLAY)
    ismin = t.flag()
    name = "argmin" if ismin else "argmax"
    t.note("op", name)
    if chunkless(a):
        return
    got = attempt(getattr(a, name))
    if isinstance(got, Refused):
        # the type of a chunked content without any value is unknown
        if isinstance(got.err, TypeError) and (not anyvalue(values) or has(T, "opt") and t.features & {"chunked", "appendable"} and "jagged index must be" in str(got.err)):
            raise Discard()
        raise got.err

    def one(vals):
        i = best(vals, ismin)
        return [] if i is None else [i]
    want = [each(T, v, one) for v in values]
    expect(t, got, want, "a.%s()" % name)
    structure(t, got, want, "a.%s()" % name)
    expect(t, a, values, "the array after %s" % name)
    # selecting with the result
    if purejagged(a) and not has(T, "opt") and leaves(want):
        def sel(vals):
            i = best(vals, ismin)
            return [] if i is None else [vals[i]]
        expect(t, a[got], [each(T, v, sel) for v in values], "a[a.%s()]" % name)


def anyvalue(x):
    return any(anyvalue(y) for y in x) if isinstance(x, list) else x is not None


def purejagged(a):
    return isinstance(a, JaggedArray) and (not hasjagged(a.content) or purejagged(a.content))


def hasjagged(a):
    return isinstance(a, AwkwardArray) and a._hasjagged()


def leaves(x):
    return any(leaves(y) for y in x) if isinstance(x, list) else True


def chunkless(a):
    """a ChunkedArray without elements does not know it is jagged"""
    return len(a) == 0


def flat(t):
    """argmin and argmax of flat arrays"""
    T = leaftype(t, 0.4)
    values, a = draw(t, T, SLAY, special=False, maxlen=8)
    vals = [v for v in values if ok(v)]
    nan = any(v is not None and v != v for v in values)
    ismin = t.flag()
    name = "argmin" if ismin else "argmax"
    t.note("op", name)
    if isinstance(a, numpy.ndarray):
        return
    if not any(v is not None for v in values):
        got = attempt(getattr(a, name))
        t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), "%s of no values gave %r" % (name, got))
        return
    got = getattr(a, name)()
    if nan:
        # Numpy: the first NaN is both the minimum and the maximum
        want = [i for i, v in enumerate(values) if v is not None and v != v][0]
    else:
        want = best(values, ismin)
    t.check(not isinstance(got, (list, tuple)) and int(got) == want, "%s gave %r, expected %r" % (name, got, want))
    t.check(same(tolist(a[int(got)]), values[want]), "a[a.%s()]" % name)


def argsort(t):
    """argsort in both orders, stable, without the missing, NaN last"""
    leaf = leaftype(t, 0.3)
    T = leveltype(t, leaf, opt=False)
    values, a = draw(t, T, JLAY, wrap=0)
    asc = t.flag()
    t.note("ascending", asc)
    got = a.argsort(True) if asc else (a.argsort() if t.flag() else a.argsort(ascending=False))

    def check(T, vals, perm):
        if nested(T[1]):
            t.check(len(vals) == len(perm), "length")
            for v, p in zip(vals, perm):
                check(T[1], v, p)
            return
        keep = [i for i, v in enumerate(vals) if v is not None]
        t.check(sorted(perm) == keep, lambda: "argsort of %r gave %r, not a permutation of the positions" % (vals, perm))
        seq = [vals[i] for i in perm]
        good = [v for v in seq if v == v]
        t.check(all(v == v for v in seq[:len(good)]), lambda: "argsort of %r gave %r: NaN must be last" % (vals, perm))
        t.check(good == sorted(good, reverse=not asc), lambda: "argsort of %r gave %r, not sorted" % (vals, perm))
        for i, j in zip(perm[:-1], perm[1:]):
            if vals[i] == vals[j]:
                t.check(i < j, lambda: "argsort of %r gave %r: equal values out of order" % (vals, perm))
    perms = tolist(got)
    t.evals += 1
    t.check(len(perms) == len(values), lambda: "%d lists for %d" % (len(perms), len(values)))
    for v, p in zip(values, perms):
        check(T, v, p)
    expect(t, a, values, "the array after argsort")
    if not has(T, "opt"):
        def sel(T, vals, perm):
            if nested(T[1]):
                return [sel(T[1], v, p) for v, p in zip(vals, perm)]
            return [vals[i] for i in perm]
        expect(t, a[got], [sel(T, v, p) for v, p in zip(values, perms)], "a[a.argsort()]")


def big(t):
    """many and long lists"""
    dt = t.pick(("int64", "float64", "uint8", "bool", "int8"))
    counts = [t.pick([0, 1, 2, 5, 17, 60, 120]) for _ in range(t.between(1, 8))]
    span = t.pick([2, 10, 200])
    seed = t.below(1 << 30)
    rng = numpy.random.RandomState(seed)
    content = rng.randint(0, span, sum(counts)).astype(dt)
    if dt == "float64":
        content[rng.randint(0, 10, len(content)) == 0] = float("nan")
    a = JaggedArray.fromcounts(counts, content)
    t.note("counts", counts)
    t.note("content", content.tolist() if len(content) < 50 else (dt, span, seed))
    t.nontrivial = True
    values = a.tolist()
    for ismin, name in ((True, "argmin"), (False, "argmax")):
        expect(t, getattr(a, name)(), [[] if best(v, ismin) is None else [best(v, ismin)] for v in values], name)
    asc = t.flag()
    if max(counts) > 60:
        return
    perms = a.argsort(asc).tolist()
    for v, p in zip(values, perms):
        num = sorted([i for i, x in enumerate(v) if x == x], key=lambda i: (v[i] if asc else -v[i], i))
        t.check(p == num + [i for i, x in enumerate(v) if x != x], lambda: "argsort(%r) of %r gave %r" % (asc, v, p))


def refuse(t):
    """types that have no order are refused"""
    kind = t.pick(("rec", "nd"))
    if kind == "rec":
        T, values, a = sample(t, T=("rec", (("x", ("num", "int64")), ("y", ("num", "float64")))), lay=JLAY, wrap=0, minlen=1)
        got = attempt(t.pick((a.argmin, a.argmax)))
        t.check(isinstance(got, Refused) and isinstance(got.err, TypeError), "argmin of records gave %r" % (got,))
    else:
        T, values, a = sample(t, T=("list", ("nd", "int64", (2,))), lay=JLAY, wrap=0, minlen=1)
        t.assume(any(values))
        got = attempt(t.pick((a.argmin, a.argmax)))
        t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), "argmin of fixed-size items gave %r" % (got,))
    t.nontrivial = True


SUBS = [Sub("jagged", jagged, 7500), Sub("flat", flat, 6000), Sub("argsort", argsort, 6000), Sub("big", big, 1500), Sub("refuse", refuse, 450)]
