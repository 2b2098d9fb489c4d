"""C07: counts, flatten, pad, regular, fillna, compact, structure1d, boolmask."""
from .common import *

ID = "C07"
RULE = ("a case draws an array of lists (nested, optional, in records, unions and fixed dimensions) in a random layout and one operation with "
        "its arguments; non-trivial: at least 2 elements and a non-numeric type")

DT = ("int64", "float64", "bool", "int32", "uint8")
NAN = float("nan")


def parts(T):
    return T[1] if T[0] == "rec" else tuple((i, S) for i, S in enumerate(T[1]))


def eachfield(T, v, f):
    if v is None:
        return None
    out = [(n, f(S, v[n])) for n, S in parts(T)]
    return dict(out) if T[0] == "rec" else tuple(x for _, x in out)


# ------------------------------------------------------------------ counts and masks

def count(T, v):
    k = T[0]
    if k in ("list", "nd"):
        return len(v)
    if k == "opt":
        return -1 if v is None else count(T[1], v)
    if k == "union":
        return count(T[1][v.tag], v.val)
    if k == "str":
        return len(v.encode("utf-8"))
    if k == "bytes":
        return len(v)
    return -1


def missing(T, v):
    k = T[0]
    if k == "opt":
        return v is None or missing(T[1], v)
    if k == "union":
        return missing(T[1][v.tag], v.val)
    return False


def lists(t, leaf=None):
    """a type with at least one level of lists"""
    T = leaf or t.wpick([(6, ("num", t.pick(DT))), (1, ("opt", ("num", t.pick(DT)))), (1, ("str",)),
                         (1, ("nd", t.pick(DT), (t.between(1, 3),) * t.between(1, 2))),
                         (1, ("rec", (("x", ("num", t.pick(DT))), ("y", ("num", t.pick(DT))))))])
    if T[0] == "nd" and t.chance(0.3):
        return T
    T = ("list", T)
    for _ in range(t.below(3)):
        k = t.wpick([(4, "list"), (2, "opt"), (1, "rec"), (1, "tup"), (1, "union")])
        if k == "list":
            T = ("list", T)
        elif k == "opt":
            T = T if T[0] == "opt" else ("opt", T)
        elif k == "rec":
            T = ("rec", (("x", T), ("y", ("list", ("num", t.pick(DT))))))
        elif k == "tup":
            T = ("tup", (T, T))
        elif T[0] not in ("opt", "union"):
            T = ("union", (T, ("list", ("str",))))
    return T


def layout(t, allow=ALL):
    return Layout(allow, p=t.pick([0.1, 0.35, 0.6])) if t.chance(0.8) else Layout(PLAIN)


def make(t, T, n=6, special=False, allow=ALL):
    values = gen_values(t, T, t.length(n), special)
    a = build(t, T, values, layout(t, allow) if T[0] not in ("num", "nd") else Layout(allow, p=1), wrap=t.below(3) or int(T[0] in ("num", "nd")), special=t.flag())
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.nontrivial = len(values) >= 2 and T[0] != "num"
    t.assume(isinstance(a, AwkwardArray))
    return values, a


def counts(t):
    """lengths of the lists, -1 where there is none"""
    T = lists(t) if t.chance(0.7) else gen_type(t, t.below(3), ("num", "list", "rec", "opt", "str", "union", "bytes", "tup", "nd"))
    values, a = make(t, T, allow=ALL - {"sparse"})
    expect(t, a.counts, [count(T, v) for v in values], "counts")
    want = [missing(T, v) for v in values]
    expect(t, a.ismasked, want, "ismasked")
    expect(t, a.isunmasked, [not x for x in want], "isunmasked")
    when = t.flag()
    expect(t, a.boolmask(maskedwhen=when), want if when else [not x for x in want], "boolmask(maskedwhen=%r)" % when)


# ------------------------------------------------------------------ flatten

class Refusal(Exception):
    pass


def flat(T, vals, axis):
    """vals flattened at axis, all at once"""
    k = T[0]
    if k == "num":
        return list(vals)
    if k in ("rec", "tup", "union"):
        raise Refusal()
    if k == "nd":
        if axis + 1 > len(T[2]):
            return list(vals)
        if axis == 0:
            return [x for v in vals for x in v]
        S = ("nd", T[1], T[2][1:]) if len(T[2]) > 1 else ("num", T[1])
        return [flat(S, v, axis - 1) for v in vals]
    if k == "opt":
        if axis == 0:
            return [y for v in vals for y in ([None] if v is None else flat(T[1], [v], 0))]
        return [None if v is None else flat(T[1], [v], axis)[0] for v in vals]
    assert k == "list", T
    if axis == 0:
        return [x for v in vals for x in v]
    if axis == 1 and T[1][0] == "num":
        if any(len(v) for v in vals):
            raise Refusal()
        return [[] for v in vals]
    if axis == 1 and T[1][0] == "opt" and any(x is None or T[1][1][0] == "num" for v in vals for x in v):
        raise Refusal()
    flat(T[1], [x for v in vals for x in v], axis - 1)
    return [flat(T[1], v, axis - 1) for v in vals]


def flatten(t):
    """flatten at each axis"""
    T = ("num", t.pick(DT))
    if t.chance(0.2):
        T = ("nd", t.pick(DT), tuple(t.between(1, 3) for _ in range(t.between(1, 3))))
    depth = 0 if T[0] == "nd" and t.chance(0.3) else t.between(1, 3)
    for _ in range(depth):
        T = t.wpick([(4, ("list", T)), (1, ("opt", ("list", T))), (0 if T[0] == "opt" else 1, ("list", ("opt", T)))])
    if T[0] == "nd":
        depth += len(T[2])
    values, a = make(t, T)
    axis = t.below(depth)
    t.note("flatten axis", axis)
    try:
        want = flat(T, values, axis)
    except Refusal:
        got = attempt(lambda: a.flatten(axis=axis))
        t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "flatten through numbers or missing lists gave %r" % (got,))
        return
    try:
        got = a.flatten() if axis == 0 and t.flag() else a.flatten(axis=axis)
    except NotImplementedError:
        t.assume("sparse" not in t.features)           # selections of sparse arrays are unions
        raise
    expect(t, got, want, "flatten(axis=%d)" % axis)
    structure(t, got, want, "flatten(axis=%d)" % axis)


def axes(t):
    """only non-negative integers can be an axis"""
    T = ("list", ("list", ("num", "int64")))
    values, a = make(t, T, 4)
    bad = t.pick([-1, -2, 0.5, "0", None])
    name = t.pick(["flatten", "pad"])
    t.note(name, "axis", bad)
    got = attempt(lambda: a.flatten(axis=bad) if name == "flatten" else a.pad(2, axis=bad))
    while isinstance(got, AwkwardArray) and not isinstance(got, awkward0.JaggedArray) and len(got) == 0:
        return
    t.nontrivial = True
    t.check(isinstance(got, Refused) and isinstance(got.err, TypeError), lambda: "%s with axis=%r gave %r" % (name, bad, got))


# ------------------------------------------------------------------ pad

def padded(T, v, length, clip, axis):
    k = T[0]
    if k in ("num", "str", "bytes"):
        raise Refusal()
    if k == "opt":
        return None if v is None else padded(T[1], v, length, clip, axis)
    if k in ("rec", "tup"):
        return eachfield(T, v, lambda S, x: padded(S, x, length, clip, axis))
    if k == "union":
        return U(v.tag, padded(T[1][v.tag], v.val, length, clip, axis))
    if axis == 0:
        out = list(v)[:length] if clip else list(v)
        return out + [None] * (length - len(out))
    S = T[1] if k == "list" else ("nd", T[1], T[2][1:]) if len(T[2]) > 1 else ("num", T[1])
    return [padded(S, x, length, clip, axis - 1) for x in v]


def paddable(T, axis):
    """whether every path through the type has a list at this depth"""
    k = T[0]
    if k == "opt":
        return paddable(T[1], axis)
    if k in ("rec", "tup"):
        return all(paddable(S, axis) for _, S in parts(T))
    if k == "union":
        return all(paddable(S, axis) for S in T[1])
    if k == "list":
        return axis == 0 or paddable(T[1], axis - 1)
    return k == "nd" and axis < len(T[2])


def pad(t):
    """pad and clip"""
    T = lists(t)
    values, a = make(t, T)
    axis = t.wpick([(4, 0), (2, 1), (1, 2)])
    length = t.below(6)
    clip = t.flag()
    when = t.flag()
    t.note("pad", length, "axis", axis, "clip", clip, "maskedwhen", when)
    kw = {} if axis == 0 and t.flag() else {"axis": axis}
    if paddable(T, axis):
        got = a.pad(length, maskedwhen=when, clip=clip, **kw)
        expect(t, got, plain([padded(T, v, length, clip, axis) for v in values]), "pad")
        structure(t, got, [padded(T, v, length, clip, axis) for v in values], "pad")
    elif T[0] not in ("opt", "union", "list") and not has(T, "str"):
        got = attempt(lambda: a.pad(length, maskedwhen=when, clip=clip, **kw))
        t.assume(len(values) > 0 and "chunked" not in t.features)
        t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "pad of scalars gave %r" % (got,))


def padmasked(t):
    """numpy.ma.masked as the mask: Numpy masked arrays as content"""
    dt = t.pick(DT)
    T = ("list", ("num", dt)) if t.flag() else ("list", ("list", ("num", dt)))
    values = gen_values(t, T, t.length(6))
    a = build(t, T, values, Layout({"scatter", "gap", "idt", "longstops", "npstride"}), wrap=0)
    axis = 0 if T[1][0] == "num" else 1
    length, clip = t.below(6), t.flag()
    t.note("array", describe(a), "pad", length, "axis", axis, "clip", clip)
    t.nontrivial = len(values) >= 2
    expect(t, a.pad(length, maskedwhen=numpy.ma.masked, clip=clip, axis=axis), [padded(T, v, length, clip, axis) for v in values], "pad(numpy.ma.masked)",
           eq=lambda x, y: same(unmask(x), y, False))


def unmask(x):
    if isinstance(x, list):
        return [unmask(y) for y in x]
    return None if x is numpy.ma.masked else x


# ------------------------------------------------------------------ regular

class Irregular(Exception):
    pass


def regular_(T, vals):
    k = T[0]
    if k in ("num", "nd", "str", "bytes"):
        return list(vals), (T[2] if k == "nd" else ())
    if k == "list":
        if len(set(len(v) for v in vals)) > 1:
            raise Irregular()
        inner, shape = regular_(T[1], [x for v in vals for x in v])
        n = len(vals[0]) if vals else 0
        return [inner[i * n:(i + 1) * n] for i in range(len(vals))], (n,) + shape
    if k == "opt":
        good, shape = regular_(T[1], [v for v in vals if v is not None])

        def nan(s):
            return [nan(s[1:]) for _ in range(s[0])] if s else NAN

        def number(x):
            return [number(y) for y in x] if isinstance(x, list) else float(x)
        good = iter(good)
        return [nan(shape) if v is None else number(next(good)) for v in vals], shape
    if k in ("rec", "tup"):
        cols = [regular_(S, [v[n] for v in vals])[0] for n, S in parts(T)]
        return [tuple(c[i] for c in cols) for i in range(len(vals))], ()
    raise AssertionError(T)


def alllists(x):
    if isinstance(x, list):
        yield x
    if isinstance(x, (list, tuple)):
        for y in x:
            for z in alllists(y):
                yield z


def untuple(x):
    return [untuple(y) for y in x] if isinstance(x, list) else tuple(untuple(y) for y in x) if isinstance(x, tuple) else x.tolist() if isinstance(x, numpy.ndarray) else x


def regular(t):
    """rectangular Numpy arrays, or an exception"""
    T = t.wpick([(6, ("num", t.pick(DT))), (2, ("opt", ("num", t.pick(DT)))),
                 (1, ("nd", t.pick(DT), (t.between(1, 3),) * t.between(1, 2))),
                 (1, ("rec", (("x", ("num", t.pick(DT))), ("y", ("num", t.pick(DT))))))])
    sizes = {}
    for _ in range(t.between(0 if T[0] in ("rec", "opt") else 1, 2)):
        T = t.wpick([(5, ("list", T)), (0 if T[0] == "opt" or has(T, "rec", "tup") else 1, ("opt", T)), (0 if has(T, "rec", "tup") else 1, ("tup", (T, ("list", ("num", "int64")))))])
    fix = t.chance(0.8)

    def value(T, level):
        if fix and T[0] == "list":
            if level not in sizes:
                sizes[level] = t.below(4)
            return [value(T[1], level + 1) for _ in range(sizes[level])]
        if T[0] == "opt":
            return None if t.chance(0.3) else value(T[1], level)
        if T[0] == "tup":
            return tuple(value(S, level + 10 * (i + 1)) for i, S in enumerate(T[1]))
        return gen_value(t, T)
    values = [value(T, 0) for _ in range(t.length(5))]
    lay = layout(t)
    a = build(t, T, values, lay, wrap=t.below(3), special=t.flag())
    t.note("type", tstr(T))
    t.note("array", describe(a))
    t.assume(isinstance(a, AwkwardArray))
    # the depth of an empty chunk is unknown
    t.assume(not (t.features & {"chunked", "appendable"} and has(T, "opt") and has(T, "nd")))
    t.assume("chunked" not in t.features or not any(len(v) == 0 or all(x is None for x in v) for v in alllists(values)))
    t.assume(not (T[0] == "opt" and T[1][0] != "num" and ("chunked" in t.features or all(v is None for v in values))))
    t.nontrivial = len(values) >= 2
    try:
        want, shape = regular_(T, values)
    except Irregular:
        got = attempt(lambda: a.regular())
        t.check(isinstance(got, Refused) and isinstance(got.err, (ValueError, TypeError)), lambda: "regular of an irregular array gave %r" % (got,))
        return
    got = a.regular()
    t.check(isinstance(got, numpy.ndarray), lambda: "regular gave %r" % type(got))
    t.check(len(got) == len(values), lambda: "regular of %d elements has shape %r" % (len(values), got.shape))
    if len(values):
        t.check(got.shape == (len(values),) + tuple(shape) or has(T, "opt", "tup") or got.size == 0, lambda: "regular has shape %r, not %r" % (got.shape, (len(values),) + tuple(shape)))
        t.check(close(untuple(got.tolist()), untuple(want)), lambda: "regular gave %r, not %r" % (got.tolist(), want))


# ------------------------------------------------------------------ fillna

def filled(T, v, x):
    k = T[0]
    if k == "num":
        return x if isinstance(v, float) and v != v else v
    if k == "nd":
        return [filled(("nd", T[1], T[2][1:]) if len(T[2]) > 1 else ("num", T[1]), y, x) for y in v]
    if k == "opt":
        return x if v is None else filled(T[1], v, x)
    if k == "list":
        return [filled(T[1], y, x) for y in v]
    if k in ("rec", "tup"):
        return eachfield(T, v, lambda S, y: filled(S, y, x))
    if k == "union":
        return filled(T[1][v.tag], v.val, x)
    return v


def fillna(t):
    """fillna replaces the missing and NaN only"""
    dt = t.pick(DT + ("float32",))
    T = ("num", dt) if t.chance(0.8) else ("nd", dt, (2,))
    if T[0] == "num" and t.chance(0.8):
        T = ("opt", T)
    if t.chance(0.1):
        T = ("str",)
    for _ in range(t.below(3)):
        k = t.wpick([(4, "list"), (2, "rec"), (1, "tup"), (1, "union")])
        if k == "list":
            T = ("list", T)
        elif k == "rec":
            T = ("rec", (("x", T), ("y", ("opt", ("num", t.pick(DT))))))
        elif k == "tup":
            T = ("tup", (T, ("num", "int64")))
        elif T[0] not in ("opt", "union"):
            T = ("union", (T, ("str",)))
    if T[0] in ("list", "rec", "str") and t.chance(0.15):
        T = ("opt", T)
    values, a = make(t, T, special=t.flag())
    x = t.pick([0, 1, 7, 0.5, -1, 999])
    t.note("fillna", x)
    top = T[0] == "opt" and T[1][0] not in ("num",)
    got = a.fillna(x)
    want = [filled(T, v, x) for v in values]
    if top:
        got = [y.tolist() if hasattr(y, "tolist") else tuplerow(y) for y in got]
    expect(t, got, want, "fillna", eq=lambda p, q: close(unbool(p), unbool(plain(q))))


def unbool(x):
    if isinstance(x, (list, tuple)):
        return type(x)(unbool(y) for y in x)
    if isinstance(x, dict):
        return dict((n, unbool(y)) for n, y in x.items())
    return int(x) if isinstance(x, (bool, numpy.bool_)) else x


def tuplerow(y):
    return tolist(y)


# ------------------------------------------------------------------ compact, structure1d

def compact(t):
    """compact, structure1d, boolmask and offsetsaliased keep the values"""
    T = ("list", t.wpick([(3, ("num", t.pick(DT))), (1, ("list", ("num", "int64"))), (1, ("str",)), (1, ("rec", (("x", ("num", "float64")),)))]))
    if t.chance(0.2):
        T = ("str",)
    values = gen_values(t, T, t.length(7))
    a = build(t, T, values, Layout({"scatter", "gap", "idt", "longstops", "npstride", "farempty"}, 0.5), wrap=0)
    t.note("array", describe(a))
    t.nontrivial = len(values) >= 2
    b = a.compact()
    expect(t, b, values, "compact")
    t.check(b.iscompact, "the compacted array is not compact")
    s, e = numpy.asarray(b.starts)[:len(b)], numpy.asarray(b.stops)[:len(b)]
    t.check((s[1:] == e[:-1]).all(), lambda: "compact starts %r stops %r have gaps" % (s, e))
    if a.iscompact:
        s, e = numpy.asarray(a.starts)[:len(a)], numpy.asarray(a.stops)[:len(a)]
        t.check((s[1:] == e[:-1]).all(), lambda: "starts %r stops %r have gaps but iscompact" % (s, e))


def shaped(t):
    """starts and stops with several dimensions"""
    shape = (t.length(3), t.between(1, 3)) if t.flag() else (t.length(2), t.between(1, 2), t.between(1, 2))
    size = 1
    for x in shape:
        size *= x
    T = ("list", t.wpick([(3, ("num", t.pick(DT))), (1, ("list", ("num", "int64")))]))
    values = gen_values(t, T, size)
    flatjag = build(t, T, values, Layout({"scatter", "gap", "longstops"}), wrap=0)
    a = awkward0.JaggedArray(numpy.asarray(flatjag.starts)[:size].reshape(shape), numpy.asarray(flatjag.stops)[:size].reshape(shape), flatjag.content)

    def group(vs, s):
        if len(s) == 1:
            return list(vs)
        step = len(vs) // s[0] if s[0] else 0
        return [group(vs[i * step:(i + 1) * step], s[1:]) for i in range(s[0])]
    want = group(values, shape)
    t.note("array", describe(a), "shape", shape)
    t.nontrivial = size >= 2
    expect(t, a, want, "shaped jagged array")
    what = t.pick(["structure1d", "counts", "flatten", "pad", "compact", "regular"])
    t.note(what)
    if what == "structure1d":
        b = a.structure1d()
        expect(t, b, want, "structure1d")
        t.check(len(b.shape) == 1, "structure1d left shape %r" % (b.shape,))
    elif what == "counts":
        expect(t, a.counts, group([len(v) for v in values], shape), "counts")
    elif what == "flatten":
        expect(t, a.flatten(), [x for v in values for x in v], "flatten")
    elif what == "compact":
        expect(t, a.compact(), want, "compact")
    elif what == "pad":
        n, clip = t.below(5), t.flag()
        t.note("pad", n, clip)
        expect(t, a.pad(n, clip=clip), group([padded(T, v, n, clip, 0) for v in values], shape), "pad")
    else:
        try:
            ref = regular_(T, values)[0]
        except Irregular:
            got = attempt(lambda: a.regular())
            t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "regular of an irregular array gave %r" % (got,))
            return
        expect(t, a.regular(), group(ref, shape), "regular")


SUBS = [Sub("counts", counts, 15000), Sub("flatten", flatten, 15000), Sub("axes", axes, 1000), Sub("pad", pad, 20000), Sub("padmasked", padmasked, 4000),
        Sub("regular", regular, 15000), Sub("fillna", fillna, 15000), Sub("compact", compact, 6000), Sub("shaped", shaped, 6000)]
