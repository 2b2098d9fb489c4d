"""C10: descriptions of jagged structure, conversions between them, malformed structures."""
from .common import *

ID = "C10"
RULE = ("a case draws a list of counts (empty lists first, last and adjacent included) and a content, describes the structure in several ways and "
        "integer types, or draws a sequence of property assignments, or corrupts a valid description; non-trivial: at least 2 lists")

IDT = ("int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64")
SIGNED = ("int64", "int32", "int16", "int8")
LAY = Layout(allow=("scatter", "gap", "idt", "longstops", "farempty", "npstride"))


def intarray(t, values, signed=False, aslist=True):
    if aslist and t.chance(0.2) and len(values) > 0:
        return list(values)
    a = numpy.array(values, dtype=t.pick(SIGNED if signed else IDT))
    m = t.below(6)
    if m == 0:
        a = numpy.repeat(a, 2)[::2]
    elif m == 1:
        a = numpy.concatenate([a[:1] * 0, a])[1:]
    return a


def gen_counts(t, maxn=7):
    return [t.wpick([(3, 0), (3, 1), (3, 2), (1, 3), (1, 5)]) for _ in range(t.length(maxn))]


def cumsum(counts):
    out = [0]
    for c in counts:
        out.append(out[-1] + c)
    return out


def content(t, n):
    """a content of n (or a few more) elements with its values"""
    T = t.pick((("num", "int64"), ("num", "float64"), ("num", "int64"), ("list", ("num", "int32")), ("rec", (("x", ("num", "int64")), ("y", ("str",)))), ("opt", ("num", "int64"))))
    values = gen_values(t, T, n)
    if T[0] == "num":
        values = [type(v)(i + 1) for i, v in enumerate(values)]       # distinct, so that misplaced elements show
    return T, values, build(t, T, values, Layout(allow=("scatter", "view", "boolmask", "indexmask", "bitmask")), wrap=0)


def group(values, offsets):
    return [values[a:b] for a, b in zip(offsets[:-1], offsets[1:])]


def derived(t, a, starts, stops, values, what):
    """everything derived from a jagged array of depth one with these boundaries"""
    n = len(starts)
    lists = [values[i:j] for i, j in zip(starts, stops)]
    counts = [j - i for i, j in zip(starts, stops)]
    todo = t.shuffle(["tolist", "counts", "offsets", "parents", "localindex", "flatten", "len", "startsstops"])
    for k in todo[:t.between(4, len(todo))]:
        if k == "tolist":
            expect(t, a, lists, what + ".tolist()")
        elif k == "counts":
            expect(t, a.counts, counts, what + ".counts", strict=True)
        elif k == "len":
            t.check(len(a) == n, "len")
        elif k == "startsstops":
            expect(t, a.starts, list(starts), what + ".starts")
            expect(t, a.stops, list(stops), what + ".stops")
        elif k == "offsets":
            got = attempt(lambda: a.offsets)
            if list(starts[1:]) == list(stops[:-1]):
                if n == 0:
                    t.check(len(tolist(got)) == 1, lambda: "%s.offsets gave %r" % (what, got))
                else:
                    expect(t, got, list(starts) + list(stops[-1:]), what + ".offsets")
            else:
                t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "%s.offsets of starts %r stops %r gave %r" % (what, starts, stops, got))
        elif k == "flatten":
            expect(t, a.flatten(), [x for y in lists for x in y], what + ".flatten()")
        elif k == "localindex":
            expect(t, a.localindex, [list(range(c)) for c in counts], what + ".localindex")
        elif k == "parents":
            got = tolist(a.parents)
            t.evals += 1
            owners = {}
            for p, (i, j) in enumerate(zip(starts, stops)):
                for x in range(i, j):
                    owners.setdefault(x, []).append(p)
            top = max(owners) + 1 if owners else 0
            t.check(len(got) >= top, lambda: "%s.parents %r too short for stops %r" % (what, got, stops))
            for x, p in enumerate(got):
                t.check((p in owners[x]) if x in owners else p == -1, lambda: "%s.parents gave %r for starts %r stops %r" % (what, got, starts, stops))


def build_(t):
    """one structure through every constructor, and every derived description"""
    counts = gen_counts(t)
    offsets = cumsum(counts)
    n = len(counts)
    t.nontrivial = n >= 2
    extra = t.below(3) if t.chance(0.3) else 0
    way = t.pick(("counts", "offsets", "startsstops", "parents", "uniques", "localindex", "fromiter", "jagged", "scatter", "parentslength", "parentsunordered"))
    t.note("counts", counts)
    t.note("way", way)
    total = offsets[-1]
    starts, stops = offsets[:-1], offsets[1:]
    if way in ("counts", "offsets", "startsstops", "jagged"):
        T, values, c = content(t, total + extra)
        if way == "counts":
            arg = intarray(t, counts)
            a = JaggedArray.fromcounts(arg, c)
        elif way == "offsets":
            arg = intarray(t, offsets)
            a = JaggedArray.fromoffsets(arg, c)
        else:
            if t.flag():
                o = numpy.array(offsets, dtype=t.pick(IDT))
                arg = (o[:-1], o[1:])
            else:
                arg = (intarray(t, starts), intarray(t, stops + ([total] if t.chance(0.2) else [])))
            a = JaggedArray(arg[0], arg[1], c)
            if way == "jagged":
                a = JaggedArray.fromjagged(a)
        t.note("argument", arg)
    elif way in ("parents", "parentslength"):
        T, values, c = content(t, total)
        parents = [i for i, x in enumerate(counts) for _ in range(x)]
        length = None
        if way == "parentslength":
            length = t.below(n + 3)
        arg = intarray(t, parents, True)
        t.note("argument", (arg, length))
        a = JaggedArray.fromparents(arg, c, length=length) if length is not None else JaggedArray.fromparents(arg, c)
        if length is None:
            while counts and counts[-1] == 0:
                counts = counts[:-1]
        else:
            counts = (counts + [0] * length)[:length]
        expect(t, a, group(values, cumsum(counts)), "fromparents(%r, length=%r)" % (parents, length))
        if length is None:
            expect(t, a.parents, parents, "parents")
        expect(t, a.counts, counts, "counts")
        expect(t, a.localindex, [list(range(x)) for x in counts], "localindex")
        return
    elif way == "parentsunordered":
        order = t.shuffle(range(n))
        T, values, c = content(t, total + sum(1 for _ in range(n)))
        parents, at, pos = [], {}, 0
        for i in order:
            if t.chance(0.3) and pos < len(values):
                parents.append(t.pick([-1, -2]))
                pos += 1
            at[i] = pos
            take = min(counts[i], len(values) - pos)
            counts[i] = take
            parents += [i] * take
            pos += take
        parents += [-1] * (len(values) - pos)
        arg = intarray(t, parents, True)
        t.note("argument", arg)
        a = JaggedArray.fromparents(arg, c)
        while counts and counts[-1] == 0:
            counts = counts[:-1]
        expect(t, a, [values[at[i]:at[i] + x] for i, x in enumerate(counts)], "fromparents(%r)" % (parents,))
        expect(t, a.parents, parents, "parents")
        b = JaggedArray(a.starts, a.stops, a.content)
        got = tolist(b.parents)
        want = [max(x, -1) for x in parents]
        t.check(len(got) <= len(want) and got + [-1] * (len(want) - len(got)) == want, lambda: "parents of starts/stops gave %r, expected %r" % (got, want))
        return
    elif way == "uniques":
        T, values, c = content(t, total)
        counts = [x for x in counts if x > 0]
        names = []
        for _ in counts:
            names.append(t.pick([x for x in (0, 1, 2, 5, 7, 100, 3) if not names or x != names[-1]]))
        uniques = [u for u, x in zip(names, counts) for _ in range(x)]
        arg = intarray(t, uniques)
        t.note("argument", arg)
        a = JaggedArray.fromuniques(arg, c)
        offsets = cumsum(counts)
        starts, stops = offsets[:-1], offsets[1:]
    elif way == "localindex":
        T, values, c = content(t, total)
        counts = [x for x in counts if x > 0]
        offsets = cumsum(counts)
        starts, stops = offsets[:-1], offsets[1:]
        flat = [i for x in counts for i in range(x)]
        arg = JaggedArray.fromcounts(counts, numpy.array(flat, dtype=int)) if t.flag() else intarray(t, flat)
        a = JaggedArray.fromlocalindex(arg, c, validate=t.flag())
    elif way == "fromiter":
        values = [float(i) for i in range(total)]
        a = JaggedArray.fromiter(group(values, offsets))
        t.check(isinstance(a, JaggedArray), "class")
    else:
        order = t.shuffle(range(n))
        T, values, c = content(t, total + 4)
        starts, stops, pos = [0] * n, [0] * n, t.below(3)
        for i in order:
            starts[i] = pos
            stops[i] = pos + min(counts[i], len(values) - pos)
            pos = stops[i] + (1 if t.chance(0.2) and stops[i] < len(values) else 0)
        if n > 1 and t.chance(0.3):
            i, j = t.below(n), t.below(n)
            starts[i], stops[i] = starts[j], stops[j]           # the same list twice
        a = JaggedArray(intarray(t, starts), intarray(t, stops), c)
    derived(t, a, starts, stops, values, way)
    # every way of writing the structure down describes the same array
    again = t.pick(("counts", "offsets", "localindex", "copy", "fromjagged", "startsstops"))
    lists = [values[i:j] for i, j in zip(starts, stops)]
    if again == "counts":
        b = JaggedArray.fromcounts(a.counts, a.flatten())
    elif again == "offsets":
        b = JaggedArray.fromoffsets(JaggedArray.counts2offsets(a.counts), a.flatten())
    elif again == "localindex":
        b = a[a.localindex]
    elif again == "copy":
        b = a.copy()
    elif again == "fromjagged":
        b = JaggedArray.fromjagged(a)
    else:
        b = JaggedArray(a.starts, a.stops, a.content)
    expect(t, b, lists, "rebuilt from its " + again)


def shaped(t):
    """starts and stops with several dimensions"""
    shape = tuple(t.between(1, 3) for _ in range(t.between(2, 3)))
    if t.chance(0.1):
        shape = (0,) + shape[1:]
    size = int(numpy.prod(shape))
    counts = [t.wpick([(3, 0), (3, 1), (3, 2), (1, 3)]) for _ in range(size)]
    offsets = cumsum(counts)
    T, values, c = content(t, offsets[-1] + t.below(2))
    arr = numpy.array(counts, dtype=t.pick(IDT)).reshape(shape)
    t.note("counts", arr.tolist())
    t.nontrivial = size >= 2
    if t.flag():
        a = JaggedArray.fromcounts(arr, c)
    else:
        a = JaggedArray(numpy.array(offsets[:-1], dtype=t.pick(IDT)).reshape(shape), numpy.array(offsets[1:], dtype=t.pick(IDT)).reshape(shape), c)
    lists = group(values, offsets)

    def nest(x, shape):
        if len(shape) == 1:
            return list(x)
        step = int(numpy.prod(shape[1:]))
        return [nest(x[i * step:(i + 1) * step], shape[1:]) for i in range(shape[0])]
    for k in t.shuffle(["tolist", "counts", "parents", "localindex", "flatten", "shape", "item"])[:5]:
        if k == "tolist":
            expect(t, a, nest(lists, shape), "tolist")
        elif k == "counts":
            expect(t, a.counts, nest(counts, shape), "counts")
        elif k == "localindex":
            expect(t, a.localindex, nest([list(range(x)) for x in counts], shape), "localindex")
        elif k == "flatten":
            expect(t, a.flatten(), values[:offsets[-1]], "flatten")
        elif k == "shape":
            t.check(a.shape == shape and len(a) == shape[0], lambda: "shape %r" % (a.shape,))
        elif k == "item" and size:
            where = tuple(t.below(x) for x in shape)
            flatpos = int(numpy.ravel_multi_index(where, shape))
            expect(t, a[where], lists[flatpos], "a%r" % (where,))
        elif k == "parents":
            got = tolist(a.parents)
            want = [i for i, x in enumerate(counts) for _ in range(x)]
            t.check(got[:len(want)] == want and all(p == -1 for p in got[len(want):]), lambda: "parents gave %r, expected %r" % (got, want))


def regular(t):
    """fromregular, fromfolding and fromiter of rectangular data"""
    shape = tuple(t.between(0, 3) for _ in range(t.between(2, 3)))
    arr = numpy.arange(int(numpy.prod(shape)), dtype=t.pick(("int64", "float64", "int16"))).reshape(shape)
    t.note("shape", shape)
    t.nontrivial = arr.size > 1
    a = JaggedArray.fromregular(arr if t.flag() or arr.size == 0 else arr.tolist())
    t.check(isinstance(a, JaggedArray) and a.content.dtype is not None, "class")
    expect(t, a, arr.tolist(), "fromregular")
    n = t.length(9)
    size = t.between(1, 4)
    T, values, c = content(t, n)
    b = JaggedArray.fromfolding(c, size)
    expect(t, b, [values[i:i + size] for i in range(0, n, size)], "fromfolding of %d by %d" % (n, size))
    if 0 not in shape:
        expect(t, a.regular(), arr.tolist(), "fromregular(...).regular()")


def helpers(t):
    """the static conversions between counts, offsets, parents, starts and stops"""
    counts = gen_counts(t)
    offsets = cumsum(counts)
    t.nontrivial = len(counts) > 1
    t.note("counts", counts)
    n = len(counts)
    expect(t, JaggedArray.counts2offsets(numpy.array(counts, dtype=t.pick(IDT))), offsets, "counts2offsets")
    lead = t.below(3)
    parents = [-1] * lead + [i for i, x in enumerate(counts) for _ in range(x)]
    expect(t, JaggedArray.offsets2parents(numpy.array([x + lead for x in offsets], dtype=t.pick(IDT))), parents, "offsets2parents")
    starts, stops = JaggedArray.parents2startsstops(numpy.array(parents, dtype=t.pick(SIGNED)))
    want = list(counts)
    while want and want[-1] == 0:
        want.pop()
    got = [int(b) - int(a) for a, b in zip(starts, stops)]
    t.check(got == want and all(int(a) == offsets[i] + lead for i, a in enumerate(starts) if want[i]), lambda: "parents2startsstops(%r) gave %r %r" % (parents, starts, stops))
    length = t.below(n + 3)
    starts, stops = JaggedArray.parents2startsstops(numpy.array(parents, dtype=t.pick(SIGNED)), length=length)
    want = (counts + [0] * length)[:length]
    got = [int(b) - int(a) for a, b in zip(starts, stops)]
    t.check(got == want and all(int(a) == offsets[i] + lead for i, a in enumerate(starts) if want[i]), lambda: "parents2startsstops(%r, length=%d) gave %r %r" % (parents, length, starts, stops))
    order = t.shuffle(range(n))
    st, sp, pos = [0] * n, [0] * n, 0
    for i in order:
        st[i], sp[i] = pos, pos + counts[i]
        pos += counts[i]
    dt = t.pick(IDT)
    got = tolist(JaggedArray.startsstops2parents(numpy.array(st, dtype=dt), numpy.array(sp, dtype=dt)))
    want = [i for i in order for _ in range(counts[i])]
    t.check(got == want, lambda: "startsstops2parents(%r, %r) gave %r" % (st, sp, got))
    u = [x for x in counts if x]
    uniques = numpy.array([(7 * i) % 11 for i, x in enumerate(u) for _ in range(x)], dtype=t.pick(IDT))
    o, p = JaggedArray.uniques2offsetsparents(uniques)
    expect(t, o, cumsum(u), "offsets of uniques %r" % (uniques.tolist(),))
    expect(t, p, [i for i, x in enumerate(u) for _ in range(x)], "parents of uniques %r" % (uniques.tolist(),))


READS = (lambda a: a.tolist(), lambda a: a[0:1], lambda a: a.flatten(), lambda a: a.valid(exception=True), lambda a: a.sum(), lambda a: a + 1)


def malformed(t):
    """corrupted descriptions raise"""
    counts = gen_counts(t)
    offsets = cumsum(counts)
    n = len(counts)
    total = offsets[-1]
    c = numpy.arange(total)
    t.nontrivial = True
    kind = t.pick(("short", "shortstops", "negative", "decreasing", "float", "negcounts", "parentslength", "uniqueslength", "emptyoffsets", "offsets2d",
                   "reversed", "scalar", "localindex", "localstart", "regular", "bool", "shapes", "floatparents", "negoffsets", "jaggedlocal", "locallength"))
    t.note("kind", kind)
    t.note("counts", counts)
    use = t.pick(READS)
    a0, a1 = list(offsets[:-1]), list(offsets[1:])
    exc = ValueError
    if kind == "short":
        t.assume(total > 0)
        cut = c[:t.below(total)]
        how = t.below(3)
        mk = [lambda: JaggedArray.fromcounts(counts, cut), lambda: JaggedArray.fromoffsets(intarray(t, offsets), cut), lambda: JaggedArray(intarray(t, a0), intarray(t, a1), cut)][how]
        exc = ValueError
    elif kind == "shortstops":
        t.assume(n > 0)
        mk = lambda: JaggedArray(intarray(t, a0), intarray(t, a1[:-1]), c)
    elif kind == "negative":
        t.assume(n > 0)
        which = t.flag()
        (a0 if which else a1)[t.below(n)] = -1 - t.below(3)
        mk = lambda: JaggedArray(intarray(t, a0, True), intarray(t, a1, True), c)
    elif kind == "negoffsets":
        bad = list(offsets)
        bad[t.below(n + 1)] = -1
        mk = lambda: JaggedArray.fromoffsets(intarray(t, bad, True), c)
    elif kind == "decreasing":
        t.assume(total > 0)
        bad = list(offsets)
        i = t.below(n + 1)
        bad[i] = t.below(total + 1)
        t.assume(any(x > y for x, y in zip(bad[:-1], bad[1:])))
        mk = lambda: JaggedArray.fromoffsets(intarray(t, bad), c)
    elif kind == "reversed":
        i = [j for j in range(n) if counts[j] > 0]
        t.assume(len(i) > 0)
        i = t.pick(i)
        a0[i], a1[i] = a1[i], a0[i]
        mk = lambda: JaggedArray(intarray(t, a0), intarray(t, a1), c)
    elif kind in ("float", "bool"):
        dt = "float64" if kind == "float" else "bool"
        exc = TypeError
        t.assume(n > 0)
        how = t.below(4)
        f = lambda x: numpy.array(x, dtype=dt)
        mk = [lambda: JaggedArray(f(a0), a1, c), lambda: JaggedArray(a0, f(a1), c), lambda: JaggedArray.fromcounts(f(counts), c), lambda: JaggedArray.fromoffsets(f(offsets), c)][how]
    elif kind == "floatparents":
        exc = TypeError
        t.assume(total > 0)
        p = numpy.array([i for i, x in enumerate(counts) for _ in range(x)], dtype="float64")
        mk = t.pick((lambda: JaggedArray.fromparents(p, c), lambda: JaggedArray.fromuniques(p, c), lambda: JaggedArray.fromlocalindex(p, c)))
    elif kind == "negcounts":
        t.assume(n > 0)
        counts[t.below(n)] = -1
        mk = lambda: JaggedArray.fromcounts(intarray(t, counts, True), c)
    elif kind == "parentslength":
        p = [i for i, x in enumerate(counts) for _ in range(x)]
        m = t.pick([x for x in (total - 1, total + 1) if x >= 0])
        mk = lambda: JaggedArray.fromparents(numpy.array(p, dtype=int), numpy.arange(m))
    elif kind == "uniqueslength":
        p = [i for i, x in enumerate(counts) for _ in range(x)]
        m = t.pick([x for x in (total - 1, total + 1) if x >= 0])
        mk = lambda: JaggedArray.fromuniques(numpy.array(p, dtype=int), numpy.arange(m))
    elif kind == "locallength":
        p = [j for i, x in enumerate(counts) for j in range(x)]
        m = t.pick([x for x in (total - 1, total + 1) if x >= 0])
        mk = lambda: JaggedArray.fromlocalindex(numpy.array(p, dtype=int), numpy.arange(m))
    elif kind == "emptyoffsets":
        mk = lambda: JaggedArray.fromoffsets(numpy.array([], dtype=int), c)
    elif kind == "offsets2d":
        mk = lambda: JaggedArray.fromoffsets(numpy.array([offsets, offsets]), c)
    elif kind == "scalar":
        mk = t.pick((lambda: JaggedArray(numpy.array(3), a1, c), lambda: JaggedArray(a0, numpy.array(3), c)))
    elif kind == "localindex":
        flat = [i for x in counts for i in range(x)]
        where = [i for i in range(1, len(flat))]
        t.assume(len(where) > 0)
        i = t.pick(where)
        flat[i] = t.pick([x for x in (flat[i] + 1, flat[i] + 2, flat[i - 1] + 2)])
        t.assume(flat[i] != 0 and flat[i] != flat[i - 1] + 1)
        mk = lambda: JaggedArray.fromlocalindex(intarray(t, flat), c)
    elif kind == "localstart":
        t.assume(total > 0)
        flat = [i for x in counts for i in range(x)]
        k = 1 + t.below(3)
        m = [x for x in counts if x][0]
        flat[:m] = [i + k for i in range(m)]
        mk = lambda: JaggedArray.fromlocalindex(intarray(t, flat), c)
    elif kind == "jaggedlocal":
        t.assume(total > 1)
        good = [x for x in counts if x]
        flat = [i for x in good for i in range(x)]
        cut = t.between(0, total - 1)
        other = [cut, total - cut]
        t.assume([x for x in other] != good)
        mk = lambda: JaggedArray.fromlocalindex(JaggedArray.fromcounts(other, numpy.array(flat)), c)
    elif kind == "regular":
        mk = lambda: JaggedArray.fromregular(numpy.arange(n))
    else:
        t.assume(n > 0)
        mk = lambda: JaggedArray(numpy.array(a0), numpy.array(a1).reshape(n, 1), c)
    got = attempt(mk)
    if not isinstance(got, Refused):
        t.note("array", describe(got))
        t.check(kind in ("short", "shortstops", "decreasing", "reversed", "shapes"), lambda: "%s was accepted: %r" % (kind, describe(got)))
        t.check(got.valid() is False, lambda: "valid() is not False for %r" % describe(got))
        got2 = attempt(use, got)
        t.check(isinstance(got2, Refused), lambda: "reading a malformed array gave %r" % (tolist(got2),))
        t.check(isinstance(got2.err, exc), lambda: "wrong exception %r" % (got2,))
        got3 = attempt(use, got)
        t.check(isinstance(got3, Refused), lambda: "reading a malformed array again gave %r" % (tolist(got3),))
    else:
        t.check(isinstance(got.err, exc), lambda: "%s raised %r" % (kind, got))
    t.evals += 1


def setters(t):
    """assign starts, stops, offsets, counts, parents and content in any order, reading in between"""
    cont = list(range(1, t.length(8) + 1))
    counts = gen_counts(t, 4)
    while sum(counts) > len(cont):
        counts[max(range(len(counts)), key=lambda i: counts[i])] -= 1
    off = cumsum(counts)
    starts, stops = off[:-1], off[1:]
    a = t.pick((lambda: JaggedArray.fromcounts(counts, cont), lambda: JaggedArray.fromoffsets(off, cont), lambda: JaggedArray(starts, stops, cont)))() if cont else JaggedArray.fromcounts(counts, numpy.array([], dtype=int))
    t.nontrivial = True
    log = []
    t.note("start", (counts, cont))
    t.note("ops", log)

    def isok():
        return (len(starts) <= len(stops) and all(i <= j for i, j in zip(starts, stops)) and all(j <= len(cont) for i, j in zip(starts, stops) if i != j))
    for _ in range(t.between(2, 7)):
        k = t.pick(("starts", "stops", "both", "offsets", "counts", "parents", "content", "content", "refused", "shaped", "shift"))
        if k == "content":
            cont = [x * 10 for x in range(1, t.length(8) + 1)]
            a.content = numpy.array(cont, dtype=int)
            log.append((k, cont))
        elif k == "starts":
            starts = [t.below(len(cont) + 1) for _ in range(t.pick([len(starts), t.below(5)]))]
            a.starts = numpy.array(starts, dtype=int)
            log.append((k, starts))
        elif k == "shift":
            # lists that begin where they did, or end where they did; some still exactly as they were
            if not isok() or not starts:
                continue
            if t.flag():
                stops = [j if t.flag() else t.between(i, max(i, j)) for i, j in zip(starts, stops)]
                a.stops = numpy.array(stops, dtype=int)
            else:
                starts = [i if t.flag() else t.between(min(i, j), j) for i, j in zip(starts, stops)]
                a.starts = numpy.array(starts, dtype=int)
            log.append((k, starts, stops))
        elif k == "stops":
            stops = [t.below(len(cont) + 1) for _ in range(t.pick([len(stops), t.below(5)]))]
            a.stops = numpy.array(stops, dtype=int)
            log.append((k, stops))
        elif k == "both":
            m = t.below(5)
            starts = [t.below(len(cont) + 1) for _ in range(m)]
            stops = [t.between(x, max(x, len(cont))) for x in starts]
            if t.flag():
                a.starts = numpy.array(starts, dtype=int)
                a.stops = numpy.array(stops, dtype=int)
            else:
                a.stops = numpy.array(stops, dtype=int)
                a.starts = numpy.array(starts, dtype=int)
            log.append((k, starts, stops))
        elif k == "offsets":
            off = sorted(t.below(len(cont) + 2) for _ in range(t.between(1, 5)))
            arr = numpy.array(off, dtype=int)
            a.offsets = arr if t.flag() else numpy.concatenate([[0], arr])[1:]
            starts, stops = off[:-1], off[1:]
            log.append((k, off))
        elif k == "counts":
            counts = gen_counts(t, 4)
            a.counts = numpy.array(counts, dtype=int)
            off = cumsum(counts)
            starts, stops = off[:-1], off[1:]
            log.append((k, counts))
        elif k == "refused":
            name = t.pick(("starts", "stops", "offsets", "counts", "parents"))
            m = t.between(1, 4)
            good = numpy.arange(m)
            bad = good.copy()
            bad[t.below(m)] = -1
            exc, value = t.pick([(TypeError, good.astype(float)), (TypeError, numpy.ones(m, dtype=bool)), (ValueError, numpy.array(3))] + ([(ValueError, bad)] if name != "parents" else [])
                                + ([(ValueError, numpy.array([good, good])), (ValueError, numpy.array([], dtype=int))] if name == "offsets" else []))
            log.append((k, name, value.tolist(), str(value.dtype)))
            got = attempt(lambda: setattr(a, name, value))
            t.check(isinstance(got, Refused) and isinstance(got.err, exc), lambda: "setting %s to %r gave %r" % (name, value, got))
            k = "refusing " + name
        elif k == "shaped":
            shape = (t.below(3), t.between(1, 3))
            counts = [t.below(3) for _ in range(shape[0] * shape[1])]
            off = cumsum(counts)
            cont = list(range(1, off[-1] + t.below(2) + 1))
            log.append((k, counts, shape))
            t.note("ops", list(log))
            a.content = numpy.array(cont, dtype=int)
            a.counts = numpy.array(counts, dtype=int).reshape(shape)
            lists = group(cont, off)
            fold = lambda x: [x[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]
            expect(t, a, fold(lists), "after two-dimensional counts")
            expect(t, a.counts, fold(counts), "counts after two-dimensional counts")
            expect(t, a.flatten(), cont[:off[-1]], "flatten after two-dimensional counts")
            expect(t, a.starts, fold(off[:-1]), "starts after two-dimensional counts")
            expect(t, a.stops, fold(off[1:]), "stops after two-dimensional counts")
            starts = stops = []
            a.starts = numpy.array(starts, dtype=int)
            a.stops = numpy.array(stops, dtype=int)
        elif k == "parents":
            counts = gen_counts(t, 4)
            while counts and counts[-1] == 0:
                counts.pop()
            lead = t.below(2)
            parents = [-1] * lead + [i for i, x in enumerate(counts) for _ in range(x)]
            a.parents = numpy.array(parents, dtype=int)
            off = [x + lead for x in cumsum(counts)]
            starts, stops = off[:-1], off[1:]
            log.append((k, parents))
            got = tolist(a.starts), tolist(a.stops)
            t.check(len(got[0]) == len(got[1]) == len(starts) and all((i, j) == (x, y) if x != y else i == j for i, j, x, y in zip(got[0], got[1], starts, stops)),
                    lambda: "parents %r gave starts and stops %r" % (parents, got))
            starts, stops = got
        t.note("ops", list(log))
        if t.chance(0.7):
            if isok():
                derived(t, a, starts, stops[:len(starts)], cont, "after " + k)
            else:
                use = t.pick(READS)
                got = attempt(use, a)
                t.check(isinstance(got, Refused), lambda: "starts %r stops %r content %r: reading gave %r" % (starts, stops, cont, tolist(got)))
                t.check(a.valid() is False, "valid() is True for starts %r stops %r content %r" % (starts, stops, cont))
        if t.chance(0.15):
            a = t.pick((a.copy, a.deepcopy))()
            log.append("copy")


SUBS = [Sub("build", build_, 24000), Sub("shaped", shaped, 10000), Sub("regular", regular, 6000), Sub("helpers", helpers, 10000),
        Sub("malformed", malformed, 16000), Sub("setters", setters, 20000)]
