"""C12: mask encodings."""
from .common import *
from .indexing import gen_index

ID = "C12"
RULE = ("a case draws values with missing elements, hidden values chosen freely (NaN, infinities and integer extremes included) and one or two of the encodings "
        "(boolean, bits in both orders, index with any sentinel; masked when true or false); non-trivial: at least one missing and one present element")

HIDDEN = {"int64": (0, 1, -1, 2**63 - 1, -2**63), "float64": (0.0, float("nan"), float("inf"), float("-inf"), 1e308), "bool": (True, False),
          "int32": (0, 2**31 - 1, -2**31), "uint8": (0, 255), "float32": (0.0, float("nan"), float("inf")), "int16": (0, -2**15, 2**15 - 1)}
DT = tuple(HIDDEN)


def hidden(t, T):
    k = T[0]
    if k == "num":
        return t.pick(HIDDEN[T[1]])
    if k == "list":
        return [hidden(t, T[1]) for _ in range(t.length(3))]
    if k == "rec":
        return dict((n, hidden(t, x)) for n, x in T[1])
    if k == "opt":
        return None if t.flag() else hidden(t, T[1])
    return gen_value(t, T)


def ctype(t):
    return t.wpick([(6, ("num", t.pick(DT))), (3, ("list", ("num", t.pick(DT[:4])))), (1, ("str",)), (1, ("bytes",)), (1, ("nd", "float64", (2,))),
                    (2, ("rec", (("x", ("num", "int64")), ("y", ("num", "float64"))))), (1, ("list", ("opt", ("num", "float64"))))])


def values(t, T, maxlen=18):
    n = t.pick([0, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17]) if t.chance(0.6) else t.length(maxlen)
    p = t.pick([0.0, 0.2, 0.5, 0.8, 1.0])
    return [None if t.chance(p) else gen_value(t, T, False, 3) for _ in range(n)]


KINDS = ("bool", "bit", "index")


def encode(t, T, vals, kind=None, hid=None, lay=None, plan=None):
    """an array holding vals; `plan`, if given, fixes every physical choice except the hidden values"""
    lay = lay or Layout(PLAIN)
    hid = hid or (lambda: hidden(t, T))
    plan = plan if plan is not None else {}
    choose = lambda k, f: plan.setdefault(k, f()) if k not in plan else plan[k]
    kind = choose("kind", lambda: kind or t.pick(KINDS))
    n = len(vals)
    if kind == "index":
        good = [v for v in vals if v is not None]
        extra = choose("extra", lambda: t.length(3))
        allv = good + [hid() for _ in range(extra)]
        order = choose("order", lambda: t.shuffle(range(len(allv))) if t.flag() else list(range(len(allv))))
        where = dict((i, pos) for pos, i in enumerate(order))
        sentinel = choose("sentinel", lambda: t.wpick([(5, -1), (2, -2), (1, -999), (1, len(allv)), (1, 1000)]))
        index, j = [], 0
        for v in vals:
            if v is None:
                index.append(sentinel)
            else:
                index.append(where[j])
                j += 1
        dt = choose("dt", lambda: t.pick(["int64", "int32", "int16"]))
        a = IndexedMaskedArray(numpy.array(index, dtype=dt), build(t, T, [allv[i] for i in order], lay, 0), maskedwhen=sentinel)
    else:
        when = choose("when", t.flag)
        extra = choose("extra", lambda: t.length(3)) if kind == "bool" else 0
        content = build(t, T, [hid() if v is None else v for v in vals] + [hid() for _ in range(extra)], lay, 0)
        mask = [(v is None) == when for v in vals]
        if kind == "bool":
            how = choose("how", lambda: t.below(3))
            m = mask if how == 0 and mask else numpy.array([int(x) * 3 for x in mask], dtype="int8") if how == 1 else numpy.array(mask, dtype=bool)
            a = MaskedArray(m, content, maskedwhen=when)
        else:
            lsb = choose("lsb", t.flag)
            how = choose("how", lambda: t.below(3))
            if how == 0:
                a = BitMaskedArray.fromboolmask(numpy.array(mask, dtype=bool), content, maskedwhen=when, lsborder=lsb)
            else:
                junk = choose("junk", lambda: [t.flag() for _ in range((-n) % 8 + 8 * t.below(2))])
                a = BitMaskedArray(numpy.array(pack(mask + junk, lsb), dtype=numpy.uint8), content, maskedwhen=when, lsborder=lsb)
    return a


def pack(bits, lsb):
    bits = list(bits) + [False] * ((-len(bits)) % 8)
    return [sum((1 << (i if lsb else 7 - i)) for i in range(8) if bits[k + i]) for k in range(0, len(bits), 8)]


def start(t, vals, T):
    t.note("type", tstr(T))
    t.note("values", vals)
    if any(v is None for v in vals) and any(v is not None for v in vals):
        t.nontrivial = True


def observe(t, a, vals, T):
    """every way of reading the mask and the values"""
    want = plain(vals)
    miss = [v is None for v in vals]
    expect(t, a, want, "tolist")
    t.check(len(a) == len(vals), lambda: "len %d" % len(a))
    expect(t, [x for x in a], want, "iteration")
    expect(t, a.ismasked, miss, "ismasked")
    expect(t, a.isunmasked, [not x for x in miss], "isunmasked")
    expect(t, a.boolmask(maskedwhen=True), miss, "boolmask(True)")
    expect(t, a.boolmask(maskedwhen=False), [not x for x in miss], "boolmask(False)")
    if not isinstance(a, IndexedMaskedArray):
        own = a.boolmask()
        expect(t, own, [x == bool(a.maskedwhen) for x in miss], "boolmask()")
    else:
        expect(t, a.boolmask(), miss, "boolmask()")
    if T is not None:
        got = gottype(a.type.to)
        t.check(got == ("opt", wanttype(T)), lambda: "type %r" % (got,))
        t.check(a.type.takes == len(vals), lambda: "type length %r" % a.type.takes)


def reading(t):
    """elements, selections and masks in one encoding"""
    T = ctype(t)
    vals = values(t, T)
    start(t, vals, T)
    a = encode(t, T, vals, lay=Layout(t.pick([PLAIN, ALL - frozenset(["indexed", "chunked"])])))
    t.note("array", describe(a))
    observe(t, a, vals, T)
    want = plain(vals)
    for _ in range(2):
        where, desc, fn = gen_index(t, len(vals))
        t.note("index", desc)
        g = attempt(lambda: a[where])
        if fn is None:
            t.check(isinstance(g, Refused) and isinstance(g.err, IndexError), lambda: "a[%s] gave %r" % (desc, g))
            continue
        w = fn(want)
        t.check(not isinstance(g, Refused), lambda: "a[%s] raised %r" % (desc, g))
        expect(t, g, w, "a[%s]" % desc)
        if isinstance(g, MaskedArray) and not desc.startswith("int") and t.flag():
            observe(t, g, fn(vals), T)
    if T[0] in ("list", "nd") and T[1] != "?":
        # into the elements: refused as soon as one of them is missing
        n = len(want)
        h = t.below(3)
        if h == 0 and n:
            head = t.between(-n, n - 1)
            rows, tail = want[head:head + 1] if head != -1 else want[-1:], slice(t.below(3), None)
            w = (lambda: rows[0][tail])
        elif h == 1:
            head = slice(t.below(n + 1), t.below(n + 1) + 1)
            rows, tail = want[head], slice(None, t.below(3))
            w = (lambda: [x[tail] for x in rows])
        else:
            picks = [t.between(-n, n - 1) for _ in range(t.length(4))] if n else []
            if t.flag() and any(x is not None for x in want):
                picks = [i for i in picks if want[i] is not None]
            head = numpy.array(picks, dtype=int)
            rows, tail = [want[i] for i in picks], slice(t.below(2), None)
            w = (lambda: [x[tail] for x in rows])
        if not (h == 0 and not n):
            g = attempt(lambda: a[head, tail])
            what = "a[%r, %r]" % (head, tail)
            if any(x is None for x in rows):
                t.check(isinstance(g, Refused), lambda: "%s, of missing elements, gave %r" % (what, tolist(g)))
            elif h < 2 or len(rows):
                t.check(not isinstance(g, Refused), lambda: "%s raised %r" % (what, g))
                expect(t, g, w(), what)
    if isinstance(a, IndexedMaskedArray):
        t.check(isinstance(attempt(lambda: a.boolmask(maskedwhen=None)), Refused), "boolmask(None) of an integer mask")
    t.check(isinstance(a.indexed(), IndexedMaskedArray), "indexed() is not an IndexedMaskedArray")
    observe(t, a.indexed(), vals, T)
    for i in (len(vals), -len(vals) - 1):
        t.check(isinstance(attempt(lambda: a[i]), Refused), lambda: "a[%d] did not raise" % i)
    c = a.copy() if t.flag() else a.deepcopy()
    observe(t, c, vals, T)


def convert(t):
    """conversions between the encodings, by the mask each gives for the other's constructor"""
    T = ctype(t)
    vals = values(t, T)
    start(t, vals, T)
    a = encode(t, T, vals)
    t.note("array", describe(a))
    when, lsb = t.flag(), t.flag()
    mask = a.boolmask(maskedwhen=when)
    if isinstance(a, IndexedMaskedArray):
        safe = numpy.where(a.boolmask(maskedwhen=True), 0, a.mask)
        content = a.content[safe] if len(a.content) else build(t, T, [hidden(t, T) for _ in vals], Layout(PLAIN), 0)
    else:
        content = a.content
    observe(t, MaskedArray(mask, content, maskedwhen=when), vals, T)
    if len(content) == len(vals):
        b = BitMaskedArray.fromboolmask(mask, content, maskedwhen=when, lsborder=lsb)
        observe(t, b, vals, T)
        expect(t, numpy.asarray(BitMaskedArray.bit2bool(BitMaskedArray.bool2bit(mask, lsborder=lsb), lsborder=lsb))[:len(vals)], tolist(mask), "bit2bool(bool2bit(mask))")
    i = MaskedArray(mask, content, maskedwhen=when).indexed()
    observe(t, i, vals, T)
    # an unmasked array of each class
    full = [v for v in vals if v is not None]
    c = build(t, T, full, Layout(PLAIN), 0)
    for cls, kw in ((MaskedArray, {"maskedwhen": when}), (BitMaskedArray, {"maskedwhen": when, "lsborder": lsb}), (IndexedMaskedArray, {"maskedwhen": t.pick((-1, -3, -2**40))}), (IndexedMaskedArray, {})):
        u = cls.fromcontent(c, **kw)
        observe(t, u, full, T)
        t.check(all(getattr(u, k) == x for k, x in kw.items()), lambda: "%s.fromcontent does not have %r" % (cls.__name__, kw))


def bits(t):
    """bit packing in both orders"""
    n = t.pick([0, 1, 7, 8, 9, 15, 16, 17, 24]) if t.flag() else t.length(40)
    mask = [t.flag() for _ in range(n)]
    lsb = t.flag()
    how = t.below(4)
    arg = [mask, numpy.array(mask, dtype=bool), numpy.array([int(x) for x in mask], dtype="int64"), numpy.array([x * 2.5 for x in mask])][how]
    if how == 1 and n and t.flag():
        arg = numpy.array([x for y in mask for x in (y, not y)], dtype=bool)[::2]
    t.note("mask", [int(x) for x in mask], "lsborder", lsb, "given as", how)
    t.nontrivial = n % 8 != 0 or n > 8
    got = BitMaskedArray.bool2bit(arg, lsborder=lsb)
    t.check(got.dtype == numpy.uint8 and len(got) == -(-n // 8), lambda: "bool2bit gave %r" % (got,))
    want = pack(mask, lsb)
    if n % 8:
        # bits beyond the mask are unspecified
        keep = pack([True] * n, lsb)[-1]
        expect(t, [int(x) & (keep if i == len(want) - 1 else 255) for i, x in enumerate(got)], want, "bool2bit")
    else:
        expect(t, got, want, "bool2bit")
    raw = numpy.array([t.below(256) for _ in range(t.length(4))], dtype=numpy.uint8)
    back = BitMaskedArray.bit2bool(raw, lsborder=lsb)
    expect(t, back, [bool(int(x) >> (i if lsb else 7 - i) & 1) for x in raw for i in range(8)], "bit2bool(%r)" % raw.tolist())
    expect(t, BitMaskedArray.bool2bit(back, lsborder=lsb), raw.tolist(), "bool2bit(bit2bool(%r))" % raw.tolist())
    if n:
        expect(t, BitMaskedArray.bit2bool(got, lsborder=lsb)[:n], mask, "bit2bool(bool2bit)")


UN = ((numpy.negative, lambda x: -x), (numpy.absolute, abs), (numpy.sqrt, None), (numpy.isnan, None), (numpy.floor, None))


def lift(f, dts):
    def g(*args):
        if any(a is None for a in args):
            return None
        return f(*[numpy.dtype(d).type(a) if d else a for a, d in zip(args, dts)]).item()
    return g


def arith(t):
    """a ufunc over two encodings of different values, and over the two encodings of the same values"""
    d1, d2 = t.pick(["int64", "float64", "int32", "float32"]), t.pick(["int64", "float64", "int32"])
    n = t.pick([0, 1, 2, 7, 8, 9, 16, 17]) if t.flag() else t.length(12)
    p = t.pick([0.2, 0.5, 0.9])
    v1 = [None if t.chance(p) else gen_num(t, d1) for _ in range(n)]
    v2 = [None if t.chance(p) else gen_num(t, d2) for _ in range(n)]
    start(t, v1, ("num", d1))
    t.note("other", d2, v2)
    a = encode(t, ("num", d1), v1)
    b = encode(t, ("num", d2), v2)
    t.note("arrays", describe(a), describe(b))
    name, f = t.pick([("add", numpy.add), ("multiply", numpy.multiply), ("less", numpy.less), ("equal", numpy.equal), ("maximum", numpy.maximum), ("true_divide", numpy.true_divide), ("subtract", numpy.subtract)])
    t.note("ufunc", name)
    expect(t, f(a, b), [lift(f, (d1, d2))(x, y) for x, y in zip(v1, v2)], name)
    full = [gen_num(t, d2) for _ in range(n)]
    arr = numpy.array(full, dtype=d2)
    expect(t, f(a, arr), [lift(f, (d1, d2))(x, y) for x, y in zip(v1, full)], "%s with a Numpy array" % name)
    expect(t, f(arr, a), [lift(f, (d2, d1))(y, x) for x, y in zip(v1, full)], "%s of a Numpy array" % name)
    s = t.below(5) + 1
    got = f(a, s)
    expect(t, got, [None if x is None else f(numpy.array([x], dtype=d1), s)[0].item() for x in v1], "%s with a scalar" % name)
    u = t.pick([numpy.negative, numpy.absolute, numpy.isnan, numpy.floor, numpy.sign])
    expect(t, u(a), [lift(u, (d1,))(x) for x in v1], u.__name__)
    if n:
        expect(t, numpy.modf(a)[0], [None if x is None else numpy.modf(numpy.dtype(d1).type(x))[0].item() for x in v1], "modf[0]")
    if isinstance(got, MaskedArray) and name in ("add", "multiply", "subtract"):
        expect(t, got + a, [None if x is None else (f(numpy.array([x], dtype=d1), s) + numpy.dtype(d1).type(x))[0].item() for x in v1], "result used again")


def reduce_(t):
    """reducers and fillna skip and fill what is missing"""
    dt = t.pick(DT)
    T = ("num", dt)
    vals = values(t, T)
    start(t, vals, T)
    a = encode(t, T, vals)
    t.note("array", describe(a))
    good = [v for v in vals if v is not None]
    near = lambda x, y: close(x, y, 1e-5)
    expect(t, a.count(), len(good), "count")
    expect(t, a.count_nonzero(), sum(1 for x in good if x != 0), "count_nonzero")
    expect(t, a.any(), any(good), "any")
    expect(t, a.all(), all(good), "all")
    expect(t, a.sum(), sum(good), "sum", eq=near)
    if good:
        expect(t, float(a.min()), float(min(good)), "min")
        expect(t, float(a.max()), float(max(good)), "max")
        i = numpy.atleast_1d(numpy.asarray(a.argmin())).tolist()
        j = numpy.atleast_1d(numpy.asarray(a.argmax())).tolist()
        expect(t, i[-1], [k for k, v in enumerate(vals) if v is not None and v == min(good)][0], "argmin")
        expect(t, j[-1], [k for k, v in enumerate(vals) if v is not None and v == max(good)][0], "argmax")
        if dt != "bool":
            expect(t, a.mean(), sum(float(x) for x in good) / len(good), "mean", eq=near)
    fill = gen_num(t, dt)
    got = a.fillna(fill)
    expect(t, got, [fill if v is None else v for v in vals], "fillna(%r)" % (fill,))
    expect(t, a, vals, "after fillna")
    jag = JaggedArray.fromcounts(cut(t, len(vals)), a)
    lists = tolist(jag)
    expect(t, jag.sum(), [sum(x for x in y if x is not None) for y in lists], "jagged sum", eq=near)
    expect(t, jag.count(), [sum(1 for x in y if x is not None) for y in lists], "jagged count")
    flat = [x for y in lists for x in y]
    expect(t, flat, vals, "jagged content")


def cut(t, n):
    cuts = [0] + sorted(t.below(n + 1) for _ in range(t.below(4))) + [n]
    return [b - a for a, b in zip(cuts[:-1], cuts[1:])]


def num(T):
    return T[0] == "num"


def jag(T):
    return T[0] == "list"


def prim(T):
    return T == ("num", T[1]) or T[0] == "nd"


OPS = [
    ("tolist", lambda T: True, lambda a, t: a),
    ("x+1", lambda T: T[0] in ("num", "list", "nd", "rec"), lambda a, t: a + 1),
    ("x*x", lambda T: T[0] in ("num", "list", "rec"), lambda a, t: a * a),
    ("x<3", lambda T: T[0] in ("num", "list"), lambda a, t: a < 3),
    ("x==x", lambda T: T[0] in ("num", "str", "bytes"), lambda a, t: a == a),
    ("sum", lambda T: T[0] in ("num", "list", "rec"), lambda a, t: a.sum()),
    ("prod", lambda T: T[0] in ("num", "list"), lambda a, t: a.prod()),
    ("min", lambda T: T[0] in ("num", "list", "rec"), lambda a, t: a.min()),
    ("max", lambda T: T[0] in ("num", "list", "rec"), lambda a, t: a.max()),
    ("any", lambda T: T[0] in ("num", "list"), lambda a, t: a.any()),
    ("all", lambda T: T[0] in ("num", "list"), lambda a, t: a.all()),
    ("count", lambda T: T[0] in ("num", "list"), lambda a, t: a.count()),
    ("count_nonzero", lambda T: T[0] in ("num", "list"), lambda a, t: a.count_nonzero()),
    ("mean", lambda T: T[0] in ("num", "list") and T[-1] != "bool", lambda a, t: a.mean()),
    ("var", lambda T: T[0] in ("num", "list") and T[-1] != "bool", lambda a, t: a.var()),
    ("std", lambda T: T[0] in ("num", "list") and T[-1] != "bool", lambda a, t: a.std()),
    ("argmin", lambda T: T[0] in ("num", "list"), lambda a, t: a.argmin()),
    ("argmax", lambda T: T[0] in ("num", "list"), lambda a, t: a.argmax()),
    ("fillna", lambda T: T[0] == "num", lambda a, t: a.fillna(5)),
    ("counts", lambda T: T[0] in ("list", "num"), lambda a, t: a.counts),
    ("flatten", lambda T: T[0] == "list", lambda a, t: a.flatten()),
    ("pad", lambda T: T[0] == "list", lambda a, t: a.pad(2)),
    ("pad clip", lambda T: T[0] == "list", lambda a, t: a.pad(2, clip=True)),
    ("regular", lambda T: T[0] == "list", lambda a, t: a.regular()),
    ("distincts", lambda T: T[0] == "list", lambda a, t: a.distincts()),
    ("pairs", lambda T: T[0] == "list", lambda a, t: a.pairs()),
    ("choose", lambda T: T[0] == "list", lambda a, t: a.choose(2)),
    ("argdistincts", lambda T: T[0] == "list", lambda a, t: a.argdistincts()),
    ("argpairs", lambda T: T[0] == "list", lambda a, t: a.argpairs()),
    ("argchoose", lambda T: T[0] == "list", lambda a, t: a.argchoose(2)),
    ("slice", lambda T: True, lambda a, t: a[1:]),
    ("reversed", lambda T: True, lambda a, t: a[::-1]),
    ("unmasked only", lambda T: True, lambda a, t: a[a.isunmasked]),
    ("masked only", lambda T: True, lambda a, t: a[a.ismasked]),
    ("concatenate", lambda T: True, lambda a, t: a.concatenate([a[1:]])),
    ("inner column", lambda T: T[0] == "rec", lambda a, t: a["y"]),
    ("columns", lambda T: T[0] == "rec", lambda a, t: a[["y", "x"]]),
    ("inner item", lambda T: T[0] == "nd", lambda a, t: a[a.isunmasked][:, 0]),
    ("unmasked inner slice", lambda T: T[0] == "list", lambda a, t: a[a.isunmasked][:, :1]),
    ("jagged count", lambda T: T[0] == "num", lambda a, t: JaggedArray.fromcounts([len(a)], a).count()),
    ("jagged sum", lambda T: T[0] == "num", lambda a, t: JaggedArray.fromcounts([len(a)], a).sum()),
    ("jagged max", lambda T: T[0] == "num", lambda a, t: JaggedArray.fromcounts([len(a)], a).max()),
    ("jagged argmax", lambda T: T[0] == "num", lambda a, t: JaggedArray.fromcounts([len(a)], a).argmax()),
    ("jagged argsort", lambda T: T[0] == "num", lambda a, t: JaggedArray.fromcounts([len(a)], a).argsort()),
    ("jagged mean", lambda T: T[0] == "num" and T[1] != "bool", lambda a, t: JaggedArray.fromcounts([len(a)], a).mean()),
    ("serialize", lambda T: True, lambda a, t: awkward0.persist.deserialize(store(a))),
    ("arrow", lambda T: T[0] in ("num", "list", "str"), lambda a, t: arrow(a)),
    ("type", lambda T: True, lambda a, t: str(a.type)),
    ("str", lambda T: T[0] != "rec", lambda a, t: str(a)),
    ("deepcopy", lambda T: True, lambda a, t: a.deepcopy()),
    ("indexed", lambda T: True, lambda a, t: a.indexed()),
    ("in union", lambda T: T[0] == "num", lambda a, t: UnionArray(numpy.zeros(len(a), "u1"), numpy.arange(len(a)), [a, numpy.arange(len(a))]) + 1),
    ("in chunks", lambda T: T[0] == "num", lambda a, t: ChunkedArray([a[:2], a[2:]]) + 1),
    ("in table", lambda T: T[0] == "num", lambda a, t: Table(x=a)["x"] + 1),
    ("pandas", lambda T: T[0] == "num", lambda a, t: str(awkward0.topandas(a).tolist()) if hasattr(awkward0, "topandas") else None),
]
SKIP = ("arrow", "pandas")


def store(a):
    s = {}
    awkward0.persist.serialize(a, s, "a")
    return s


def arrow(a):
    return awkward0.toarrow(a).to_pylist()


def ops():
    return [o for o in OPS if o[0] not in SKIP]


def hidden_(t):
    """changing what is under the mask changes nothing"""
    T = ctype(t)
    vals = values(t, T, 10)
    start(t, vals, T)
    plan = {}
    a = encode(t, T, vals, plan=plan)
    b = encode(t, T, vals, plan=plan, hid=(lambda: hidden(t, T)) if t.flag() else (lambda: gen_value(t, T)))
    t.note("arrays", describe(a), describe(b))
    cand = [o for o in ops() if o[1](T)]
    for name, ok, op in [t.pick(cand) for _ in range(4)]:
        t.note("operation", name)
        x, y = attempt(lambda: op(a, t)), attempt(lambda: op(b, t))
        if isinstance(x, Refused) or isinstance(y, Refused):
            t.check(isinstance(x, Refused) and isinstance(y, Refused), lambda: "%s: %r with some hidden values, %r with others" % (name, x, y))
            continue
        if name == "regular" or name in ("var", "std", "mean"):
            expect(t, x, tolist(y), name, eq=lambda p, q: close(p, q, 1e-6))
        else:
            expect(t, x, tolist(y), name)
        for m in (x, y):
            if isinstance(m, MaskedArray) and name in ("slice", "reversed", "deepcopy", "indexed", "concatenate", "serialize"):
                t.check(isinstance(m, MaskedArray), "mask lost")


def across(t):
    """one operation gives the same answer in every encoding"""
    T = ctype(t)
    vals = values(t, T, 10)
    start(t, vals, T)
    a = encode(t, T, vals, kind="bool")
    b = encode(t, T, vals, kind=t.pick(["bit", "bit", "index"]))
    t.note("arrays", describe(a), describe(b))
    cand = [o for o in ops() if o[1](T)]
    for name, ok, op in [t.pick(cand) for _ in range(4)]:
        t.note("operation", name)
        x, y = attempt(lambda: op(a, t)), attempt(lambda: op(b, t))
        if isinstance(x, Refused) or isinstance(y, Refused):
            if name == "concatenate" and isinstance(b, BitMaskedArray):
                continue                  # explicitly not implemented
            t.check(isinstance(x, Refused) and isinstance(y, Refused), lambda: "%s: %r in one encoding, %r in the other" % (name, x, y))
            continue
        if name == "str":
            x, y = x.split(" ", 1)[1].rsplit(" at ", 1)[0] if x.startswith("<") else x, y.split(" ", 1)[1].rsplit(" at ", 1)[0] if y.startswith("<") else y
        expect(t, y, tolist(x), name, eq=lambda p, q: close(p, q, 1e-6))


def setters(t):
    """any history of assignments to mask, content, maskedwhen and lsborder"""
    kind = t.pick(KINDS)
    n = t.pick([1, 2, 7, 8, 9, 16, 17])
    T = ("num", t.pick(["int64", "float64"]))
    pool = [gen_num(t, T[1]) for _ in range(n)]
    when = t.flag() if kind != "index" else -1
    lsb = t.flag()
    state = {}

    def mkmask():
        if kind == "index":
            return [when if t.chance(0.3) else t.below(n) for _ in range(n)]
        return [t.flag() for _ in range(n)]

    def phys(m):
        if kind == "bit":
            return numpy.array(pack(m, lsb), dtype=numpy.uint8)
        return numpy.array(m)
    m = mkmask()
    bitsmask = pack(m, lsb)
    if kind == "bool":
        a = MaskedArray(phys(m), numpy.array(pool), maskedwhen=when)
    elif kind == "bit":
        a = BitMaskedArray(phys(m), numpy.array(pool), maskedwhen=when, lsborder=lsb)
    else:
        a = IndexedMaskedArray(phys(m), numpy.array(pool), maskedwhen=when)
    t.note(kind, "mask", m, "content", pool, "maskedwhen", when, "lsborder", lsb)
    t.nontrivial = True

    def model():
        if kind == "index":
            return [None if i == when else pool[i] for i in m]
        if kind == "bit":
            bs = [bool(x >> (i if lsb else 7 - i) & 1) for x in bitsmask for i in range(8)]
            return [None if bs[i] == when else pool[i] for i in range(n)]
        return [None if m[i] == when else pool[i] for i in range(n)]
    steps = t.between(1, 5)
    others = []
    for _ in range(steps):
        expect(t, a, model(), "values")
        act = t.pick(["mask", "content", "maskedwhen", "lsborder", "copy", "slice", "copyset"])
        t.note("step", act)
        if act == "mask":
            m = mkmask()
            bitsmask = pack(m, lsb)
            a.mask = phys(m)
        elif act == "content":
            pool = [gen_num(t, T[1]) for _ in range(n)]
            a.content = numpy.array(pool)
        elif act == "maskedwhen":
            if kind == "index" and any(not 0 <= i < n for i in m) and t.chance(0.4):
                # what was missing would now be element -1
                w = t.pick([w for w in (-2, -1, 0, 1) if w not in m])
                t.note("to", w)
                b = a
                if t.flag():
                    b = a.copy(maskedwhen=w)
                else:
                    b.maskedwhen = w
                r = attempt(lambda: b.tolist())
                t.check(isinstance(r, Refused), lambda: "a mask of %r with maskedwhen %r was read as %r" % (m, w, r))
                t.check(b.valid() is False, "valid() of that")
                a.maskedwhen = when
                continue
            when = t.flag() if kind != "index" else t.pick([-1, 0, 1]) if -1 not in m else -1
            a.maskedwhen = when
        elif act == "lsborder" and kind == "bit":
            lsb = t.flag()
            a.lsborder = lsb
        elif act == "copy":
            others.append((a, model()))
            a = a.copy()
        elif act == "copyset":
            m2 = mkmask()
            keep = (m, bitsmask)
            m, bitsmask = m2, pack(m2, lsb)
            b = a.copy(mask=phys(m2) if kind == "bit" or t.flag() else phys(m2).tolist())
            expect(t, b, model(), "copy(mask=...)")
            m, bitsmask = keep
        elif act == "slice":
            i, j = sorted([t.below(n + 1), t.below(n + 1)])
            others.append((a[i:j], model()[i:j]))
        observe(t, a, model(), T)
    for o, w in others:
        expect(t, o, w, "an earlier copy or slice")


USES = (("tolist", lambda a: a.tolist()), ("iteration", lambda a: list(a)), ("slice", lambda a: a[:]), ("one", lambda a: a[len(a) - 1]), ("+1", lambda a: a + 1),
        ("sum", lambda a: a.sum()), ("fillna", lambda a: a.fillna(0)), ("indexed", lambda a: a.indexed().tolist()), ("max", lambda a: a.max()), ("copy", lambda a: a.copy()[:]),
        ("concatenate", lambda a: a.concatenate([a]).tolist()), ("counts", lambda a: a.counts), ("type", lambda a: JaggedArray.fromcounts([len(a)], a).sum()))


def malformed(t):
    """masks which do not fit their content must be refused, not read past"""
    n = t.between(0, 20)
    content = numpy.arange(n) * 1.5
    kind = t.pick(["long", "bitshort", "beyond", "negative", "2d", "float index", "2d index", "set"])
    t.note("n", n, "kind", kind)
    t.nontrivial = True
    k = t.between(1, 3)
    when = t.flag()
    if kind == "long":
        m = [t.flag() for _ in range(n + k)]
        make = lambda: MaskedArray(m, content, maskedwhen=when)
    elif kind == "bitshort":
        need = -(-n // 8)
        if need == 0:
            return
        m = numpy.array([t.below(256) for _ in range(t.below(need))], dtype=numpy.uint8)
        lsb = t.flag()
        make = lambda: BitMaskedArray(m, content, maskedwhen=when, lsborder=lsb)
    elif kind in ("beyond", "negative"):
        m = [t.below(n) for _ in range(t.below(3))] if n else []
        m = t.shuffle(m + [n + t.below(3) if kind == "beyond" else -2 - t.below(3)])
        t.note("mask", m)
        make = lambda: IndexedMaskedArray(m, content)
    elif kind == "set":
        if n == 0:
            return
        which = t.below(5)
        more = t.pick([k, 8 + k])
        nbytes = -(-n // 8)
        read = t.pick([lambda a: a.tolist(), lambda a: a[:1], lambda a: a.valid()])
        t.note("which", ("bool content", "bool mask", "bit mask", "bit content", "index content")[which], "more", more)

        def make():
            if which < 2:
                a = MaskedArray([not when] * n, content, maskedwhen=when)
            elif which < 4:
                a = BitMaskedArray(numpy.full(nbytes, 0 if when else 255, dtype=numpy.uint8), content, maskedwhen=when)
            else:
                a = IndexedMaskedArray(numpy.arange(n), content)
            read(a)
            if which == 0 or which == 4:
                a.content = content[:n // 2]
            elif which == 1:
                a.mask = [not when] * (n + more)
            elif which == 2:
                a.mask = a.mask[:nbytes - 1]
            else:
                a.content = numpy.arange(8.0 * nbytes + more)
            return a
    elif kind == "2d":
        make = lambda: MaskedArray([[True, False]], content)
    elif kind == "2d index":
        make = lambda: IndexedMaskedArray([[0, -1]], content)
    else:
        make = lambda: IndexedMaskedArray([0.5, 1.5], numpy.arange(4))
    name, use = t.pick(USES)
    t.note("use", name)
    g = attempt(lambda: use(make()))
    t.check(isinstance(g, Refused), lambda: "%s was accepted: %s gave %r" % (kind, name, g))
    t.evals += 1


SUBS = [Sub("reading", reading, 4000), Sub("convert", convert, 2500), Sub("bits", bits, 2500), Sub("arith", arith, 2500), Sub("reduce", reduce_, 3500),
        Sub("hidden", hidden_, 6000), Sub("across", across, 6000), Sub("setters", setters, 2500), Sub("malformed", malformed, 2000)]
