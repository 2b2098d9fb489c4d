"""C15: string arrays."""
import codecs
from .common import *
from .indexing import gen_index
from .c10 import intarray

ID = "C15"
RULE = ("a case draws strings (ASCII, accents, CJK, characters beyond the basic plane, embedded and trailing zero bytes, empty) in one of several encodings or raw bytes, "
        "stored through one of the constructors (buffers unordered or with unreachable bytes included); non-trivial: at least 2 strings, at least one of them not empty")

ALPHA = {"ascii": "abAB z09\x00\n\x7f", "latin-1": "abz \x00\xe9\xff\xa0", "utf-8": "ab \x00\xe9\u20ac\u6f22\U0001f600\u0301", "utf-16le": "ab\x00\xe9\u20ac\U0001f600",
         "utf-32le": "ab\x00\xe9\u20ac\U0001f600"}
ENC = ("utf-8", "utf-8", "ascii", "latin-1", "utf-16le", "utf-32le", None)


def text(t, enc, maxlen=5):
    n = t.length(maxlen)
    if enc is None:
        return bytes(t.pick(b"ab \x00\xff\x80\n\xc3") for _ in range(n))
    return "".join(t.pick(ALPHA[enc]) for _ in range(n))


def texts(t, enc, n):
    out = []
    for _ in range(n):
        # repeat or nearly repeat an earlier string now and then: comparisons need equal ones
        if out and t.chance(0.3):
            x = t.pick(out)
            if t.chance(0.5) and len(x) > 0:
                i = t.below(len(x))
                x = x[:i] + text(t, enc, 1) + x[i + 1:]
            out.append(x)
        else:
            out.append(text(t, enc))
    return out


def encode(enc, s):
    return s if enc is None else s.encode(enc)


def decode(enc, b):
    return b if enc is None else codecs.getdecoder(enc)(b, "replace")[0]


KINDS = ("fromiter", "init", "init", "fromoffsets", "fromcounts", "fromparents", "fromuniques", "fromjagged", "fromnumpy", "view")


def buffer(t, b):
    """bytes as a character buffer"""
    m = t.below(6)
    if m == 0:
        return b
    a = numpy.frombuffer(b, dtype="uint8")
    if m == 1:
        return a.tolist()
    if m == 2:
        return a.view("int8") if t.flag() else a.view("S1") if len(a) else a
    if m == 3:
        return numpy.repeat(a, 2)[::2]
    return a


def make(t, strs, enc, kind=None):
    """(array, strings it holds)"""
    kind = kind or t.pick(KINDS)
    enced = [encode(enc, s) for s in strs]
    if kind == "fromnumpy":
        # numpy drops trailing zeros itself
        if enc is None:
            src = numpy.array(strs, dtype="S") if strs else numpy.array([], dtype="S3")
            strs = [s.rstrip(b"\x00") for s in strs]
        else:
            src = numpy.array(strs, dtype="U") if strs else numpy.array([], dtype="U3")
            strs = [s.rstrip("\x00") for s in strs]
            if t.chance(0.3):
                src = src.astype(src.dtype.newbyteorder(">"))
        if t.chance(0.3):
            src = src.astype(src.dtype.str[:2] + str(src.dtype.itemsize // (1 if enc is None else 4) + t.below(3)))
        if t.chance(0.3):
            src = numpy.repeat(src, 2)[::2]
        elif t.chance(0.3):
            src = numpy.ascontiguousarray(src[::-1])[::-1]
        return StringArray.fromnumpy(src), strs
    t.feature(kind)
    if kind == "fromiter":
        m = t.below(4)
        it = list(strs) if m == 0 else tuple(strs) if m == 1 else iter(strs) if m == 2 else numpy.array(strs + [None], dtype=object)[:-1]
        return StringArray.fromiter(it, encoding=enc), strs
    if kind == "init" or kind == "view":
        junk = lambda: bytes(t.pick(b"qz\x00\xff") for _ in range(t.between(1, 3)))
        starts, stops, flat = scatter(t, enced, junk, t.chance(0.2))
        buf = buffer(t, b"".join(flat))
        if isinstance(buf, list) and len(buf) == 0:
            buf = b""
        a = StringArray(intarray(t, starts) if len(starts) else [], intarray(t, stops) if len(starts) else [], buf, enc)
        if kind == "view" and len(strs) > 0:
            return a[::-1][::-1], strs
        return a, strs
    offsets = [0]
    for x in enced:
        offsets.append(offsets[-1] + len(x))
    tail = b"" if kind in ("fromparents", "fromuniques") else b"xyz"[:t.below(4)]
    flat = b"".join(enced) + tail
    buf = buffer(t, flat)
    if kind == "fromoffsets":
        return StringArray.fromoffsets(intarray(t, offsets), buf, encoding=enc), strs
    if kind == "fromcounts":
        counts = [len(x) for x in enced]
        return StringArray.fromcounts(intarray(t, counts) if counts else [], buf, encoding=enc), strs
    if kind == "fromparents":
        parents = [i for i, x in enumerate(enced) for _ in x]
        if len(enced) == 0 or len(enced[-1]) == 0:
            return StringArray.fromparents(numpy.array(parents, dtype="int64"), buf, encoding=enc, length=len(enced)), strs
        return StringArray.fromparents(intarray(t, parents), buf, encoding=enc), strs
    if kind == "fromuniques":
        # no empty strings, and neighbours have distinct tokens
        keep = [i for i, x in enumerate(enced) if len(x) > 0]
        tokens = [7 * i % 11 + i for i in keep for _ in enced[i]]
        return StringArray.fromuniques(numpy.array(tokens, dtype="int64"), buf, encoding=enc), [strs[i] for i in keep]
    if kind == "fromjagged":
        content = numpy.frombuffer(b"".join(enced), dtype="uint8")
        return StringArray.fromjagged(JaggedArray.fromoffsets(numpy.array(offsets), content), encoding=enc), strs
    raise AssertionError(kind)


def gen(t, maxlen=6, enc=False, kind=None, minlen=0):
    enc = t.pick(ENC) if enc is False else enc
    strs = texts(t, enc, t.length(maxlen, minlen))
    a, strs = make(t, strs, enc, kind)
    t.note("strings", strs)
    t.note("array", describe(a))
    if len(strs) >= 2 and any(len(s) for s in strs):
        t.nontrivial = True
    return a, strs, a.encoding


def look(t, a, want, what):
    """everything a string array shows"""
    expect(t, a, want, what + ".tolist()")
    t.check(len(a) == len(want), lambda: "%s has length %r, not %r" % (what, len(a), len(want)))
    expect(t, list(a), want, "list(%s)" % what)
    for i in range(len(want)):
        got = a[i]
        t.check(type(got) is type(want[i]) and got == want[i], lambda: "%s[%d] is %r, not %r" % (what, i, got, want[i]))


def sources(t):
    """every constructor gives the same strings"""
    a, strs, enc = gen(t)
    look(t, a, strs, "array")
    # lengths in the array's own encoding
    expect(t, a.counts, [len(encode(enc, s)) for s in strs], "counts", strict=True)
    t.check(a.type.to is (bytes if enc is None else str), lambda: "type is %s" % a.type)
    m = t.below(9)
    if m == 0:
        look(t, a.compact(), strs, "compact()")
        t.check(a.compact().iscompact, "compact() is not compact")
    elif m == 1:
        look(t, a.copy(), strs, "copy()")
    elif m == 2:
        b = a.deepcopy()
        look(t, b, strs, "deepcopy()")
        if isinstance(a.content, numpy.ndarray) and isinstance(b.content, numpy.ndarray) and len(b.content):
            t.check(not numpy.shares_memory(a.content, b.content), "deepcopy() shares characters")
    elif m == 3:
        r = a.regular() if t.flag() else numpy.array(a)
        z = b"\x00" if enc is None else "\x00"
        want = strs if r.dtype == object else [s.rstrip(z) for s in strs]
        t.check(r.tolist() == want, lambda: "as a Numpy array: %r, expected %r" % (r, want))
    elif m == 4:
        b = StringArray.fromjagged(JaggedArray(a.starts, a.stops, a.content), enc)
        look(t, b, strs, "fromjagged of its parts")
    elif m == 5:
        expect(t, JaggedArray(a.starts, a.stops, a.content), [list(encode(enc, s)) for s in strs], "characters")
        expect(t, a.index, [list(range(len(encode(enc, s)))) for s in strs], "index")
    elif m == 6:
        n = t.length(5)
        one = text(t, enc)
        f = StringArray.fromstr(n, one) if enc in (None, "utf-8") and t.flag() else StringArray.fromstr(n, one, encoding=enc)
        look(t, f, [one] * n, "fromstr(%d, %r)" % (n, one))
    elif m == 7:
        for f, z in (("zeros_like", b"\x00"), ("ones_like", b"\x01")):
            expect(t, getattr(a, f)(), [decode(enc, z * len(encode(enc, s))) for s in strs], f)
        t.check(len(a.empty_like()) == len(strs), "length of empty_like()")
        look(t, a, strs, "array after *_like")
    else:
        # an array made once cannot be decoded with an unknown encoding
        g = attempt(lambda: StringArray.fromiter(["a"], encoding="no-such-encoding"))
        t.check(isinstance(g, Refused), lambda: "unknown encoding was accepted: %r" % (g,))


def index(t):
    """every kind of index"""
    a, v, enc = gen(t)
    for _ in range(t.between(1, 3)):
        where, desc, fn = gen_index(t, len(v))
        t.note("index", desc)
        got = attempt(lambda: a[where])
        if fn is None:
            t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "%s gave %r instead of IndexError" % (desc, got))
            return
        v = fn(v)
        if isinstance(v, (str, bytes)):
            t.evals += 1
            t.check(type(got) is type(v) and got == v, lambda: "%s gave %r, expected %r" % (desc, got, v))
            if len(v) > 0:
                i = t.below(len(v))
                g = attempt(lambda: a[where, i])
                t.check(not isinstance(g, Refused) and g == v[i], lambda: "[%s, %d] gave %r, expected %r" % (desc, i, g, v[i]))
            return
        t.check(not isinstance(got, Refused), lambda: "%s raised %r" % (desc, got.err))
        look(t, got, v, "array[%s]" % desc)
        a = got
    if enc in (None, "ascii", "latin-1") and len(v) > 0 and t.chance(0.4):
        i, j = t.below(4), t.pick([None, 1, 2, 3, -1])
        expect(t, a[:, i:j], [s[i:j] for s in v], "array[:, %r:%r]" % (i, j))


def othersource(t, v, enc):
    """strings in some form a string array compares with"""
    kinds = ["StringArray", "object", "list"]
    kinds += ["S"] if enc is None else ["U", "recode"]
    k = t.pick(kinds)
    t.note("other", k)
    t.note("values", v)
    if k == "StringArray":
        b, w = make(t, v, enc, t.pick(("fromiter", "init", "fromoffsets", "fromcounts", "view")))
        return b, w
    if k == "recode":
        e = t.pick([x for x in ("utf-8", "utf-16le", "utf-32le")])
        b, w = make(t, v, e, t.pick(("fromiter", "init", "fromcounts")))
        return b, w
    if k == "object":
        return numpy.array(v + [None], dtype=object)[:-1], v
    if k == "list":
        return (list(v) if t.flag() else tuple(v)), v
    if k == "S":
        return numpy.array(v, dtype="S") if v else numpy.array([], dtype="S1"), [s.rstrip(b"\x00") for s in v]
    return numpy.array(v, dtype="U") if v else numpy.array([], dtype="U1"), [s.rstrip("\x00") for s in v]


def change(t, v, enc):
    out = []
    for s in v:
        m = t.below(4)
        if m == 0 or (m == 1 and len(s) == 0):
            out.append(text(t, enc))
        elif m == 1:
            i = t.below(len(s))
            out.append(s[:i] + text(t, enc, 1) + s[i + 1:])
        else:
            out.append(s)
    return out


def compare(t):
    """== and != with strings and string arrays"""
    a, v, enc = gen(t)
    m = t.below(8)
    if m == 0:
        other = t.pick(v) if v and t.chance(0.7) else text(t, enc if t.flag() else None if enc is None else "utf-8")
        t.note("scalar", other)
        want = [x == other for x in v]
        if t.chance(0.3):
            other = (numpy.bytes_ if isinstance(other, bytes) else numpy.str_)(other) if not other.endswith(b"\0" if isinstance(other, bytes) else "\0") else other
    elif m == 1:
        other = t.pick([3, 2.5, None, numpy.int64(97), True])
        t.note("scalar", other)
        want = [False] * len(v)
    elif m == 2 and len(v) >= 1:
        # different lengths never compare item by item
        w = change(t, v, enc)
        w = w[:-1] if t.flag() else w + [text(t, enc)]
        b, _ = othersource(t, w, enc)
        t.assume(len(w) != 0)
        op = t.pick((numpy.equal, numpy.not_equal))
        g = attempt(lambda: op(a, b))
        t.evals += 1
        t.check(isinstance(g, Refused), lambda: "comparison of %d strings with %d gave %r" % (len(v), len(w), g))
        return
    else:
        other, w = othersource(t, change(t, v, enc), enc)
        want = [x == y for x, y in zip(v, w)]
    forms = [("a == b", lambda: a == other, want), ("a != b", lambda: a != other, [not x for x in want]),
             ("numpy.equal", lambda: numpy.equal(a, other), want), ("numpy.not_equal", lambda: numpy.not_equal(a, other), [not x for x in want])]
    if m == 0 and not isinstance(other, numpy.generic) and not other.endswith(b"\0" if isinstance(other, bytes) else "\0") and t.chance(0.4):
        other = numpy.array(other, dtype=t.pick((object, None)))     # an array of no dimensions is like the string that it holds
    if m == 0:
        forms.append(("numpy.equal(b, a)", lambda: numpy.equal(other, a), want))
        forms.append(("numpy.not_equal(b, a)", lambda: numpy.not_equal(other, a), [not x for x in want]))
    if not isinstance(other, (numpy.ndarray, numpy.generic)):
        forms.append(("b == a", lambda: other == a, want))
        forms.append(("b != a", lambda: other != a, [not x for x in want]))
    for what, fn, w in [t.pick(forms), t.pick(forms)]:
        got = attempt(fn)
        expect(t, got, w, what, strict=True)
        if what.startswith("a =") and isinstance(got, numpy.ndarray):
            expect(t, a[got], [x for x, y in zip(v, w) if y], "a[a == b]")


def pad(t):
    """padding and clipping"""
    a, v, enc = gen(t)
    n = t.between(0, 9)
    clip = t.flag()
    fill = t.pick([None, None, b"-", b"\x00", b"0"])
    t.note("pad", [n, clip, fill])
    kw = {} if fill is None else {"maskedwhen": fill}
    f = fill or b" "
    want = []
    for s in v:
        b = encode(enc, s)
        b = b[:n] if clip else b
        want.append(decode(enc, b + f * (n - len(b))))
    got = attempt(lambda: a.pad(n, clip=clip, **kw))
    expect(t, got, want, "pad(%d, clip=%r)" % (n, clip), strict=True)
    look(t, a, v, "array after pad")
    g = attempt(lambda: a.pad(n, **t.pick([{"axis": 1}, {"axis": -1}, {"maskedwhen": b"ab"}, {"maskedwhen": b""}, {"maskedwhen": "x"}])))
    t.check(isinstance(g, Refused) and isinstance(g.err, (TypeError, ValueError)), lambda: "invalid pad arguments gave %r" % (g,))


def join(t):
    """concatenation, flattening, copying"""
    a, v, enc = gen(t)
    m = t.below(4)
    if m == 0:
        arrays, lists = [a], [v]
        for _ in range(t.between(1, 3)):
            e = enc if t.flag() or enc is None else t.pick(("utf-8", "utf-16le", "ascii", "latin-1", "utf-32le"))
            b, w, _ = gen(t, 4, enc=e)
            arrays.append(b)
            lists.append(w)
        got = attempt(lambda: awkward0.concatenate(arrays) if t.flag() else a.concatenate(arrays[1:]))
        expect(t, got, [x for y in lists for x in y], "concatenate")
    elif m == 1:
        # side by side
        arrays, lists = [a], [v]
        for _ in range(t.between(1, 2)):
            e = enc if t.flag() or enc is None else t.pick(("utf-8", "utf-16le", "ascii", "latin-1"))
            b, w = make(t, texts(t, e, len(v)), e, t.pick(("fromiter", "init", "fromoffsets", "fromcounts", "view")))
            arrays.append(b)
            lists.append(w)
        t.note("others", lists[1:])
        got = attempt(lambda: awkward0.concatenate(arrays, axis=1) if t.flag() else a.concatenate(arrays[1:], axis=1))
        expect(t, got, [x[0][:0].join(x) for x in zip(*lists)], "concatenate axis=1", strict=True)
        for x, w in zip(arrays, lists):
            expect(t, x, w, "operand after concatenate")
    elif m == 2:
        got = attempt(lambda: a.flatten())
        expect(t, got, [b"".join(v) if enc is None else "".join(v)], "flatten()", strict=True)
    else:
        # text and bytes stay text and bytes
        b, w, _ = gen(t, 4, enc=None if enc is not None else "utf-8")
        got = attempt(lambda: awkward0.concatenate([a, b]))
        t.check(not isinstance(got, Refused), lambda: "concatenate raised %r" % (got.err,))
        out = tolist(got)
        t.evals += 1
        t.check(len(out) == len(v + w) and all(type(x) is type(y) and x == y for x, y in zip(out, v + w)), lambda: "concatenate of text and bytes gave %r, expected %r" % (out, v + w))


UF = [("add", 1), ("bitwise_xor", 32), ("subtract", 3), ("maximum", 98), ("left_shift", 1), ("bitwise_or", 1)]


def chars(t):
    """other functions act on the characters"""
    a, v, enc = gen(t, enc=t.pick(("ascii", "latin-1", None)))
    name, k = t.pick(UF)
    f = getattr(numpy, name)
    num = lambda s: [int(x) for x in f(numpy.frombuffer(encode(enc, s), dtype="uint8"), numpy.uint8(k))]
    t.note("ufunc", [name, k])
    got = attempt(lambda: f(a, numpy.uint8(k)) if t.flag() else f(a, k))
    want = [decode(enc, bytes(num(s))) for s in v]
    expect(t, got, want, "numpy.%s(a, %d)" % (name, k), strict=True)
    cmp = attempt(lambda: a < 98)
    expect(t, cmp, [[x < 98 for x in encode(enc, s)] for s in v], "a < 98")
    b, w = make(t, [text(t, enc, 0) + (s[::-1]) for s in v], enc, t.pick(("fromiter", "init", "fromcounts")))
    got = attempt(lambda: numpy.bitwise_xor(a, b))
    expect(t, got, [decode(enc, bytes(p ^ q for p, q in zip(encode(enc, x), encode(enc, y)))) for x, y in zip(v, w)], "xor of two string arrays")


def nested(t):
    """strings inside other structures: reading, selecting, comparing"""
    T = t.pick((("list", ("str",)), ("opt", ("str",)), ("rec", (("x", ("str",)), ("y", ("num", "int64")))), ("list", ("list", ("bytes",))), ("list", ("opt", ("str",))),
                ("union", (("str",), ("num", "int64"))), ("rec", (("a", ("bytes",)), ("b", ("list", ("str",))))), ("str",), ("bytes",)))
    T, v, a = sample(t, T=T, lay=Layout(PLAIN - {"longcol"}, p=0.4))
    t.nontrivial = len(v) >= 2
    v = plain(v)
    expect(t, a, v, "tolist")
    where, desc, fn = gen_index(t, len(v), ("slice", "mask", "fancy"))
    if fn is not None:
        expect(t, a[where], fn(v), "array[%s]" % desc)
    if T[0] == "rec":
        n = t.pick([x for x, _ in T[1]])
        expect(t, a[n], [x[n] for x in v], "column")
        return
    isb = has(T, "bytes")
    pool = []

    def collect(x):
        if isinstance(x, list):
            for y in x:
                collect(y)
        elif isinstance(x, (str, bytes)):
            pool.append(x)
    collect(v)
    s = t.pick(pool) if pool and t.chance(0.8) else (b"zz" if isb else "zz")
    t.note("scalar", s)

    def ref(x, ne):
        if isinstance(x, list):
            return [ref(y, ne) for y in x]
        if x is None:
            return None
        return (x != s) if ne else (x == s)
    if T[0] == "union":
        return
    ne = t.flag()
    got = attempt(lambda: (a != s) if ne else (a == s))
    expect(t, got, ref(v, ne), "a %s %r" % ("!=" if ne else "==", s))


SUBS = [Sub("sources", sources, 10500), Sub("index", index, 8400), Sub("compare", compare, 10500), Sub("pad", pad, 7000), Sub("join", join, 7000), Sub("chars", chars, 4200),
        Sub("nested", nested, 5600)]
