"""C01: fromiter is inverted by tolist, and gives the documented canonical array."""
import collections

from .common import *

ID = "C01"
RULE = ("a case draws 0..7 nested Python values, heterogeneous with some probability at every level, and feeds them as a list, generator, "
        "tuple, with generated containers inside; non-trivial: at least 2 values with nesting, None or more than one kind")


class Obj1(object):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, other):
        return type(other) is Obj1 and same(self.a, other.a) and same(self.b, other.b)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def __repr__(self):
        return "Obj1(%r, %r)" % (self.a, self.b)


class Obj2(Obj1):
    def __eq__(self, other):
        return type(other) is Obj2 and same(self.a, other.a) and same(self.b, other.b)

    def __hash__(self):
        return 2

    def __repr__(self):
        return "Obj2(%r, %r)" % (self.a, self.b)


class Obj0(object):
    def __eq__(self, other):
        return type(other) is Obj0

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 3

    def __repr__(self):
        return "Obj0()"


NT2 = collections.namedtuple("NT2", ["b", "a"])
NT1 = collections.namedtuple("NT1", ["q"])
NT2x = collections.namedtuple("NT2x", ["b", "a"])

KINDS = [(6, "int"), (5, "float"), (2, "bool"), (3, "str"), (2, "bytes"), (1, "complex"), (5, "list"), (4, "dict"), (3, "none")]
RICH = KINDS + [(2, "nt"), (2, "obj")]


def gen_scalar(t, k, big):
    if k == "int":
        if big and t.chance(0.3):
            return t.pick([2**53 + 1, -2**62 - 1, 2**63 - 1, -2**63, 2**31, 300])
        return t.below(20) - 5
    if k == "float":
        if t.chance(0.15):
            return t.pick([float("nan"), float("inf"), float("-inf"), -0.0, 1e308, 5e-324])
        return (t.below(33) - 16) / 8.0
    if k == "bool":
        return t.flag()
    if k == "str":
        return t.pick(STRS + ("tail\x00", "\x00"))
    if k == "bytes":
        return t.pick(BYTS + (b"tail\x00", b"\x00"))
    if k == "complex":
        return complex(t.below(5), t.below(5) - 2)
    raise AssertionError(k)


class Spec(object):
    """a recipe for the values at one level: which kinds may appear there"""

    def __init__(self, t, depth, kinds, big):
        self.big = big
        avail = [(w, k) for w, k in kinds if depth > 0 or k not in ("list", "dict", "nt", "obj")]
        m = t.wpick([(6, 1), (2, 2), (1, 3)])
        self.kinds = []
        for _ in range(m):
            k = t.wpick(avail)
            if k not in self.kinds:
                self.kinds.append(k)
        if big and "int" in self.kinds:
            self.kinds = [k for k in self.kinds if k not in ("float", "complex")]
        self.nones = t.chance(0.25)
        sub = lambda: Spec(t, depth - 1, kinds, big)
        if "list" in self.kinds:
            self.item = sub()
        if "dict" in self.kinds:
            self.dicts = []
            # (with integers that floating point cannot hold, no second record type that might share the names of the first)
            for _ in range(1 if big else t.wpick([(4, 1), (1, 2)])):
                names = t.shuffle(["x", "y", "b", "a", "zz", u"\u00e9"])[:t.between(1, 3)]
                self.dicts.append([(n, sub()) for n in names])
        if "nt" in self.kinds:
            self.nts = [(c, [sub() for _ in c._fields]) for c in t.shuffle([NT2, NT1, NT2x])[:t.between(1, 2)]]
        if "obj" in self.kinds:
            self.objs = [(c, sub(), sub()) for c in t.shuffle([Obj1, Obj2, Obj0])[:t.between(1, 2)]]

    def value(self, t):
        if self.nones and t.chance(0.25):
            return {} if t.chance(0.1) else None
        k = t.pick(self.kinds)
        if k == "none":
            return None
        if k == "list":
            return [self.item.value(t) for _ in range(t.length(4))]
        if k == "dict":
            d = t.pick(self.dicts)
            items = [(n, s.value(t)) for n, s in d]
            if t.chance(0.3):
                items = items[::-1]
            return dict(items)
        if k == "nt":
            c, ss = t.pick(self.nts)
            return c(*[s.value(t) for s in ss])
        if k == "obj":
            c, a, b = t.pick(self.objs)
            return c() if c is Obj0 else c(a.value(t), b.value(t))
        return gen_scalar(t, k, self.big)


def norm(v):
    """what tolist should give"""
    if isinstance(v, dict):
        return dict((k, norm(x)) for k, x in v.items()) if v else None
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return type(v)(*[norm(x) for x in v])
    if type(v) in (Obj1, Obj2):
        return type(v)(norm(v.a), norm(v.b))
    return v


def equal(a, b):
    """strict about classes of containers; numbers of one level may be promoted"""
    if isinstance(b, (Obj0, Obj1)):
        return type(a) is type(b) and (isinstance(b, Obj0) or (equal(a.a, b.a) and equal(a.b, b.b)))
    if isinstance(b, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return type(a) is dict and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(b, complex) or isinstance(a, complex):
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, (str, bytes)):
            return False
        a, b = complex(a), complex(b)
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(b, float) and not isinstance(a, numpy.generic) and type(a) is float:
        return same(a, b) and numpy.signbit(a) == numpy.signbit(b)
    return not isinstance(a, (numpy.generic, AwkwardArray, numpy.ndarray)) and same(a, b)


def infer(vs):
    """the canonical type of these values by the documented rules"""
    nulls = any(v is None or (isinstance(v, dict) and not v) for v in vs)
    groups = collections.OrderedDict()
    for v in vs:
        if v is None or (isinstance(v, dict) and not v):
            continue
        if isinstance(v, (bool, numpy.bool_)):
            k = "bool"
        elif isinstance(v, (int, float, complex, numpy.number)):
            k = "num"
        elif isinstance(v, bytes):
            k = "bytes"
        elif isinstance(v, str):
            k = "str"
        elif isinstance(v, dict):
            k = ("dict", frozenset(v))
        elif isinstance(v, tuple) and hasattr(v, "_fields") or isinstance(v, (Obj0, Obj1)):
            k = ("class", type(v))
        else:
            k = "list"
        groups.setdefault(k, []).append(v)
    tpes = []
    for k, xs in groups.items():
        if k == "bool":
            tpes.append("bool")
        elif k == "num":
            r = numpy.array(xs).dtype.name if all(type(x) in (int, float, complex) for x in xs) else numpy.result_type(*[numpy.asarray(x).dtype for x in xs]).name
            tpes.append(r)
        elif k in ("bytes", "str"):
            tpes.append(k)
        elif k == "list":
            tpes.append(("array", "inf", infer([y for x in xs for y in x])))
        elif k[0] == "dict":
            tpes.append(("rec", tuple((n, infer([x[n] for x in xs])) for n in sorted(k[1]))))
        else:
            tpes.append(("class", k[1].__name__))
    if not tpes:
        return ("opt", "bool") if nulls else "float64"
    out = tpes[0] if len(tpes) == 1 else ("union", frozenset(tpes))
    return ("opt", out) if nulls else out


def hasclass(v):
    if isinstance(v, (Obj0, Obj1)) or (isinstance(v, tuple) and hasattr(v, "_fields")):
        return True
    if isinstance(v, list):
        return any(hasclass(x) for x in v)
    if isinstance(v, dict):
        return any(hasclass(x) for x in v.values())
    return False


def canonical(t, a, parent, opts):
    """masked not in masked, union not in union, union contents not masked, documented mask classes"""
    if isinstance(a, numpy.ndarray):
        return
    if isinstance(a, MaskedArray):      # includes IndexedMaskedArray
        t.check(parent not in ("mask", "union"), lambda: "a masked array directly inside a %s" % parent)
        inner = a.content
        want = IndexedMaskedArray if isinstance(inner, (Table, UnionArray)) or (isinstance(inner, ObjectArray) and not isinstance(inner, StringArray)) else MaskedArray
        t.check(type(a) is want, lambda: "%s masked with %s" % (type(inner).__name__, type(a).__name__))
        if want is MaskedArray:
            t.check(a.maskedwhen == opts.get("maskedwhen", True), "maskedwhen option not honoured")
        return canonical(t, inner, "mask", opts)
    if isinstance(a, UnionArray):
        t.check(parent != "union", "a union directly inside a union")
        for x in a.contents:
            canonical(t, x, "union", opts)
        return
    if isinstance(a, Table):
        t.check(a.columns == sorted(a.columns), lambda: "columns not sorted: %r" % (a.columns,))
        for n in a.columns:
            canonical(t, a._contents[n], None, opts)
        return
    if isinstance(a, StringArray):
        t.check(not opts.get("dictencoding"), "strings not dictionary encoded")
        return
    if isinstance(a, IndexedArray):
        t.check(opts.get("dictencoding") and isinstance(a.content, StringArray), "unexpected IndexedArray")
        d = a.content.tolist()
        t.check(len(set(d)) == len(d), "dictionary has duplicates")
        return
    if isinstance(a, JaggedArray):
        return canonical(t, a.content, None, opts)
    if isinstance(a, ObjectArray):
        return
    t.fail("unexpected %s" % type(a).__name__)


def roundtrip(t):
    """nested values in, the canonical array type and the same values out"""
    rich = t.chance(0.3)
    spec = Spec(t, t.between(0, 3), RICH if rich else KINDS, t.chance(0.2))
    vs = [spec.value(t) for _ in range(t.length(7))]
    opts = {}
    if t.chance(0.3):
        opts["maskedwhen"] = t.flag()
    if t.chance(0.3):
        opts["dictencoding"] = t.flag()
    t.note("values", repr(vs))
    t.note("options", repr(opts))
    t.nontrivial = len(vs) >= 2 and (len(spec.kinds) > 1 or spec.nones or spec.kinds[0] in ("list", "dict", "nt", "obj"))
    how = t.below(4)

    def feed(v):
        """the same values in other containers"""
        if isinstance(v, list):
            m = t.below(4)
            xs = [feed(x) for x in v]
            return xs if m < 2 else (tuple(xs) if m == 2 else (x for x in xs))
        if isinstance(v, dict):
            return dict((k, feed(x)) for k, x in v.items())
        return v
    if how == 0:
        src = vs
    elif how == 1:
        src = tuple(vs)
    elif how == 2:
        src = (x for x in vs)
    else:
        src = [feed(x) for x in vs]
        if t.flag():
            src = iter(src)
    before = repr(vs)
    a = fromiter(src, **opts)
    got = a.tolist()
    want = [norm(v) for v in vs]
    t.check(equal(got, want), lambda: "tolist gives %r, expected %r" % (got, want))
    t.check(len(a) == len(vs), lambda: "len %r" % len(a))
    t.check(repr(vs) == before, "the input values were modified")
    if not isinstance(a, numpy.ndarray):
        t.check(a.valid(), lambda: "invalid array: %s" % a.valid(message=True))
    if isinstance(a, (numpy.ndarray, AwkwardArray)):
        each = [a[i].tolist() if hasattr(a[i], "tolist") else a[i] for i in range(len(vs))]
        t.check(equal(each, want), lambda: "elements give %r, expected %r" % (each, want))
    if not any(hasclass(v) for v in vs):
        w = infer(vs)
        g = gottype(awkward0.type.fromarray(a).to)
        t.check(g == w, lambda: "type is %r, expected %r" % (g, w))
    canonical(t, a, None, opts)
    again = fromiter(got, **opts)
    t.check(equal(again.tolist(), want), "second round trip differs")


def scalars(t):
    """Numpy scalars and Numpy arrays as values"""
    n = t.length(6, 1)
    pool = [numpy.int64(3), numpy.int32(-2), numpy.float64(1.5), numpy.float32(0.25), numpy.int8(7), numpy.uint8(200), 4, 2.5, numpy.float16(0.5)]
    bools = [numpy.bool_(True), numpy.bool_(False), True, False]
    mode = t.below(4)
    if mode == 0:
        vs = [t.pick(pool) for _ in range(n)]
        want = [x.item() if isinstance(x, numpy.generic) else x for x in vs]
        src = vs
    elif mode == 1:
        vs = [t.pick(pool + bools) for _ in range(n)]
        want = [x.item() if isinstance(x, numpy.generic) else x for x in vs]
        src = vs
    elif mode == 2:
        src = [numpy.array([gen_num(t, dt) for _ in range(t.length(4))], dtype=dt) for dt in [t.pick(NUMS[:5]) for _ in range(1)] * n]
        want = [x.tolist() for x in src]
    else:
        T = gen_type(t, 1, ("num", "list", "str", "opt"))
        vals = gen_values(t, T, n)
        src = build(t, T, vals, Layout())
        want = [plain(v) for v in vals]
        if T[0] in ("list", "num", "str", "opt") and any(isinstance(x, AwkwardArray) for x in [src]) and isinstance(src, AwkwardArray):
            src = list(src)
            src = [None if isinstance(x, numpy.ma.core.MaskedConstant) else x for x in src]
    t.note("values", repr(src))
    t.nontrivial = n >= 2
    a = fromiter(src)
    t.check(equal(a.tolist(), want), lambda: "tolist gives %r, expected %r" % (a.tolist(), want))


def refused(t):
    """documented refusals"""
    m = t.below(3)
    if m == 0:
        bad = t.pick([{1: 2}, {None: 1}, {"x": 1, 2: 3}, {(1,): 1}])
        vs = [{"x": 1}] * t.below(3) + [bad]
        if t.flag():
            vs = [vs]
        t.note("values", repr(vs))
        got = attempt(fromiter, vs)
        t.check(isinstance(got, Refused) and isinstance(got.err, TypeError), lambda: "non-string keys gave %r" % (got,))
    elif m == 1:
        opt = t.pick(["maskwhen", "dictencode", "foo"])
        got = attempt(fromiter, [1, 2], **{opt: True})
        t.check(isinstance(got, Refused) and isinstance(got.err, TypeError), lambda: "unknown option gave %r" % (got,))
    else:
        data = [t.pick(STRS) for _ in range(t.length(5, 1))]
        seen = []
        yes = t.flag()
        a = fromiter(data, dictencoding=lambda xs: (seen.append(list(xs)), yes)[1])
        t.check(seen == [data], lambda: "dictencoding function called with %r" % (seen,))
        t.check(isinstance(a, IndexedArray) == yes, "dictencoding function's answer not honoured")
        t.check(a.tolist() == data, lambda: "tolist gives %r" % (a.tolist(),))


SUBS = [Sub("roundtrip", roundtrip, 48000), Sub("scalars", scalars, 6400), Sub("refused", refused, 1600)]
