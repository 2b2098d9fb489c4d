"""Generators: high-level types, reference values of those types, and physically different arrays
(layouts) that all represent the same list of values."""
from .lib import *

NUMS = ("int64", "float64", "bool", "int32", "uint8", "float32", "int16", "uint32", "int8", "uint64")
NAMES = ("x", "y", "z", "w")


class Obj(object):
    """an object made from an element of an array, for types ("obj", T, args)"""

    def __init__(self, data, args=(), kwargs=(), src=None):
        self.data = data
        self.args = args
        self.kwargs = kwargs
        self.src = src

    def __eq__(self, other):
        return type(other) is Obj and same(self.data, other.data) and self.args == other.args and self.kwargs == other.kwargs

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "Obj(%r, %r, %r)" % (self.data, self.args, self.kwargs)


def makeobj(x, *args, **kwargs):
    return Obj(tolist(x), args, tuple(sorted(kwargs.items())))


# --------------------------------------------------------------------------- types

def gen_type(t, depth=2, kinds=("num", "list", "rec", "opt", "str", "union", "bytes", "tup", "nd", "obj"), nums=NUMS[:5], inopt=False, inunion=False):
    w = {"num": 6, "list": 4, "rec": 2, "opt": 2, "str": 2, "union": 1, "bytes": 1, "tup": 1, "nd": 1, "obj": 0.8}
    leafs = ("num", "str", "bytes", "nd")
    if depth > 0:
        w.update({"num": 2.5, "str": 1, "bytes": 0.5, "nd": 0.5})
    avail = [k for k in kinds if (depth > 0 or k in leafs)]
    if inopt:
        avail = [k for k in avail if k not in ("opt",)]
    if inunion:
        avail = [k for k in avail if k not in ("union", "opt", "nd")]
    if not avail:
        avail = ["num"]
    k = t.wpick([(w[k], k) for k in avail])
    sub = lambda **kw: gen_type(t, depth - 1, kinds, nums, **kw)
    if k == "num":
        return ("num", t.pick(nums))
    if k == "nd":
        return ("nd", t.pick(nums), tuple(t.between(1, 3) for _ in range(t.between(1, 2))))
    if k in ("str", "bytes"):
        return (k,)
    if k == "list":
        return ("list", sub())
    if k == "rec":
        n = t.between(1, 3)
        return ("rec", tuple((NAMES[i], sub()) for i in range(n)))
    if k == "tup":
        n = t.between(1, 3)
        return ("tup", tuple(sub() for i in range(n)))
    if k == "opt":
        return ("opt", sub(inopt=True))
    if k == "obj":
        return ("obj", sub(), tuple(t.below(4) for _ in range(t.below(3))), tuple(sorted((k, t.below(3)) for k in ("k", "m")[:t.below(3)])))
    if k == "union":
        opts = []
        for i in range(t.between(2, 3)):
            x = sub(inunion=True)
            if x not in opts:
                opts.append(x)
        if len(opts) == 1:
            return opts[0]
        return ("union", tuple(opts))
    raise AssertionError(k)


def has(T, *kinds):
    if T[0] in kinds:
        return True
    if T[0] in ("list", "opt", "obj"):
        return has(T[1], *kinds)
    if T[0] == "rec":
        return any(has(x, *kinds) for _, x in T[1])
    if T[0] in ("tup", "union"):
        return any(has(x, *kinds) for x in T[1])
    return False


# --------------------------------------------------------------------------- values

def gen_num(t, dtype, special=False):
    if dtype == "bool":
        return t.flag()
    if dtype.startswith("float"):
        if special and t.chance(0.12):
            return t.pick([float("nan"), float("inf"), float("-inf"), -0.0])
        return (t.below(17) - 8) / 4.0 if t.flag() else float(t.below(9))
    if dtype.startswith("uint"):
        return t.below(10) if t.chance(0.9) else 200
    return t.below(12) if t.flag() else -t.below(12)


STRS = ("", "a", "b", "one", "two", "three", u"\u00e9", u"\u4e2d\u6587", "zz", "o", "tw", u"\U0001d11e")
BYTS = (b"", b"a", b"one", b"two", b"\xff\xfe", b"zz", b"\x00a", b"three")


def gen_value(t, T, special=False, maxlen=4):
    k = T[0]
    if k == "num":
        return gen_num(t, T[1], special)
    if k == "nd":
        def rec(shape):
            if not shape:
                return gen_num(t, T[1], special)
            return [rec(shape[1:]) for _ in range(shape[0])]
        return rec(T[2])
    if k == "str":
        return t.pick(STRS)
    if k == "bytes":
        return t.pick(BYTS)
    if k == "list":
        return [gen_value(t, T[1], special, maxlen) for _ in range(t.length(maxlen))]
    if k == "rec":
        return dict((n, gen_value(t, x, special, maxlen)) for n, x in T[1])
    if k == "tup":
        return tuple(gen_value(t, x, special, maxlen) for x in T[1])
    if k == "opt":
        return None if t.chance(0.3) else gen_value(t, T[1], special, maxlen)
    if k == "obj":
        v = gen_value(t, T[1], special, maxlen)
        return Obj(plain(v), T[2], T[3], v)
    if k == "union":
        tag = t.below(len(T[1]))
        return U(tag, gen_value(t, T[1][tag], special, maxlen))
    raise AssertionError(k)


def gen_values(t, T, n, special=False, maxlen=4):
    return [gen_value(t, T, special, maxlen) for _ in range(n)]


# --------------------------------------------------------------------------- layouts

ALL = frozenset(["indexed", "chunked", "virtual", "sparse", "appendable", "scatter", "gap", "view", "npstride",
                 "bitmask", "indexmask", "boolmask", "longcol", "idt", "emptychunk", "lazychunk", "longstops",
                 "nestedwrap", "inner", "farempty", "longidx", "uidx"])
PLAIN = frozenset(["boolmask"])


class Layout(object):
    """which physical variations may be used"""

    def __init__(self, allow=ALL, p=0.35):
        self.allow = frozenset(allow)
        self.p = p

    def __contains__(self, x):
        return x in self.allow

    def without(self, *xs):
        return Layout(self.allow - set(xs), self.p)


def idx(t, lay, values):
    dt = "int64"
    if "idt" in lay and t.chance(0.2):
        dt = t.pick(["int64", "int32", "int16"] + (["uint8", "uint32", "uint64"] if min(values, default=0) >= 0 and max(values, default=0) < 256 and "uidx" in lay else []))
    return numpy.array(values, dtype=dt)


def build(t, T, values, lay, wrap=1, special=False, top=True):
    """an array of type T whose elements are `values`"""
    n = len(values)
    if wrap > 0 and (top or "inner" in lay):
        opts = []
        if "indexed" in lay:
            opts.append("indexed")
        if "chunked" in lay:
            opts.append("chunked")
        if "virtual" in lay:
            opts.append("virtual")
        if "sparse" in lay and (T[0] in ("num", "nd") or t.home not in NODENSE and sparsable(T)):
            opts.append("sparse")
        if "appendable" in lay and T[0] in ("num", "nd") and n > 0:
            opts.append("appendable")
        if opts and t.chance(lay.p):
            k = t.pick(opts)
            t.feature(k)
            w = wrap - 1 if "nestedwrap" in lay else 0
            sub = lambda v: build(t, T, v, lay, w, special, top)
            if k == "indexed":
                return build_indexed(t, T, values, lay, sub, special)
            if k == "chunked":
                return build_chunked(t, T, values, lay, sub)
            if k == "virtual":
                return build_virtual(t, sub(values))
            if k == "sparse":
                return build_sparse(t, T, values, lay, special, sub)
            if k == "appendable":
                return build_appendable(t, T, values)
    sub = lambda S, v: build(t, S, v, lay, wrap if "inner" in lay else 0, special, False)
    k = T[0]
    if k == "num":
        return build_num(t, T[1], values, lay, (), special)
    if k == "nd":
        return build_num(t, T[1], values, lay, T[2], special)
    if k in ("str", "bytes"):
        return build_str(t, T, values, lay)
    if k == "list":
        return build_list(t, T, values, lay, sub, special)
    if k in ("rec", "tup"):
        return build_table(t, T, values, lay, sub, special)
    if k == "opt":
        return build_opt(t, T, values, lay, sub, special)
    if k == "union":
        return build_union(t, T, values, lay, sub, special)
    if k == "obj":
        return ObjectArray(sub(T[1], [v.src for v in values]), makeobj, T[2], dict(T[3]))
    raise AssertionError(T)


def build_num(t, dtype, values, lay, shape, special):
    a = numpy.array(plain(values), dtype=dtype).reshape((len(values),) + tuple(shape))
    if "npstride" in lay and t.chance(0.15):
        t.feature("npstride")
        if t.flag():
            big = numpy.zeros((len(a) * 2,) + a.shape[1:], dtype=dtype)
            big[::2] = a
            a = big[::2]
        else:
            a = numpy.ascontiguousarray(a[::-1])[::-1]
    return a


def build_str(t, T, values, lay):
    if T[0] == "bytes":
        enc = None
        encd = list(values)
    else:
        enc = "utf-8"
        encd = [v.encode(enc) for v in values]
    if "scatter" in lay and t.chance(0.4):
        t.feature("strscatter")
        starts, stops, flat = scatter(t, encd, lambda: t.pick(BYTS), "farempty" in lay, "nodup" not in lay)
        content = numpy.frombuffer(b"".join(flat), dtype=numpy.uint8)
        return StringArray(idx(t, lay, starts), idx(t, lay, stops), content, enc)
    if "gap" in lay and t.chance(0.35):
        t.feature("strgap")
        lead, tail = t.pick(BYTS), t.pick(BYTS)
        off = [len(lead)]
        for x in encd:
            off.append(off[-1] + len(x))
        off = idx(t, lay, off)
        content = numpy.frombuffer(lead + b"".join(encd) + tail, dtype=numpy.uint8)
        if t.flag():
            return StringArray.fromoffsets(off, content, enc)
        return StringArray(off[:-1], off[1:], content, enc)
    return StringArray.fromiter(values, encoding=enc)


def scatter(t, lists, junk, far=False, share=False):
    """place lists in a flat buffer in any order, with unreachable gaps, equal lists and parts of lists
    sometimes in the same place; returns starts, stops, pieces"""
    order = t.shuffle(range(len(lists))) if t.flag() else list(range(len(lists)))
    starts = [0] * len(lists)
    stops = [0] * len(lists)
    pieces = []
    pos = 0
    gaps = t.flag()
    if gaps:
        j = junk()
        pieces.append(j)
        pos += len(j)
    share = share and t.chance(0.4)
    placed = []
    for i in order:
        x = lists[i]
        if share and len(x) > 0:
            where = [p + j for p, y in placed for j in range(len(y) - len(x) + 1) if repr(y[j:j + len(x)]) == repr(x)]
            if where and t.chance(0.8):
                t.feature("share")
                starts[i] = t.pick(where)
                stops[i] = starts[i] + len(x)
                continue
            placed.append((pos, x))
        pieces.append(x)
        starts[i], stops[i] = pos, pos + len(x)
        pos += len(x)
        if gaps and t.chance(0.4):
            j = junk()
            pieces.append(j)
            pos += len(j)
    for i, x in enumerate(lists):
        if len(x) == 0 and t.chance(0.3):
            starts[i] = stops[i] = t.below(pos + (6 if far else 1))
    return starts, stops, pieces


def build_list(t, T, values, lay, sub, special):
    S = T[1]
    lists = [list(v) for v in values]
    mode = t.wpick([(3, "plain"), (3 if "scatter" in lay else 0, "scatter"), (2 if "gap" in lay else 0, "gap")])
    if mode == "plain":
        flat = [y for x in lists for y in x]
        counts = [len(x) for x in lists]
        if t.flag():
            return JaggedArray.fromcounts(idx(t, lay, counts), sub(S, flat))
        off = [0]
        for c in counts:
            off.append(off[-1] + c)
        return JaggedArray.fromoffsets(idx(t, lay, off), sub(S, flat))
    if mode == "gap":
        t.feature("gap")
        lead = gen_values(t, S, t.length(3), special, 2)
        tail = gen_values(t, S, t.length(3), special, 2)
        flat = lead + [y for x in lists for y in x] + tail
        off = [len(lead)]
        for x in lists:
            off.append(off[-1] + len(x))
        if t.flag():
            off = idx(t, lay, off)
            if "longstops" in lay and t.chance(0.2):
                t.feature("longstops")
                off = numpy.append(off, off.dtype.type(len(flat)))
                return JaggedArray(off[:-2], off[1:], sub(S, flat))
            return JaggedArray(off[:-1], off[1:], sub(S, flat))
        return JaggedArray.fromoffsets(idx(t, lay, off), sub(S, flat))
    t.feature("scatter")
    starts, stops, pieces = scatter(t, lists, lambda: gen_values(t, S, 1 + t.below(2), special, 2), "farempty" in lay, "nodup" not in lay)
    flat = [y for p in pieces for y in p]
    starts = idx(t, lay, starts)
    stops = idx(t, lay, stops)
    if "longstops" in lay and t.chance(0.2):
        t.feature("longstops")
        stops = numpy.append(stops, stops.dtype.type(t.below(len(flat) + 1)))
    return JaggedArray(starts, stops, sub(S, flat))


def shared(t, lay, values, where):
    """positions, sometimes the same one for equal values"""
    if "nodup" in lay or not t.chance(0.3):
        return where
    where, seen = list(where), {}
    for i, v in enumerate(values):
        k = repr(v)
        if k in seen:
            t.feature("share")
            where[i] = seen[k]
        else:
            seen[k] = where[i]
    return where


def build_table(t, T, values, lay, sub, special):
    n = len(values)
    istup = T[0] == "tup"
    fields = list(T[1]) if not istup else [(str(i), x) for i, x in enumerate(T[1])]
    view = None
    rows = list(values)
    if "view" in lay and t.chance(0.35):
        t.feature("view")
        if t.flag():
            extra = gen_values(t, T, t.length(3), special, 2)
            order = t.shuffle(range(n + len(extra)))
            allrows = rows + extra
            rows2 = [allrows[i] for i in order]
            where = [0] * (n + len(extra))
            for pos, i in enumerate(order):
                where[i] = pos
            view = idx(t, lay, shared(t, lay, values, where[:n]))
            rows = rows2
        else:
            lead = gen_values(t, T, t.length(2), special, 2)
            tail = gen_values(t, T, t.length(2), special, 2)
            if t.flag() and n > 0:
                rows = lead + rows[::-1] + tail
                view = (len(lead) + n - 1, -1, n)
            else:
                step = t.between(1, 2)
                spread = []
                for r in rows:
                    spread.append(r)
                    for _ in range(step - 1):
                        spread.append(gen_value(t, T, special, 2))
                rows = lead + spread + tail
                view = (len(lead), step, n)
    cols = []
    keep = t.below(len(fields))
    for i, (name, S) in enumerate(fields):
        col = [r[i] if istup else r[name] for r in rows]
        if "longcol" in lay and i != keep and view is None and t.chance(0.2):
            t.feature("longcol")
            col = col + gen_values(t, S, 1 + t.below(2), special, 2)
        cols.append((name, sub(S, col)))
    out = Table.frompairs(cols, 0)
    if istup:
        out.rowname = "tuple"
    if view is not None:
        out = Table.fromview(view, out)
    return out


def build_opt(t, T, values, lay, sub, special):
    S = T[1]
    n = len(values)
    kinds = [(2 if "boolmask" in lay else 0, "boolmask"), (1 if "bitmask" in lay else 0, "bitmask"), (2 if "indexmask" in lay else 0, "indexmask")]
    k = t.wpick(kinds)
    t.feature(k)
    if k == "indexmask":
        good = [v for v in values if v is not None]
        extra = gen_values(t, S, t.length(2), special, 2) if "gap" in lay else []
        order = t.shuffle(range(len(good) + len(extra))) if "scatter" in lay and t.flag() else list(range(len(good) + len(extra)))
        allv = good + extra
        content = [allv[i] for i in order]
        where = [0] * len(allv)
        for pos, i in enumerate(order):
            where[i] = pos
        where = shared(t, lay, good, where)
        index = []
        j = 0
        for v in values:
            if v is None:
                index.append(-1)
            else:
                index.append(where[j])
                j += 1
        return IndexedMaskedArray(idx(t, lay, index), sub(S, content))
    filled = [gen_value(t, S, special, 2) if v is None else v for v in values]
    when = t.flag()
    mask = numpy.array([(v is None) == when for v in values], dtype=bool)
    if k == "bitmask":
        return BitMaskedArray.fromboolmask(mask, sub(S, filled), maskedwhen=when, lsborder=t.flag())
    extra = gen_values(t, S, t.length(2), special, 2) if "gap" in lay and t.chance(0.3) else []
    return MaskedArray(mask, sub(S, filled + extra), maskedwhen=when)


def build_union(t, T, values, lay, sub, special):
    n = len(values)
    if n == 0:
        return sub(T[1][0], [])
    per = [[] for _ in T[1]]
    tags, index = [], []
    for v in values:
        tags.append(v.tag)
        index.append(len(per[v.tag]))
        per[v.tag].append(v.val)
    if "scatter" in lay and t.chance(0.5):
        t.feature("unionscatter")
        maps = []
        for k, S in enumerate(T[1]):
            allv = per[k] + (gen_values(t, S, t.length(2), special, 2) if "gap" in lay else [])
            order = t.shuffle(range(len(allv)))
            per[k] = [allv[i] for i in order]
            where = [0] * len(allv)
            for pos, i in enumerate(order):
                where[i] = pos
            maps.append(where)
            maps[-1][:] = shared(t, lay, [v.val for v in values if v.tag == k], where)
        index = [maps[g][i] for g, i in zip(tags, index)]
    contents = [sub(S, per[k]) for k, S in enumerate(T[1])]
    if "longidx" in lay and t.chance(0.2):
        t.feature("longidx")
        index = list(index) + [t.below(4) for _ in range(1 + t.below(2))]
    return UnionArray(numpy.array(tags, dtype=numpy.uint8), idx(t, lay, index), contents)


def build_indexed(t, T, values, lay, sub, special):
    n = len(values)
    extra = gen_values(t, T, t.length(3), special, 2) if t.flag() else []
    allv = list(values) + extra
    order = t.shuffle(range(len(allv)))
    content = [allv[i] for i in order]
    where = [0] * len(allv)
    for pos, i in enumerate(order):
        where[i] = pos
    index = where[:n]
    # share one physical element between equal values sometimes
    if "nodup" not in lay and t.chance(0.4):
        seen = {}
        for i, v in enumerate(values):
            key = repr(v)
            if key in seen:
                index[i] = seen[key]
            else:
                seen[key] = index[i]
    return IndexedArray(idx(t, lay, index), sub(content))


def splits(t, n, maxparts=4, empty=True):
    parts = t.between(1, maxparts)
    cuts = sorted(t.below(n + 1) for _ in range(parts - 1))
    if not empty:
        cuts = sorted(set(c for c in cuts if 0 < c < n))
    return [0] + cuts + [n]


def build_chunked(t, T, values, lay, sub):
    n = len(values)
    cuts = splits(t, n, 4, "emptychunk" in lay)
    chunks = [sub(values[a:b]) for a, b in zip(cuts[:-1], cuts[1:])]
    mode = t.below(3) if "lazychunk" in lay else 1
    if mode == 0:
        return ChunkedArray(chunks)
    sizes = [b - a for a, b in zip(cuts[:-1], cuts[1:])]
    if mode == 2:
        sizes = sizes[:t.below(len(sizes) + 1)]
    return ChunkedArray(chunks, sizes)


class Gen(object):
    """a VirtualArray generator that counts its calls"""

    def __init__(self, array, fresh=False):
        self.array = array
        self.calls = 0
        self.fresh = fresh

    def __call__(self, *args, **kwargs):
        self.calls += 1
        if self.fresh:
            if isinstance(self.array, numpy.ndarray):
                return self.array.copy()
            if self.calls == 1:
                self.array.tolist()        # so that virtual arrays in it have something to copy
            return self.array.deepcopy()
        return self.array


class Forgetful(object):
    """a cache that keeps nothing: whoever reads a virtual array twice gets two arrays"""

    def __getitem__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        pass

    def __delitem__(self, k):
        raise KeyError(k)


def build_virtual(t, array):
    mode = t.below(4)
    if mode == 3:
        # (deep copies of views are laid out differently: unions in place of sparse arrays, unions without the possibilities that are not used)
        if isinstance(array, numpy.ndarray) or describe(array.deepcopy()) == describe(array):
            return VirtualArray(Gen(array, fresh=True), cache=Forgetful())
        mode = 1
    if mode == 0:
        return VirtualArray(Gen(array))
    if mode == 1:
        return VirtualArray(Gen(array), cache={})
    tpe = awkward0.type.fromarray(array)
    return VirtualArray(Gen(array), cache={} if t.flag() else None, type=tpe)


def sparse_extra(t, lay, n, pos, content):
    """what does not belong to any element: positions beyond the length, content beyond the index"""
    if "gap" in lay and t.chance(0.25):
        more, beyond = t.between(1, 3), []
        while t.flag() and len(beyond) < more:
            beyond.append((beyond or [n - 1])[-1] + t.between(1, 2))
        if beyond:
            t.feature("beyond")
        pos = list(pos) + beyond
        content = numpy.concatenate([content, numpy.ones((more,) + content.shape[1:], dtype=content.dtype)])
    return pos, content


# where a sparse array has to be dense, which is only implemented for numbers: these checks have no sparse arrays of other things
NODENSE = frozenset(["c04", "c05", "c06", "c07", "c08", "c13", "c18", "c23", "c24", "c25"])


def sparsable(T):
    """types with a documented default"""
    return T[0] in ("list", "str", "bytes") or T[0] == "rec" and all(x[0] == "num" for _, x in T[1])


def build_sparse(t, T, values, lay, special, sub=None):
    if T[0] not in ("num", "nd"):
        t.feature("deepsparse")
        d = {"list": [], "str": "", "bytes": b"", "rec": None}[T[0]]
        if d is None:
            d = dict((n, False if x[1] == "bool" else 0) for n, x in T[1])
        pos = [i for i, v in enumerate(plain(values)) if not same(v, d) or t.chance(0.2)]
        if len(pos) == 0:               # empty chunks have no type, so no default either
            content = build(t, T, [], lay.without("chunked"), 0, special)
        else:
            content = sub([values[i] for i in pos])
        return SparseArray(len(values), idx(t, lay, pos), content)
    dt = T[1]
    if T[0] == "nd":
        default = gen_value(t, T, False) if t.flag() else None
        content = numpy.array(plain(values), dtype=dt).reshape((len(values),) + tuple(T[2]))
        d = default if default is not None else numpy.zeros(T[2], dtype=dt).tolist()
        pos = [i for i, v in enumerate(plain(values)) if not same(v, plain(d)) or t.chance(0.2)]
        pos, content = sparse_extra(t, lay, len(values), pos, content[pos] if pos else content[:0])
        return SparseArray(len(values), idx(t, lay, pos), content, default if default is None else numpy.array(plain(default), dtype=dt))
    default = gen_num(t, dt, False) if t.flag() else None
    d = default if default is not None else (False if dt == "bool" else 0)
    pos = [i for i, v in enumerate(values) if not same(v, d) or t.chance(0.2)]
    content = numpy.array([values[i] for i in pos], dtype=dt)
    if default is not None:
        default = numpy.dtype(dt).type(default)
    pos, content = sparse_extra(t, lay, len(values), pos, content)
    return SparseArray(len(values), idx(t, lay, pos), content, default)


def build_appendable(t, T, values):
    shape = T[2] if T[0] == "nd" else ()
    size = t.between(1, 4)
    a = AppendableArray((size,) + tuple(shape), T[1])
    i = 0
    arr = numpy.array(plain(values), dtype=T[1]).reshape((len(values),) + tuple(shape))
    while i < len(values):
        if t.flag():
            a.append(arr[i])
            i += 1
        else:
            k = t.between(1, max(1, len(values) - i))
            a.extend(arr[i:i + k])
            i += k
    return a
