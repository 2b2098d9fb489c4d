"""C27: attributes assigned to arrays are what the arrays use; invalid ones are refused (jagged, masked and union arrays: as in C10, C12, C26)."""
from .common import *
from .indexing import *
from . import c10, c12, c26

ID = "C27"
RULE = ("a case draws an indexed, sparse, object, string, chunked, appendable, virtual array or table and a history of assignments to its "
        "attributes, valid and invalid, with reads in between, compared with a model of those attributes; non-trivial: at least 2 assignments "
        "and 2 elements")

LAY = Layout(ALL - {"virtual"}, p=0.25)


def look(t, a, want, what, T=None):
    """several ways of reading"""
    expect(t, a, want, what)
    t.check(len(a) == len(want), lambda: "%s: length %r, expected %d" % (what, len(a), len(want)))
    if t.flag():
        w, how, fn = gen_index(t, len(want))
        t.note("index", how)
        if fn is None:
            got = attempt(lambda: tolist(a[w]))
            t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "%s: out-of-range index gave %r" % (what, got))
        else:
            expect(t, a[w], fn(want), "%s: %s" % (what, how))
    if t.flag():
        expect(t, list(iter(a)), want, "%s: iteration" % what)
    if T is not None and len(want) and t.flag() and not has(T, "union", "opt"):
        t.check(gottype(a.type.to) == wanttype(T), lambda: "%s: type %s" % (what, a.type))


def refuses(t, fn, what, errs=(TypeError, ValueError)):
    got = attempt(fn)
    t.check(isinstance(got, Refused) and isinstance(got.err, errs), lambda: "%s was accepted" % what)


def content(t, T, n, lay=LAY):
    v = gen_values(t, T, n)
    return plain(v), build(t, T, v, lay, wrap=0)


def indexed(t):
    """index and content of indexed arrays, in any order; indexes beyond the content are refused when read"""
    T = gen_type(t, t.below(2))
    m = t.between(1, 6)
    pool, c = content(t, T, m)
    index = [t.below(m) for _ in range(t.length(5))]
    a = IndexedArray(index, c)
    t.note("index", index, "content", describe(c))
    steps = t.between(2, 6)
    for k in range(steps):
        act = t.pick(["index", "content", "badindex", "copy"])
        t.note("step", act)
        if act == "index":
            index = [t.below(t.pick([len(pool), 7])) for _ in range(t.length(5))]
            a.index = numpy.array(index, dtype=t.pick(["int64", "int32", "uint8"])) if t.flag() or not index else index
        elif act == "content":
            pool, c = content(t, T, t.between(1, 7))
            a.content = c
        elif act == "copy":
            b = a.copy()
            a.index = [0]
            a = b
        else:
            bad = t.pick([[-1], [0, -2], [0.5], [1.0], ["a"], numpy.array([0.0])])
            refuses(t, lambda: setattr(a, "index", bad), "index %r" % (bad,))
        if t.flag() or k == steps - 1:
            if all(i < len(pool) for i in index):
                look(t, a, [pool[i] for i in index], "after %s" % act, T)
            else:
                t.feature("beyond")
                got = attempt(lambda: t.pick([lambda: tolist(a), lambda: tolist(a[:]), lambda: tolist(a[len(index) - 1]), lambda: list(iter(a))])())
                ok = isinstance(got, Refused) and isinstance(got.err, (ValueError, IndexError))
                t.check(ok, lambda: "index %r of %d elements gave %r" % (index, len(pool), got))
                t.check(a.valid() is False, "valid() of an index beyond the content")
    t.nontrivial = len(index) >= 2


def sparse(t):
    """length, index, content and default of sparse arrays"""
    T = ("num", t.pick(["int64", "int32", "float64", "uint8"]))
    n = t.between(1, 8)
    state = {}

    def mkindex():
        return sorted(t.shuffle(list(range(n)))[:t.below(n + 1)])
    index = mkindex()
    pool, c = content(t, T, len(index) + t.below(2), Layout(["npstride"], p=0.3))
    default = None
    a = SparseArray(n, index, c)
    t.note("length", n, "index", index, "content", pool)
    steps = t.between(2, 6)
    for k in range(steps):
        act = t.pick(["length", "index", "content", "default", "bad", "copy"])
        t.note("step", act)
        if act == "length":
            n = t.below(10)
            a.length = n
        elif act == "index":
            index = sorted(t.shuffle(list(range(9)))[:t.below(8)])
            a.index = numpy.array(index, dtype=t.pick(["int64", "int32", "uint8"]))
        elif act == "content":
            pool, c = content(t, T, t.below(9), Layout(["npstride"], p=0.3))
            a.content = c
        elif act == "default":
            default = t.pick([None, 0, 99, 1])
            a.default = default
        elif act == "copy":
            b = a.copy()
            b2 = a.copy(length=3)
            if len(index) <= len(pool):
                expect(t, b2.boolmask(), [i in index for i in range(3)], "boolmask() of copy(length=3)") if t.flag() else None
                look(t, b2, [pool[index.index(i)] if i in index else (default or 0) for i in range(3)], "copy(length=3)")
            a = b
        else:
            attr, bad = t.pick([("length", -1), ("length", 1.5), ("length", "3"), ("length", None), ("index", [1, 0]), ("index", [-1, 2]), ("index", [0.5]), ("index", [[0, 1]])])
            t.note("bad", attr, bad)
            refuses(t, lambda: setattr(a, attr, bad), "%s %r" % (attr, bad))
        t.note("length", n, "index", index, "content", pool, "default", default)
        if t.flag() or k == steps - 1:
            if len(index) <= len(pool):
                look(t, a, [pool[index.index(i)] if i in index else (default or 0) for i in range(n)], "after %s" % act)
                if t.flag():
                    expect(t, a.boolmask(), [i in index for i in range(n)], "boolmask()")
            else:
                got = attempt(lambda: t.pick([lambda: tolist(a), lambda: tolist(a[:]), lambda: list(iter(a))])())
                t.check(isinstance(got, Refused) and isinstance(got.err, (ValueError, IndexError)), lambda: "index %r of %d elements gave %r" % (index, len(pool), got))
    t.nontrivial = n >= 2


def other(x, *args, **kwargs):
    return ("other", tolist(x), args, tuple(sorted(kwargs.items())))


def objects(t):
    """content, generator, args and kwargs of object arrays"""
    T = gen_type(t, t.below(2), ("num", "list", "rec", "str"))
    pool, c = content(t, T, t.length(5))
    gen, args, kwargs = makeobj, (), {}
    a = ObjectArray(c, gen, args, kwargs)
    t.note("content", describe(c))
    steps = t.between(2, 6)
    for k in range(steps):
        act = t.pick(["content", "generator", "args", "arg", "kwargs", "bad", "copy"])
        t.note("step", act)
        if act == "content":
            pool, c = content(t, T, t.length(5))
            a.content = c
        elif act == "generator":
            gen = t.pick([makeobj, other])
            a.generator = gen
        elif act == "args":
            args = tuple(t.below(5) for _ in range(t.below(3)))
            a.args = args
        elif act == "arg":
            args = (t.below(5),)
            a.args = args[0]             # a single argument need not be in a tuple
        elif act == "kwargs":
            kwargs = dict((x, t.below(5)) for x in ("k", "m")[:t.below(3)])
            mine = dict(kwargs)
            a.kwargs = mine
            mine["later"] = 1
        elif act == "copy":
            b = a.copy()
            b.args, b.kwargs, b.generator = (99,), {"z": 1}, other
        else:
            attr, bad = t.pick([("generator", 3), ("generator", None), ("kwargs", [1]), ("kwargs", None), ("kwargs", (("k", 1),))])
            refuses(t, lambda: setattr(a, attr, bad), "%s %r" % (attr, bad))
        if t.flag() or k == steps - 1:
            if gen is makeobj:
                want = [Obj(x, args, tuple(sorted(kwargs.items()))) for x in pool]
            else:
                want = [("other", x, args, tuple(sorted(kwargs.items()))) for x in pool]
            look(t, a, want, "after %s" % act)
            t.check(a.args == args and dict(a.kwargs) == kwargs and a.generator is gen, "attributes")
    t.nontrivial = len(pool) >= 2


def strings(t):
    """starts, stops, content and encoding of string arrays"""
    enc = t.pick(["utf-8", "latin-1", "utf-16-le"])
    other_ = {"utf-8": "latin-1", "latin-1": "utf-8", "utf-16-le": "utf-16-le"}[enc]
    words = [t.pick(["", "a", "bc", "xyz", "hello"]) for _ in range(t.between(1, 5))]
    raw = lambda ws: [w.encode(enc) for w in ws]

    def chars(ws):
        b = b"".join(raw(ws))
        return numpy.frombuffer(b, dtype=numpy.uint8) if t.flag() else b
    counts = lambda ws: [len(x) for x in raw(ws)]
    a = awkward0.StringArray.fromiter(words, encoding=enc)
    t.note("words", words, enc)
    byts = False
    steps = t.between(2, 5)
    for k in range(steps):
        act = t.pick(["all", "content", "none", "encoding", "order", "bad"])
        t.note("step", act)
        if act == "all":
            words = [t.pick(["", "a", "bc", "xyz", "hello"]) for _ in range(t.between(1, 5))]
            off = numpy.cumsum([0] + counts(words))
            a.content = chars(words)
            if len(off) - 1 <= len(a.stops):
                a.starts = off[:-1]
                a.stops = off[1:]
            else:
                a.stops = off[1:]
                a.starts = off[:-1]
        elif act == "content":
            words = [t.pick([x for x in ["a", "b", "cd", "ef", "pqr", "uvw", "world", "", "hello"] if len(x) == len(w)]) for w in words]
            # the same lengths, in the same places
            b = bytearray(max([0] + [int(x) for x in a.stops]))
            for i, w in enumerate(raw(words)):
                b[int(a.starts[i]):int(a.stops[i])] = w
            a.content = bytes(b)
        elif act == "none":
            byts = True
            a.encoding = None
        elif act == "encoding":
            byts = False
            a.encoding = t.pick([enc, other_])
        elif act == "order":
            order = t.shuffle(list(range(len(words))))
            s, e = numpy.array(a.starts)[order], numpy.array(a.stops)[order]
            words = [words[i] for i in order]
            # lists in the meantime might end before they begin
            a.starts = numpy.zeros(len(words), dtype="int64")
            a.stops = e
            a.starts = s
        else:
            refuses(t, lambda: setattr(a, "encoding", "no-such-codec"), "an unknown codec", (LookupError,))
        # a string that occurs twice in the content may not be moved over by content
        want = raw(words) if byts else words
        t.note("words", words)
        if t.flag() or k == steps - 1:
            look(t, a, want, "after %s" % act)
            x = t.pick(want)
            expect(t, a == x, [y == x for y in want], "==")
            t.check(a.type.to is (bytes if byts else str), lambda: "type %s" % a.type)
    t.nontrivial = len(words) >= 2


def chunked(t):
    """chunks and chunk sizes; sizes that contradict the chunks are refused when read"""
    T = gen_type(t, t.below(2), ("num", "list", "str", "rec"))

    def draw():
        v, cs = [], []
        for _ in range(t.between(1, 4)):
            x, c = content(t, T, t.below(4))
            v.append(x)
            cs.append(c)
        return v, cs
    v, cs = draw()
    sizes = []
    a = ChunkedArray(cs)
    t.note("chunks", [describe(c) for c in cs])
    steps = t.between(2, 6)
    for k in range(steps):
        act = t.pick(["chunks", "both", "sizes", "bad", "copy"])
        t.note("step", act)
        if act in ("chunks", "both"):
            v, cs = draw()
            a.chunks = cs if t.flag() else iter(cs) if t.flag() else tuple(cs)
            sizes = []
            if act == "both":
                sizes = [len(x) for x in v][:t.below(len(v) + 1)]
                a.chunksizes = sizes if t.flag() else numpy.array(sizes, dtype=int)
        elif act == "sizes":
            sizes = [len(x) for x in v][:t.below(len(v) + 1)]
            if sizes and t.chance(0.3):
                i = t.below(len(sizes))
                sizes[i] += t.pick([1, 2, -1]) if sizes[i] else 1
            elif len(sizes) == len(v) and t.chance(0.2):
                sizes = sizes + [t.below(2)]
            a.chunksizes = list(sizes)
        elif act == "copy":
            a = a.copy()
        else:
            attr, bad = t.pick([("chunksizes", [-1]), ("chunksizes", [1.5]), ("chunksizes", ["a"]), ("chunksizes", 3), ("chunks", 3), ("chunks", None)])
            refuses(t, lambda: setattr(a, attr, bad), "%s %r" % (attr, bad))
        lens = [len(x) for x in v]
        good = list(sizes) == lens[:len(sizes)]
        t.note("chunks", v, "sizes", sizes)
        if t.flag() or k == steps - 1:
            flat = [y for x in v for y in x]
            if good and t.flag():
                t.check(a.valid(), lambda: "not valid: %s" % a.valid(message=True))
            if good:
                look(t, a, flat, "after %s" % act)
                o = [0]
                for x in lens:
                    o.append(o[-1] + x)
                expect(t, list(a.offsets), o, "offsets")
            else:
                t.feature("contradiction")
                t.check(a.valid() is False, "valid() is True although sizes and chunks disagree")
                got = attempt(lambda: tolist(a[:]))
                t.check(isinstance(got, Refused), lambda: "sizes %r for chunks of %r gave %r" % (sizes, lens, got))
    t.nontrivial = sum(len(x) for x in v) >= 2


def appendable(t):
    """chunk shape, dtype and chunks of appendable arrays"""
    dt = t.pick(NUMS[1:5])
    size = t.between(1, 4)
    a = AppendableArray(size, numpy.dtype(dt))
    want = []
    steps = t.between(2, 8)
    for k in range(steps):
        act = t.pick(["append", "append", "extend", "chunkshape", "chunks", "bad"])
        t.note("step", act)
        if act == "append":
            x = gen_num(t, dt)
            a.append(x)
            want.append(x)
        elif act == "extend":
            xs = [gen_num(t, dt) for _ in range(t.below(6))]
            a.extend(numpy.array(xs, dtype=dt))
            want += xs
        elif act == "chunkshape":
            size = t.between(1, 4)
            a.chunkshape = size if t.flag() else (size,)
            t.check(tuple(a.chunkshape) == (size,), "chunkshape")
        elif act == "chunks":
            cs = [[gen_num(t, dt) for _ in range(t.below(4))] for _ in range(t.below(4))]
            a.chunks = [numpy.array(x, dtype=dt) for x in cs]
            want = [y for x in cs for y in x]
        else:
            attr, bad = t.pick([("chunkshape", 0), ("chunkshape", -1), ("chunkshape", (0,)), ("chunkshape", (2, -1)), ("chunkshape", 1.5), ("chunkshape", None),
                                ("chunks", 5), ("chunks", [numpy.array([1], dtype="complex128")]), ("chunks", [numpy.zeros((2, 2), dtype=dt)]), ("chunksizes", [1])])
            refuses(t, lambda: setattr(a, attr, bad), "%s %r" % (attr, bad), (TypeError, ValueError, AttributeError))
        if t.flag() or k == steps - 1:
            look(t, a, want, "after %s" % act)
            if t.flag():
                expect(t, a + 1, (numpy.array(want, dtype=dt) + 1).tolist(), "a + 1", eq=close)
            t.check(len(a.chunks) == len(a.chunksizes) and all(0 <= n <= len(c) for n, c in zip(a.chunksizes, a.chunks)), lambda: "chunk sizes %r" % (a.chunksizes,))
    t.nontrivial = len(want) >= 2


def virtual(t):
    """attributes of virtual arrays before they are materialized"""
    n = t.between(1, 4)
    calls = []

    def g1(*args, **kwargs):
        calls.append(1)
        return numpy.arange(n) + sum(args) + 10 * sum(kwargs.values())

    def g2(*args, **kwargs):
        calls.append(2)
        return numpy.arange(n) * 2 + sum(args) + 10 * sum(kwargs.values())
    gen, args, kwargs, cache, tpe, nbytes, key = g1, (), {}, None, None, None, None
    a = VirtualArray(gen)
    steps = t.between(1, 6)
    for k in range(steps):
        act = t.pick(["generator", "args", "arg", "kwargs", "cache", "type", "nbytes", "key", "persist", "bad"])
        t.note("step", act)
        if act == "generator":
            gen = t.pick([g1, g2])
            a.generator = gen
        elif act == "args":
            args = tuple(t.below(5) for _ in range(t.below(3)))
            a.args = args
        elif act == "arg":
            args = (t.below(5),)
            a.args = args[0]
        elif act == "kwargs":
            kwargs = dict((x, t.below(5)) for x in ("k", "m")[:t.below(3)])
            a.kwargs = kwargs
        elif act == "cache":
            cache = t.pick([None, {}])
            a.cache = cache
        elif act == "type":
            tpe = t.pick([None, awkward0.type.ArrayType(n, numpy.dtype("int64"))])
            a.type = tpe
        elif act == "nbytes":
            nbytes = t.pick([None, 0, 12, numpy.int64(7)])
            a.nbytes = nbytes
        elif act == "key":
            key = t.pick([None, "k"])
            a.persistentkey = key
        elif act == "persist":
            p = t.flag()
            a.persistvirtual = p
            t.check(a.persistvirtual is p, "persistvirtual")
        else:
            attr, bad = t.pick([("generator", 3), ("generator", None), ("kwargs", [1]), ("cache", 3), ("cache", []), ("type", int), ("type", "int64"), ("type", numpy.dtype("int64")),
                                ("nbytes", -1), ("nbytes", 1.5), ("nbytes", "a"), ("persistentkey", 3), ("persistentkey", b"k"), ("persistvirtual", None), ("persistvirtual", 1)])
            if not (attr == "cache" and bad == []):
                refuses(t, lambda: setattr(a, attr, bad), "%s %r" % (attr, bad))
        t.check(a.generator is gen and a.args == args and dict(a.kwargs) == kwargs and a.cache is cache and a.persistentkey == key, "attributes")
        t.check(calls == [], "an assignment called the generator")
        if nbytes is not None:
            t.check(a.nbytes == nbytes, lambda: "nbytes %r, declared %r" % (a.nbytes, nbytes))
        if tpe is not None:
            t.check(len(a) == n and a.type == tpe, "declared type")
        t.check(calls == [], "the declared size or type called the generator")
    want = [(i if gen is g1 else 2 * i) + sum(args) + 10 * sum(kwargs.values()) for i in range(n)]
    look(t, a, want, "at last")
    t.check(calls == [1 if gen is g1 else 2], lambda: "generators called: %r" % (calls,))
    if cache is not None:
        t.check(len(cache) == 1 and (key is None or list(cache) == ["k"]), lambda: "the cache has %r" % (list(cache),))
    t.nontrivial = n >= 2 and steps >= 2


def tables(t):
    """contents, rowname and rowstart of tables"""
    def draw():
        names = t.shuffle(["x", "y", "z"])[:t.between(1, 3)]
        n = t.between(1, 4)
        return OrderedDict_((c, content(t, gen_type(t, t.below(2), ("num", "list", "str")), n + t.below(2))) for c in names)

    def model(d):
        n = min(len(v) for v, c in d.values())
        return [dict((k, v[i]) for k, (v, c) in d.items()) for i in range(n)]
    d = draw()
    a = Table(OrderedDict_((k, c) for k, (v, c) in d.items()))
    name, start = "Row", 0
    steps = t.between(2, 5)
    for k in range(steps):
        act = t.pick(["contents", "rowname", "rowstart", "bad", "copy"])
        t.note("step", act)
        if act == "contents":
            d = draw()
            a.contents = OrderedDict_((k, c) for k, (v, c) in d.items())
        elif act == "rowname":
            name = t.pick(["Row", "muon", "tuple"])
            a.rowname = name
        elif act == "rowstart":
            start = t.pick([None, 0, 5])
            a.rowstart = start
        elif act == "copy":
            b = a.copy()
            b.rowname, b.rowstart, b.contents = "other", 77, OrderedDict_(q=numpy.arange(2))
        else:
            attr, bad = t.pick([("rowname", 3), ("rowname", None), ("rowstart", 1.5), ("rowstart", "a"), ("contents", [1]), ("contents", {1: [1, 2]}), ("contents", None)])
            refuses(t, lambda: setattr(a, attr, bad), "%s %r" % (attr, bad))
        want = model(d)
        t.note("table", want)
        if t.flag() or k == steps - 1:
            rows = list(iter(a))
            t.check(len(rows) == len(want), "rows")
            if name != "tuple":
                look(t, a, want, "after %s" % act)
            else:
                expect(t, [dict((c, r[c]) for c in a.columns) for r in rows], want, "rows")
            t.check(sorted(a.columns) == sorted(d), lambda: "columns %r" % (a.columns,))
            t.check(a.rowname == name, "rowname")
            if rows:
                i = t.below(len(rows))
                t.check(repr(a[i]) == "<%s %d>" % (name, i + (start or 0)), lambda: "row %d is %r" % (i, a[i]))
    t.nontrivial = len(model(d)) >= 2


def OrderedDict_(*args, **kwargs):
    from collections import OrderedDict
    return OrderedDict(*args, **kwargs)


SUBS = [Sub("indexed", indexed, 5000), Sub("sparse", sparse, 5000), Sub("objects", objects, 3000), Sub("strings", strings, 3000), Sub("chunked", chunked, 4000),
        Sub("appendable", appendable, 3000), Sub("virtual", virtual, 3000), Sub("tables", tables, 3000),
        Sub("jagged", c10.setters, 8000), Sub("masked", c12.setters, 3000), Sub("unions", c26.reassigning, 3000)]
