"""C13: chunked and appendable arrays."""
import itertools
from .common import *
from .indexing import gen_index, gen_slice

ID = "C13"
RULE = ("a case draws values of a random type cut at random boundaries (empty, virtual, masked, indexed and nested chunks included) with any prefix of the chunk sizes known, "
        "or an appendable array, and a history of operations compared step by step with a Python list; non-trivial: at least two non-empty chunks (or two steps)")

LAY = ALL - frozenset(["chunked"])


def chunked(t, T, vals, lay=None, maxparts=5, note=True, plainchunks=False):
    cuts = splits(t, len(vals), maxparts)
    lay = lay or Layout(LAY, 0.3)
    chunks = []
    for i, j in zip(cuts[:-1], cuts[1:]):
        chunks.append(build(t, T, vals[i:j], Layout(PLAIN) if plainchunks else lay, t.below(2)))
    sizes = [j - i for i, j in zip(cuts[:-1], cuts[1:])]
    known = t.pick([0, 0, len(sizes), t.below(len(sizes) + 1)])
    if t.chance(0.1) and all(s > 0 for s in sizes):
        a = ChunkedArray(iter(chunks) if t.flag() else tuple(chunks), sizes[:known])
    else:
        a = ChunkedArray(chunks, sizes[:known])
    if note:
        t.note("chunks", sizes, "known", known, describe(a))
    if sum(1 for s in sizes if s) >= 2:
        t.nontrivial = True
    return a, sizes


def where_(sizes, i):
    """chunk and local position of a global position"""
    for c, s in enumerate(sizes):
        if i < s:
            return c, i
        i -= s
    raise AssertionError


def mixok(T):
    """types every chunk of which has the same high-level type whatever its layout and length"""
    return not has(T, "union")


def ctype(t):
    return t.wpick([(5, ("num", t.pick(NUMS))), (2, ("str",)), (1, ("bytes",)), (3, ("list", ("num", t.pick(NUMS[:4])))), (2, ("nd", t.pick(NUMS[:3]), (2,))),
                    (2, ("rec", (("x", ("num", "int64")), ("y", ("list", ("num", "float64")))))), (2, ("opt", ("num", "int64"))),
                    (1, ("list", ("list", ("num", "int64")))), (1, ("opt", ("list", ("num", "float64")))), (1, ("tup", (("num", "int64"), ("str",)))),
                    (1, ("list", ("rec", (("x", ("num", "int64")),)))), (1, ("list", ("str",)))])


READS = ("int", "int", "slice", "slice", "mask", "fancy", "g2c", "g2l", "l2g", "iter", "len", "know", "offsets", "str", "type", "copy", "chunkmask", "nested", "sizes", "partial", "step", "deepcopy", "sub")


def history(t):
    """histories of reads and selections with any prefix of the chunk sizes known"""
    T = ctype(t)
    n = t.length(10)
    vals = gen_values(t, T, n)
    t.note("type", tstr(T))
    t.note("values", vals)
    a, sizes = chunked(t, T, vals)
    want = plain(vals)
    n = len(vals)
    arrays = [a]
    for _ in range(t.between(1, 6)):
        a = t.pick(arrays)
        act = t.pick(READS)
        k = len(a._chunksizes)
        if act in ("int", "slice", "mask", "fancy"):
            w, desc, fn = gen_index(t, n, (act,))
            t.note(desc)
            got = attempt(lambda: a[w])
            if fn is None:
                t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "a[%s] gave %r" % (desc, got))
            else:
                t.check(not isinstance(got, Refused), lambda: "a[%s] raised %r" % (desc, got))
                expect(t, got, fn(want), "a[%s]" % desc)
        elif act == "step":
            s = gen_slice(t, n)
            u = gen_slice(t, len(want[s]))
            t.note(repr(s), repr(u))
            expect(t, a[s][u], want[s][u], "a[%r][%r]" % (s, u))
        elif act == "g2c":
            if n == 0:
                for i in (0, -1):
                    got = attempt(lambda: a.global2chunkid(i))
                    t.check(isinstance(got, Refused), lambda: "global2chunkid(%d) of nothing gave %r" % (i, got))
                continue
            ii = [t.below(2 * n) - n for _ in range(t.length(4))]
            t.note("global2chunkid", ii)
            for i in ii:
                expect(t, a.global2chunkid(i), where_(sizes, i % n)[0], "global2chunkid(%d)" % i)
                c, m = a.global2chunkid(i, return_normalized=True)
                expect(t, [c, m], [where_(sizes, i % n)[0], i % n], "global2chunkid(%d, return_normalized)" % i)
            c, m = a.global2chunkid(numpy.array(ii, dtype="int64"), return_normalized=True)
            expect(t, [c, m], [[where_(sizes, i % n)[0] for i in ii], [i % n for i in ii]], "global2chunkid(%r)" % ii)
            for i in (n, -n - 1):
                got = attempt(lambda: a.global2chunkid(i))
                t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "global2chunkid(%d) gave %r" % (i, got))
                got = attempt(lambda: a.global2chunkid(numpy.array([0, i])))
                t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "global2chunkid([0, %d]) gave %r" % (i, got))
        elif act == "g2l":
            if n == 0:
                continue
            ii = [t.below(2 * n) - n for _ in range(t.length(4))]
            t.note("global2local", ii)
            for i in ii:
                c, j = a.global2local(i)
                wc, wj = where_(sizes, i % n)
                t.check(c is a._chunks[wc] and j == wj, lambda: "global2local(%d) gave %r, %r" % (i, c, j))
                expect(t, c[j], want[i], "element at global2local(%d)" % i)
            cs, js = a.global2local(numpy.array(ii, dtype="int64"))
            t.check(len(cs) == len(ii) and all(x is a._chunks[where_(sizes, i % n)[0]] for x, i in zip(cs, ii)), lambda: "global2local(%r) chunks" % ii)
            expect(t, js, [where_(sizes, i % n)[1] for i in ii], "global2local(%r)" % ii)
        elif act == "l2g":
            cc = [c for c, s in enumerate(sizes) if s]
            if not cc:
                continue
            pairs = []
            for _ in range(1 + t.below(3)):
                c = t.pick(cc)
                pairs.append((t.below(2 * sizes[c]) - sizes[c], c))
            t.note("local2global", pairs)
            w = [sum(sizes[:c]) + i % sizes[c] for i, c in pairs]
            if t.flag():
                expect(t, a.local2global(numpy.array([i for i, c in pairs]), numpy.array([c for i, c in pairs])), w, "local2global(%r)" % pairs)
            for (i, c), x in zip(pairs, w):
                expect(t, a.local2global(i, c), x, "local2global(%d, %d)" % (i, c))
                expect(t, a[a.local2global(i, c)], want[x], "element at local2global(%d, %d)" % (i, c))
            c = t.pick(range(len(sizes)))
            for bad in (sizes[c], -sizes[c] - 1):
                got = attempt(lambda: a.local2global(bad, c))
                t.check(isinstance(got, Refused), lambda: "local2global(%d, %d) gave %r" % (bad, c, got))
                got = attempt(lambda: a.local2global([bad], [c]))
                t.check(isinstance(got, Refused), lambda: "local2global([%d], [%d]) gave %r" % (bad, c, got))
        elif act == "iter":
            expect(t, [x for x in a], want, "iteration")
        elif act == "partial":
            m = t.below(n + 1)
            t.note("iterate", m)
            it = iter(a)
            for i in range(m):
                expect(t, next(it), want[i], "iteration %d" % i)
            if t.flag():
                expect(t, [x for x in a], want, "second iteration")
            expect(t, [x for x in it], want[m:], "iteration continued")
        elif act == "len":
            t.check(len(a) == n, lambda: "len %d" % len(a))
            t.check(a.chunksizesknown, "sizes not known after len")
        elif act == "know":
            u = t.pick([None, 0, 1, 2, 7])
            t.note("knowchunksizes", u)
            a.knowchunksizes(u) if u is not None else a.knowchunksizes()
            m = len(sizes) if u is None else min(u, len(sizes))
            t.check(len(a.chunksizes) >= m, lambda: "knowchunksizes(%r) knows %r" % (u, a.chunksizes))
        elif act == "offsets":
            a.knowchunksizes()
            expect(t, a.offsets, [0] + list(itertools.accumulate(sizes)), "offsets")
        elif act == "str":
            str(a), repr(a)
        elif act == "type":
            if n:
                t.check(gottype(a.type) == ("array", n, wanttype(T)), lambda: "type %r" % (gottype(a.type),))
            if mixok(T):
                for i in range(len(sizes)):
                    a.knowtype(i)
                t.check(a.typesknown, "types not known")
        elif act in ("copy", "deepcopy"):
            arrays.append(a.copy() if act == "copy" else a.deepcopy())
        elif act == "chunkmask":
            m = [t.flag() for _ in range(n)]
            cuts = [0] + list(itertools.accumulate(sizes))
            mask = ChunkedArray([numpy.array(m[i:j], dtype=bool) for i, j in zip(cuts[:-1], cuts[1:])])
            t.note("chunked mask", m)
            expect(t, a[mask], [x for x, b in zip(want, m) if b], "a[chunked mask]")
            ii = ChunkedArray([numpy.arange(s)[::-1] for s in sizes])
            got = attempt(lambda: a[ii])
            if not isinstance(got, Refused):
                expect(t, got, [x for i, j in zip(cuts[:-1], cuts[1:]) for x in want[i:j][::-1]], "a[chunked positions]")
        elif act == "nested":
            if T[0] == "list":
                j = gen_slice(t, 3)
                t.note("inner slice", repr(j))
                expect(t, a[:, j], [x[j] for x in want], "a[:, %r]" % j)
                s = gen_slice(t, n)
                expect(t, a[s, j], [x[j] for x in want[s]], "a[%r, %r]" % (s, j))
                if n and all(len(x) for x in want):
                    expect(t, a[:, 0], [x[0] for x in want], "a[:, 0]")
                    i = t.below(n)
                    expect(t, a[i, -1], want[i][-1], "a[%d, -1]" % i)
            elif T[0] == "nd":
                j = t.below(T[2][0])
                s = gen_slice(t, n)
                expect(t, a[s, j], [x[j] for x in want[s]], "a[%r, %d]" % (s, j))
                if n:
                    ii = [t.below(n) for _ in range(3)]
                    expect(t, a[ii, :], [want[i] for i in ii], "a[%r, :]" % ii)
            elif T[0] == "rec":
                expect(t, a["x"], [x["x"] for x in want], "a['x']")
                expect(t, a[["y"]], [{"y": x["y"]} for x in want], "a[['y']]")
                s = gen_slice(t, n)
                expect(t, a[s]["x"], [x["x"] for x in want[s]], "a[%r]['x']" % s)
                expect(t, a["x"][s], [x["x"] for x in want[s]], "a['x'][%r]" % s)
        elif act == "sizes":
            t.check(list(a.chunksizes) == sizes[:len(a.chunksizes)], lambda: "chunksizes %r" % a.chunksizes)
            t.check(a.chunksizesknown == (len(a.chunksizes) == len(sizes)), "chunksizesknown")
        elif act == "sub":
            s = gen_slice(t, n)
            b = a[s]
            t.note("sub-array", repr(s))
            expect(t, b, want[s], "a[%r]" % s)
            if want[s]:
                i = t.below(len(want[s]))
                expect(t, b[i], want[s][i], "a[%r][%d]" % (s, i))
                expect(t, b[i - len(want[s])], want[s][i], "a[%r][%d]" % (s, i - len(want[s])))
                mm = [t.flag() for _ in want[s]]
                expect(t, b[numpy.array(mm)], [x for x, y in zip(want[s], mm) if y], "a[%r][mask]" % s)
        if act not in ("copy", "deepcopy"):
            t.check(list(a._chunksizes) == sizes[:len(a._chunksizes)], lambda: "chunk sizes became %r" % (a._chunksizes,))
    for a in arrays:
        expect(t, a, want, "tolist at the end")


def convert(t):
    """whole-array operations equal those of one contiguous array"""
    T = ctype(t)
    vals = gen_values(t, T, t.length(10))
    t.note("type", tstr(T))
    t.note("values", vals)
    a, sizes = chunked(t, T, vals)
    b = build(t, T, vals, Layout(PLAIN), 0)
    ops = [("tolist", lambda x: x)]
    if T[0] in ("num", "nd"):
        ops += [("numpy.array", lambda x: numpy.array(x)), ("float32", lambda x: numpy.array(x, dtype="float32")), ("x+1", lambda x: x + 1), ("astype", lambda x: x.astype("float64")),
                ("x<x", lambda x: x < x), ("modf", lambda x: numpy.modf(x)[0]), ("modf", lambda x: numpy.modf(x)[1])]
        if len(vals):
            ops += [("dtype", lambda x: str(x.dtype)), ("shape", lambda x: list(x.shape)), ("size", lambda x: int(x.size)), ("ndim", lambda x: x.ndim)]
    if T[0] == "num":
        ops += [("sum", lambda x: x.sum()), ("min", lambda x: x.min() if len(x) else None), ("max", lambda x: x.max() if len(x) else None), ("any", lambda x: x.any()), ("all", lambda x: x.all()),
                ("argmax", lambda x: x.argmax() if len(x) else None), ("argmin", lambda x: x.argmin() if len(x) else None),
                ("in jagged", lambda x: JaggedArray.fromcounts([len(x)], x).sum()), ("in table", lambda x: Table(q=x)), ("in masked", lambda x: MaskedArray(numpy.zeros(len(x), bool), x))]
    if T[0] == "list":
        ops += [("counts", lambda x: x.counts), ("flatten", lambda x: x.flatten()), ("pad", lambda x: x.pad(2)), ("clip", lambda x: x.pad(1, clip=True))]
        if T[1][0] == "num":
            ops += [("sum", lambda x: x.sum()), ("max", lambda x: x.max()), ("argmax", lambda x: x.argmax()), ("count", lambda x: x.count()), ("all", lambda x: x.all()),
                    ("distincts", lambda x: x.distincts()), ("pairs", lambda x: x.pairs()), ("choose", lambda x: x.choose(2)), ("argpairs", lambda x: x.argpairs()),
                    ("argdistincts", lambda x: x.argdistincts()), ("nested pairs", lambda x: x.pairs(nested=True)), ("argchoose", lambda x: x.argchoose(2)), ("choose 3", lambda x: x.choose(3)), ("nested argpairs", lambda x: x.argpairs(nested=True)),
                    ("nested distincts", lambda x: x.distincts(nested=True)), ("nested argdistincts", lambda x: x.argdistincts(nested=True)), ("argmin", lambda x: x.argmin()),
                    ("count_nonzero", lambda x: x.count_nonzero()), ("prod", lambda x: x.prod()), ("min", lambda x: x.min()), ("any", lambda x: x.any()), ("var", lambda x: x.var()), ("mean", lambda x: x.mean()), ("x+1", lambda x: x + 1)]
    if T[0] == "opt":
        ops += [("boolmask", lambda x: x.boolmask(maskedwhen=True)), ("isunmasked", lambda x: x.isunmasked), ("fillna", lambda x: x.fillna(7)) if T[1][0] == "num" else ops[0]]
        if T[1][0] == "num":
            ops += [("sum", lambda x: x.sum()), ("x*2", lambda x: x * 2), ("count", lambda x: x.count())]
    if T[0] == "rec":
        ops += [("columns", lambda x: list(x.columns)), ("x.x+1", lambda x: x["x"] + 1), ("y.sum", lambda x: x["y"].sum())]
    name, op = t.pick(ops)
    if name == "columns" and not vals:
        return
    t.note("operation", name)
    if isinstance(b, numpy.ndarray) and name in ("sum", "min", "max", "any", "all", "argmax", "argmin", "in jagged") and T[1] not in ("int64", "float64", "bool"):
        pass
    want = attempt(lambda: tolist(op(b)))
    got = attempt(lambda: tolist(op(a)))
    if isinstance(want, Refused) or isinstance(got, Refused):
        t.check(isinstance(want, Refused) and isinstance(got, Refused), lambda: "%s: %r chunked, %r contiguous" % (name, got, want))
        return
    expect(t, got, want, name, eq=lambda x, y: close(x, y, 1e-5) or (name in ("min", "max") and isinstance(y, bool) and x == float(y)))
    expect(t, a, plain(vals), "afterwards")


def joins(t):
    """concatenation of arrays chunked differently, and element-wise operations between different chunkings"""
    T = ctype(t)
    v1 = gen_values(t, T, t.length(6))
    v2 = gen_values(t, T, t.length(6))
    t.note("type", tstr(T))
    t.note("values", v1, v2)
    a, s1 = chunked(t, T, v1)
    b, s2 = chunked(t, T, v2)
    expect(t, a.concatenate([b]), plain(v1 + v2), "a.concatenate([b])")
    c = AwkwardArray.concatenate([a, b, a])
    expect(t, c, plain(v1 + v2 + v1), "concatenate([a, b, a])")
    n = len(v1 + v2 + v1)
    if n:
        i = t.below(n)
        expect(t, c[i], plain((v1 + v2 + v1)[i]), "[%d]" % i)
    d1, d2 = t.pick(NUMS[:4]), t.pick(NUMS[:4])
    n = t.length(9)
    x = [gen_num(t, d1) for _ in range(n)]
    y = [gen_num(t, d2) for _ in range(n)]
    t.note("numbers", d1, x, d2, y)
    p, s1 = chunked(t, ("num", d1), x, plainchunks=True)
    q, s2 = chunked(t, ("num", d2), y, plainchunks=True)
    p2 = ChunkedArray(list(p.chunks)) if t.flag() else p
    X, Y = numpy.array(x, dtype=d1), numpy.array(y, dtype=d2)
    f = t.pick([numpy.add, numpy.less_equal, numpy.multiply, numpy.maximum, numpy.not_equal])
    t.note(f.__name__)
    expect(t, f(p, q), f(X, Y).tolist(), "%s of two chunkings" % f.__name__)
    expect(t, f(p2, Y), f(X, Y).tolist(), "%s with a Numpy array" % f.__name__)
    expect(t, f(X, q), f(X, Y).tolist(), "%s of a Numpy array" % f.__name__)
    r = f(p, q)
    if isinstance(r, ChunkedArray):
        r.knowchunksizes()
        t.check(list(r.chunksizes) == s1, lambda: "result has chunk sizes %r rather than the first argument's %r" % (r.chunksizes, s1))
    if n:
        for bad in (Y[:-1], numpy.append(Y, Y[:1])):
            if len(bad) != 1 and len(X) != 1:
                got = attempt(lambda: tolist(f(p, bad)))
                t.check(isinstance(got, Refused), lambda: "%s of lengths %d and %d gave %r" % (f.__name__, n, len(bad), got))


def aligned(t):
    """cross of jagged arrays with equal chunking; others are refused"""
    n = t.length(7)
    S = ("num", "int64")
    v1 = [gen_value(t, ("list", S), False, 3) for _ in range(n)]
    v2 = [gen_value(t, ("list", S), False, 3) for _ in range(n)]
    cuts = splits(t, n, 4)
    lay = Layout(frozenset(["scatter", "gap", "npstride", "longstops", "idt", "farempty", "virtual"]), 0.3)
    mk = lambda v, c: ChunkedArray([build(t, ("list", S), v[i:j], lay, 1) for i, j in zip(c[:-1], c[1:])])
    a, b = mk(v1, cuts), mk(v2, cuts)
    t.note("values", v1, v2, "cuts", cuts)
    t.nontrivial = len(set(cuts)) > 2
    if t.flag():
        len(a)
    expect(t, a.cross(b), [[(p, q) for p in x for q in y] for x, y in zip(v1, v2)], "cross")
    expect(t, a.cross(b, nested=True), [[[(p, q) for q in y] for p in x] for x, y in zip(v1, v2)], "cross nested")
    expect(t, a.argcross(b, nested=True), [[[(p, q) for q in range(len(y))] for p in range(len(x))] for x, y in zip(v1, v2)], "argcross nested")
    expect(t, a.argcross(b), [[(p, q) for p in range(len(x)) for q in range(len(y))] for x, y in zip(v1, v2)], "argcross")
    other = splits(t, n, 4)
    if other != cuts:
        c = mk(v2, other)
        got = attempt(lambda: tolist(a.cross(c)))
        t.check(isinstance(got, Refused) or same(got, [[(p, q) for p in x for q in y] for x, y in zip(v1, v2)]), lambda: "cross with other chunks gave %r" % (got,))
        got = attempt(lambda: tolist(a.argcross(c)))
        t.check(isinstance(got, Refused) or same(got, [[(p, q) for p in range(len(x)) for q in range(len(y))] for x, y in zip(v1, v2)]), lambda: "argcross with other chunks gave %r" % (got,))


def columns(t):
    """assigning and deleting columns of chunked tables"""
    n = t.length(8)
    cuts = splits(t, n, 4)
    sizes = [j - i for i, j in zip(cuts[:-1], cuts[1:])]
    part = lambda v, dt: [numpy.array(v[i:j], dtype=dt) for i, j in zip(cuts[:-1], cuts[1:])]
    model = {"x": [gen_num(t, "int64") for _ in range(n)], "y": [gen_num(t, "float64") for _ in range(n)]}
    tabs = [Table(x=x, y=y) for x, y in zip(part(model["x"], "int64"), part(model["y"], "float64"))]
    a = ChunkedArray(tabs, sizes[:t.below(len(sizes) + 1)])
    t.note("cuts", cuts, "model", dict(model))
    t.nontrivial = len([s for s in sizes if s]) > 1
    rows = lambda: [dict((k, model[k][i]) for k in model) for i in range(n)]
    for _ in range(t.between(1, 5)):
        act = t.pick(["set", "set", "del", "read", "type", "bad", "slice", "dellist"])
        t.note(act)
        if act == "set":
            k = t.pick(["x", "y", "z", "w"])
            dt = t.pick(["int64", "float64", "bool"])
            v = [gen_num(t, dt) for _ in range(n)]
            t.note(k, v)
            a[k] = ChunkedArray(part(v, dt))
            model[k] = v
        elif act == "del" and len(model) > 1:
            k = t.pick(sorted(model))
            t.note(k)
            del a[k]
            del model[k]
        elif act == "dellist" and len(model) > 2:
            ks = t.shuffle(sorted(model))[:2]
            t.note(ks)
            del a[ks]
            for k in ks:
                del model[k]
        elif act == "type" and n:
            got = gottype(a.type.to)
            t.check(got[0] == "rec" and sorted(x for x, _ in got[1]) == sorted(model), lambda: "type %r, columns %r" % (got, sorted(model)))
        elif act == "bad":
            v = ChunkedArray([numpy.arange(n + 1)])
            got = attempt(lambda: a.__setitem__("q", v))
            t.check(isinstance(got, Refused), "a column with other chunk sizes was accepted")
            t.check("q" not in a.columns, "refused column appeared")
        elif act == "slice":
            s = gen_slice(t, n)
            expect(t, a[s], rows()[s], "a[%r]" % s)
        if n:
            t.check(sorted(a.columns) == sorted(model), lambda: "columns %r" % (a.columns,))
        expect(t, a, rows(), "rows after %s" % act)
        k = t.pick(sorted(model))
        expect(t, a[k], model[k], "column %s" % k)


def append(t):
    """a stateful model of an appendable array"""
    dt = t.pick(["int64", "float64", "bool", "int32"])
    shape = t.pick([(), (), (2,), (1, 2)])
    size = t.pick([1, 2, 3, 4, 7])
    T = ("num", dt) if not shape else ("nd", dt, shape)
    how = t.below(3)
    model = []
    if how == 0:
        a = AppendableArray(size if not shape else (size,) + shape, dt)
    elif how == 1:
        a = AppendableArray((size,) + shape, numpy.dtype(dt))
    else:
        parts = [gen_values(t, T, t.length(3)) for _ in range(t.below(3))]
        given = [numpy.array(p, dtype=dt).reshape((len(p),) + shape) for p in parts]
        keep = [x.copy() for x in given]
        a = AppendableArray((size,) + shape, dt, given)
        model = [x for p in parts for x in p]
    t.note("chunkshape", (size,) + shape, "dtype", dt, "start", list(model))
    state = [(a, model)]
    frozen = []
    steps = t.between(2, 8)
    t.nontrivial = True
    for _ in range(steps):
        k = t.below(len(state))
        a, model = state[k]
        act = t.pick(["append", "append", "extend", "extend", "read", "slice", "copy", "deepcopy", "ufunc", "keep", "sum", "index", "self", "serialize", "array", "astype", "type", "extendlist"])
        t.note("array %d" % k, act)
        n = len(model)
        if act == "append":
            v = gen_value(t, T)
            t.note(v)
            a.append(v)
            model.append(v)
        elif act in ("extend", "extendlist"):
            v = gen_values(t, T, t.length(9))
            t.note(v)
            a.extend(v if act == "extendlist" else numpy.array(v, dtype=dt).reshape((len(v),) + shape))
            model.extend(v)
        elif act == "self":
            if n < 20:
                a.extend(a)
                model.extend(list(model))
        elif act == "slice":
            s = gen_slice(t, n)
            expect(t, a[s], model[s], "a[%r]" % s)
            frozen.append((a[s], list(model[s]), "slice %r taken earlier" % s))
        elif act == "index":
            w, desc, fn = gen_index(t, n)
            got = attempt(lambda: a[w])
            if fn is None:
                t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "a[%s] gave %r" % (desc, got))
            else:
                t.check(not isinstance(got, Refused), lambda: "a[%s] raised %r" % (desc, got))
                expect(t, got, fn(model), "a[%s]" % desc)
                if not desc.startswith("int"):
                    frozen.append((got, fn(model), "selection %s taken earlier" % desc))
        elif act == "copy":
            state.append((a.copy(), list(model)))
        elif act == "deepcopy":
            state.append((a.deepcopy(), list(model)))
        elif act == "ufunc":
            if dt != "bool":
                r = a + 1
                expect(t, r, (numpy.array(model, dtype=dt).reshape((n,) + shape) + 1).tolist(), "a + 1")
                frozen.append((r, (numpy.array(model, dtype=dt).reshape((n,) + shape) + 1).tolist(), "a + 1 taken earlier"))
        elif act == "keep":
            frozen.append((a[:], list(model), "a[:] taken earlier"))
        elif act == "sum":
            if not shape:
                expect(t, a.sum(), sum(model), "sum")
                expect(t, a.count(), n, "count")
        elif act == "serialize":
            st = {}
            awkward0.persist.serialize(a, st, "q")
            expect(t, awkward0.persist.deserialize(st, "q"), list(model), "stored and loaded")
        elif act == "array":
            x = numpy.array(a)
            t.check(x.shape == (n,) + shape, lambda: "numpy.array has shape %r" % (x.shape,))
            expect(t, x, list(model), "numpy.array")
        elif act == "astype":
            expect(t, a.astype("float64"), numpy.array(model, dtype="float64").reshape((n,) + shape).tolist(), "astype")
        elif act == "type":
            t.check(gottype(a.type) == ("array", n, wanttype(T)), lambda: "type %r" % (gottype(a.type),))
            t.check(len(a) == n and tuple(a.shape) == (n,) + shape, lambda: "shape %r" % (a.shape,))
            expect(t, a.offsets[-1], n, "last offset")
        expect(t, a, list(model), "values after %s" % act)
        t.check(len(a) == len(model), lambda: "len %d" % len(a))
    for i, (a, model) in enumerate(state):
        expect(t, a, list(model), "array %d at the end" % i)
    for x, w, what in frozen:
        expect(t, x, w, what)
    if how == 2:
        for x, y in zip(given, keep):
            t.check(numpy.array_equal(x, y), "a chunk given by the user was modified")


def malformed(t):
    """contradictory chunk sizes and indexes are refused"""
    sizes = [t.below(4) for _ in range(t.between(1, 4))]
    chunks = [numpy.arange(s) + 1 for s in sizes]
    kind = t.pick(["wrong", "toomany", "types", "negative", "float", "notiter", "sizes later", "columns"])
    t.note(kind, sizes)
    t.nontrivial = True
    use = t.pick([lambda a: a.tolist(), lambda a: a[0], lambda a: a[:1], lambda a: a + 1, lambda a: a.sum()])
    if kind == "wrong":
        bad = list(sizes)
        i = t.below(len(bad))
        bad[i] = bad[i] + 1 + t.below(2) if t.flag() or bad[i] == 0 else bad[i] - 1
        make = lambda: ChunkedArray(chunks, bad)
        use = t.pick([lambda a: a[0], lambda a: a[:1], lambda a: a + 1, lambda a: a.sum(), lambda a: a.global2chunkid(0)])
    elif kind == "toomany":
        make = lambda: ChunkedArray(chunks, sizes + [t.below(3)])
        use = lambda a: a[:1]
    elif kind == "types":
        make = lambda: ChunkedArray([numpy.arange(3), numpy.arange(2) * 1.5] if t.flag() else [numpy.arange(3), JaggedArray.fromiter([[1], []])])

        def use(a):
            a.knowtype(0), a.knowtype(1)
            return a[:1]
    elif kind == "negative":
        make = lambda: ChunkedArray(chunks, [-1])
    elif kind == "float":
        make = lambda: ChunkedArray(chunks, [1.5])
    elif kind == "notiter":
        make = lambda: ChunkedArray(5) if t.flag() else ChunkedArray(chunks, 5)
    elif kind == "sizes later":
        def make():
            a = ChunkedArray(chunks)
            a.tolist()
            a.chunksizes = [s + 1 for s in sizes]
            return a
        use = lambda a: a[:1]
    else:
        make = lambda: AppendableArray(3, "int64", [numpy.arange(3) * 1.5])
    got = attempt(lambda: use(make()))
    t.check(isinstance(got, Refused), lambda: "%s was accepted: %r" % (kind, tolist(got)))
    t.evals += 1


SUBS = [Sub("history", history, 12000), Sub("convert", convert, 8000), Sub("joins", joins, 3000), Sub("aligned", aligned, 800), Sub("columns", columns, 3000),
        Sub("append", append, 6000), Sub("malformed", malformed, 800)]
