"""C22: copy, deepcopy, *_like, astype and nbytes."""
from collections import OrderedDict

import numpy
from .common import *
from .c20 import owners

ID = "C22"
RULE = ("a case builds an array of any type and layout and copies it (shallow, deep, with parameters replaced), makes arrays like it, converts its numbers, or counts its bytes; "
        "non-trivial: at least 2 elements and a type or layout beyond a plain numeric array")


def jtype(x):
    try:
        return gottype(awkward0.type.fromarray(x).to)
    except Exception as err:
        return Refused(err)


def sametype(t, got, want, what):
    a, b = awkward0.type.fromarray(got), awkward0.type.fromarray(want)
    t.check(a == b and gottype(a) == gottype(b), lambda: "%s has type %r, expected %r" % (what, a, b))


def dense(T, v, f):
    """v with every number replaced"""
    k = T[0]
    if k == "union":
        return dense(T[1][v.tag], v.val, f)
    if k == "num":
        return f(T[1], v)
    if k == "nd":
        def rec(x, d):
            return [rec(y, d - 1) for y in x] if d else f(T[1], x)
        return rec(v, len(T[2]))
    if k == "str":
        return f("str", v)
    if k == "bytes":
        return f("bytes", v)
    if k == "list":
        return [dense(T[1], x, f) for x in v]
    if k == "rec":
        return dict((n, dense(S, v[n], f)) for n, S in T[1])
    if k == "tup":
        return tuple(dense(S, x, f) for S, x in zip(T[1], v))
    if k == "opt":
        return None if v is None else dense(T[1], v, f)
    if k == "obj":
        return Obj(dense(T[1], v.src, f), T[2], T[3])
    raise AssertionError(T)


# ------------------------------------------------------------------ copies

def copies(t):
    """copy and deepcopy are equal to their source"""
    T, values, a = sample(t, maxlen=5)
    want = plain(values)
    how = t.below(3)
    b = a.copy() if how == 0 else (a.deepcopy() if how == 1 and isinstance(a, AwkwardArray) else a.copy())
    t.note("how", ("copy", "deepcopy", "twice")[how])
    if how == 2:
        b = b.copy() if t.flag() or not isinstance(b, AwkwardArray) else b.deepcopy()
    t.check(type(b) is type(a), lambda: "the copy is a %s" % type(b).__name__)
    t.check(b is not a, "the copy is the array itself")
    t.check(len(b) == len(want), "length")
    if not has(T, "union") and not ("view" in t.features and t.features & {"chunked", "appendable", "sparse"}):
        sametype(t, b, a, "the copy")
    expect(t, b, want, "the copy", strict=True)
    expect(t, a, want, "the array after copying", strict=True)
    if isinstance(a, AwkwardArray):
        t.check(b.columns == a.columns, "columns")
        r1, r2 = attempt(lambda: a.valid(message=True)), attempt(lambda: b.valid(message=True))
        t.check(repr(r1) == repr(r2), lambda: "valid: %r and %r" % (r1, r2))
        if t.chance(0.3):
            # whatever can be asked of the array can be asked of the copy
            for k in sorted(k for k in dir(type(a)) if not k.startswith("_") and k != "dtype" and isinstance(getattr(type(a), k, None), property)):
                r1, r2 = attempt(lambda: getattr(a, k)), attempt(lambda: getattr(b, k))
                t.check(isinstance(r1, Refused) == isinstance(r2, Refused), lambda: "%s of the copy: %r, of the array: %r" % (k, r2, r1))
    # what is done to the copy is right and stays in the copy
    n = len(want)
    if n:
        i = t.below(n)
        expect(t, b[i], want[i], "element of the copy")
        lo, hi = t.below(n), t.below(n + 1)
        expect(t, b[lo:hi], want[lo:hi], "slice of the copy")


def ruin(x, seen):
    """overwrite every buffer and shorten every list reachable from x"""
    out = []
    owners(x, {}, out)
    for y in out:
        if y.flags.writeable and y.size:
            if y.dtype.kind in "iu":
                y[...] = 113
            elif y.dtype.kind == "b":
                y[...] = ~y
            elif y.dtype.kind == "f":
                y[...] = -12345.0

    def nodes(z):
        if id(z) in seen:
            return
        seen[id(z)] = z
        if isinstance(z, AwkwardArray):
            for k, y in list(z.__dict__.items()):
                nodes(y)
                if isinstance(z, Table) and k == "_contents" or isinstance(z, (ChunkedArray, UnionArray)) and k in ("_chunks", "_contents", "_chunksizes"):
                    if isinstance(y, list):
                        del y[:]
                    elif isinstance(y, dict):
                        y.clear()
        elif isinstance(z, (list, tuple)):
            for y in list(z):
                nodes(y)
        elif isinstance(z, dict):
            for y in list(z.values()):
                nodes(y)
    nodes(x)


def deep(t):
    """whatever happens to the source, a deep copy stays as it was (and the other way around)"""
    T, values, a = sample(t, maxlen=5, lay=Layout(ALL - {"virtual"}, p=0.4))
    if not isinstance(a, AwkwardArray):
        return
    want = plain(values)
    if t.flag():
        # caches that the copy takes along
        attempt(lambda: len(a))
        for name in ("offsets", "counts", "parents", "index", "inverse"):
            if t.flag():
                attempt(lambda: getattr(a, name))
    b = a.deepcopy()
    if t.flag():
        a, b = b, a
    ruin(a, {})
    t.check(type(b) is type(a), "class")
    t.check(len(b) == len(want), lambda: "length %d, expected %d" % (len(b), len(want)))
    expect(t, b, want, "the deep copy after its source was overwritten", strict=True)


def columns(t):
    """columns assigned to, or deleted from, a copy of a table do not appear in the source"""
    T = ("rec", tuple((n, gen_type(t, t.below(2))) for n in NAMES[:t.between(1, 3)]))
    values = gen_values(t, T, t.length(4))
    a = build(t, T, values, Layout(ALL - {"view", "longcol"}, p=0.3), wrap=0)
    n = len(values)
    t.note("table", describe(a))
    b = a.copy() if t.flag() else a.deepcopy()
    # two independent records of what each table holds
    ref = [dict(plain(v)) for v in values], [dict(plain(v)) for v in values]
    for step in range(t.between(1, 4)):
        k = t.below(2)
        x = (a, b)[k]
        k2 = t.below(4)
        if k2 == 0 and len(x.columns) > 1:
            c = t.pick(x.columns)
            t.note("delete", k, c)
            del x[c]
            for r in ref[k]:
                del r[c]
        elif k2 == 1:
            c = t.pick(NAMES)
            new = gen_values(t, ("num", "int64"), n)
            t.note("contents", k, c)
            x.contents = dict((m, x._contents[m]) for m in x.columns if m != c)
            x[c] = numpy.array(new, dtype=int)
            for r, y in zip(ref[k], new):
                r[c] = y
        else:
            c = t.pick(NAMES)
            S = gen_type(t, 1)
            new = gen_values(t, S, n)
            t.note("assign", k, c, plain(new))
            x[c] = build(t, S, new, Layout(p=0.3), wrap=1)
            for r, y in zip(ref[k], plain(new)):
                r[c] = y
        for y, w, what in ((a, ref[0], "the source"), (b, ref[1], "the copy")):
            t.check(set(y.columns) == set(w[0]) if n else True, lambda: "%s has columns %r" % (what, y.columns))
            expect(t, y, w, what)
    t.nontrivial = n >= 2


# ------------------------------------------------------------------ parameters replaced

def overrides(t):
    """copy(x=...) is the array built with that parameter instead"""
    S = gen_type(t, t.below(2), kinds=("num", "list", "rec", "str", "opt", "tup"))
    n = t.between(1, 5)
    deepc = t.flag()
    cont = lambda m, U=S: build(t, U, gen_values(t, U, m), Layout(p=0.2), wrap=0)
    k = t.below(10)
    if k == 9:
        names = NAMES[:t.between(1, 3)]
        cols = lambda: dict((c, cont(n + t.below(2))) for c in names)
        old, new = {"contents": cols()}, {"contents": cols()}
        cls = Table
        old, new = {"contents": cols()}, {"contents": t.pick([lambda d: d, lambda d: list(d.items()), lambda d: OrderedDict(d)])(cols())}
    elif k == 0:
        m = t.between(1, 6)
        pair = lambda: sorted([t.below(m + 1), t.below(m + 1)])
        def se():
            p = [pair() for _ in range(n)]
            return numpy.array([x[0] for x in p]), numpy.array([x[1] for x in p])
        s, e = se()
        old = {"starts": s, "stops": e, "content": cont(m)}
        s, e = se()
        new = t.pick([{"content": cont(m + t.below(2))}, {"starts": s, "stops": e}, {"starts": s, "stops": e, "content": cont(m)}, {"starts": numpy.zeros(n, dtype=int)}, {"stops": numpy.full(n, m)}])
        cls = JaggedArray
    elif k == 1:
        old = {"mask": numpy.array([t.flag() for _ in range(n)]), "content": cont(n), "maskedwhen": t.flag()}
        new = t.pick([{"mask": numpy.array([t.flag() for _ in range(n)])}, {"content": cont(n + t.below(2))}, {"maskedwhen": t.flag()}, {"mask": numpy.array([t.flag() for _ in range(n)]), "maskedwhen": t.flag()}])
        cls = MaskedArray
    elif k == 2:
        m = numpy.array([t.below(256) for _ in range((n + 7) // 8)], dtype="uint8")
        m2 = numpy.array([t.below(256) for _ in range((n + 7) // 8)], dtype="uint8")
        old = {"mask": m, "content": cont(n), "maskedwhen": t.flag(), "lsborder": t.flag()}
        new = t.pick([{"mask": m2}, {"content": cont(n)}, {"maskedwhen": t.flag()}, {"lsborder": t.flag()}, {"mask": m2, "lsborder": t.flag()}])
        cls = BitMaskedArray
    elif k == 3:
        m = t.between(1, 4)
        ii = lambda w: numpy.array([t.below(m) if t.chance(0.7) else w for _ in range(n)])
        w = t.pick([-1, -1, 99])
        old = {"mask": ii(w), "content": cont(m), "maskedwhen": w}
        new = t.pick([{"mask": ii(w)}, {"content": cont(m)}, {"mask": ii(-2), "maskedwhen": -2}])
        cls = IndexedMaskedArray
    elif k == 4:
        m = t.between(1, 4)
        ii = lambda: numpy.array([t.below(m) for _ in range(t.length(5))], dtype=int)
        old = {"index": ii(), "content": cont(m)}
        new = t.pick([{"index": ii()}, {"content": cont(m + t.below(2))}, {"index": ii(), "content": cont(m)}])
        cls = IndexedArray
    elif k == 5:
        pos = sorted(set(t.below(n) for _ in range(t.below(4))))
        dt = t.pick(NUMS[:4])
        num = lambda: build(t, ("num", dt), gen_values(t, ("num", dt), len(pos)), Layout(frozenset()), wrap=0)
        old = {"length": n, "index": numpy.array(pos, dtype=int), "content": num()}
        if t.flag():
            old["default"] = numpy.dtype(dt).type(gen_num(t, dt))
        pos2 = sorted(set(t.below(n) for _ in range(len(pos))))
        new = t.pick([{"length": n + t.below(3)}, {"content": num()}, {"default": numpy.dtype(dt).type(gen_num(t, dt))}] + ([{"index": numpy.array(pos2, dtype=int)}] if len(pos2) == len(pos) else []))
        cls = SparseArray
    elif k == 6:
        j = t.between(1, 3)
        ms = [t.between(1, 3) for _ in range(j)]
        Ss = [("num", "int64"), ("str",), ("rec", (("x", ("num", "float64")),))][:j]
        cs = lambda: [cont(m, Q) for m, Q in zip(ms, Ss)]
        def ti():
            tags = [t.below(j) for _ in range(n)]
            return numpy.array(tags, dtype="uint8"), numpy.array([t.below(ms[x]) for x in tags])
        tags, index = ti()
        old = {"tags": tags, "index": index, "contents": cs()}
        tags, index = ti()
        new = t.pick([{"tags": tags, "index": index}, {"contents": cs()}, {"index": numpy.zeros(n, dtype=int)}, {"tags": numpy.zeros(n, dtype="uint8"), "index": numpy.zeros(n, dtype=int)}])
        cls = UnionArray
    elif k == 7:
        parts = lambda: [cont(t.below(3)) for _ in range(t.between(1, 3))]
        old = {"chunks": parts()}
        if t.flag():
            old["chunksizes"] = [len(x) for x in old["chunks"]]
        new = {"chunks": parts()}
        cls = ChunkedArray
        if t.flag():
            new["chunksizes"] = [len(x) for x in new["chunks"]]
    else:
        f = lambda x, *args, **kw: (tolist(x),) + args + tuple(sorted(kw.items()))
        g = lambda x, *args, **kw: ("g", tolist(x)) + args + tuple(sorted(kw.items()))
        old = {"content": cont(n), "generator": f, "args": (t.below(3),), "kwargs": {"k": t.below(3)}}
        new = t.pick([{"content": cont(n + 1)}, {"generator": g}, {"args": ()}, {"args": (1, 2)}, {"kwargs": {}}, {"kwargs": {"z": 1}}])
        cls = ObjectArray
    t.note("class", cls.__name__)
    show = lambda d: dict((k, describe(v) if isinstance(v, (AwkwardArray, numpy.ndarray)) else ([describe(x) for x in v] if isinstance(v, list) and v and isinstance(v[0], (AwkwardArray, numpy.ndarray)) else (v if not callable(v) else "function"))) for k, v in d.items())
    t.note("parameters", show(old))
    t.note("replaced", show(new))
    make = lambda d: cls(**d) if cls is not Table else Table.named("Row", **dict(d["contents"]))
    a = make(old)
    was = attempt(lambda: tolist(a))
    if t.flag():
        attempt(lambda: (len(a), a.counts if isinstance(a, JaggedArray) else 0, a.offsets if isinstance(a, (JaggedArray, ChunkedArray)) else 0, a.inverse if hasattr(a, "inverse") else 0))
    full = dict(old)
    full.update(new)
    if cls is ChunkedArray and "chunksizes" not in new:
        full.pop("chunksizes", None)
    try:
        want = tolist(make(full))
    except Exception as err:
        want = None
    if deepc and cls in (MaskedArray, BitMaskedArray, IndexedMaskedArray) and set(new) - {"mask", "content"}:
        deepc = False
    if t.chance(0.4):
        # what the setters take: anything that can be made an array, nothing that can not stand for the parameter
        t.note("as lists")
        aslist = lambda y: y.tolist() if type(y) is numpy.ndarray and y.ndim == 1 and y.size and y.dtype.kind in "iufb" and y.dtype.itemsize >= (1 if y.dtype.kind in "bu" else 8) else y
        for p in list(new):
            if p == "contents" and cls is Table:
                new[p] = [(c, aslist(y)) for c, y in (new[p].items() if isinstance(new[p], dict) else new[p])]
            elif p in ("contents", "chunks"):
                new[p] = [aslist(y) for y in new[p]]
            elif p == "mask" and cls is BitMaskedArray or p in ("args", "kwargs", "generator", "chunksizes") or p == "content" and cls is ObjectArray:
                continue
            else:
                new[p] = aslist(new[p])
    elif t.chance(0.2):
        integral = {JaggedArray: ("starts", "stops"), IndexedMaskedArray: ("mask",), IndexedArray: ("index",), SparseArray: ("index",), UnionArray: ("tags", "index")}.get(cls, ())
        wrong = [(p, numpy.asarray(old[p]) + 0.5) for p in integral] + ([("maskedwhen", "x"), ("maskedwhen", 1.5)] if cls is IndexedMaskedArray else [])
        if wrong:
            p, x = t.pick(wrong)
            t.note("unsuitable", p, x)
            r = attempt(lambda: a.deepcopy(**{p: x}) if deepc and p != "maskedwhen" else a.copy(**{p: x}))
            t.check(isinstance(r, Refused) and isinstance(r.err, (TypeError, ValueError)), lambda: "copy(%s=%r) made %r" % (p, x, r))
            expect(t, a, was, "the array itself")
            return
    b = attempt(lambda: a.deepcopy(**new) if deepc else a.copy(**new))
    if want is None or isinstance(was, Refused):
        return
    t.check(not isinstance(b, Refused), lambda: "refused: %r" % (b,))
    expect(t, b, want, "the copy with other parameters")
    t.check(len(b) == len(want), "length")
    for i in range(len(want)):
        expect(t, b[i], want[i], "element %d" % i)
    expect(t, a, was, "the array itself")
    if cls is JaggedArray:
        t.check(tolist(b.counts) == [len(x) for x in want], lambda: "counts %r" % (b.counts,))
        t.check(tolist(b.flatten()) == [y for x in want for y in x] if S[0] not in ("union",) else True, lambda: "flatten %r" % (tolist(b.flatten()),))
    t.nontrivial = n >= 2


def strings(t):
    """copies of string arrays with other parameters"""
    a_vals = [t.pick(STRS[:6]) for _ in range(t.length(5))]
    a = StringArray.fromiter(a_vals, encoding="utf-8")
    k = t.below(3)
    if k == 0:
        b = (a.copy if t.flag() else a.deepcopy)(encoding="latin-1")
        expect(t, b, a_vals, "the copy with another encoding")
        t.check(b.encoding == "latin-1" and a.encoding == "utf-8", "encodings")
    elif k == 1:
        vals = [u"".join(t.pick(u"xyz\u00e9") for _ in range(len(v))) for v in a_vals]
        latin = StringArray.fromiter(a_vals, encoding="latin-1")
        b = (latin.copy if t.flag() else latin.deepcopy)(content=numpy.frombuffer(u"".join(vals).encode("latin-1"), dtype="uint8"))
        expect(t, b, vals, "the copy with other characters")
        expect(t, latin, a_vals, "the array")
    else:
        m = len(a_vals)
        ii = [t.below(m) for _ in range(m)] if m else []
        s, e = a.starts[ii], a.stops[ii]
        b = (a.copy if t.flag() else a.deepcopy)(starts=s, stops=e)
        expect(t, b, [a_vals[i] for i in ii], "the copy with other starts and stops")
        expect(t, a, a_vals, "the array")
    t.nontrivial = len(a_vals) >= 2


# ------------------------------------------------------------------ like

def like(t):
    """zeros_like, ones_like, empty_like"""
    which = t.below(3)
    lay = Layout(ALL - {"sparse"}, p=0.35)
    T, values, a = sample(t, maxlen=5, lay=lay, kinds=None if which < 2 else ("num", "list", "rec", "opt", "union", "bytes", "tup", "nd", "obj"))
    name = ("zeros_like", "ones_like", "empty_like")[which]
    t.note("how", name)
    if not isinstance(a, AwkwardArray):
        return
    r = attempt(lambda: getattr(a, name)())
    t.check(not isinstance(r, Refused), lambda: "refused: %r" % (r,))
    want = plain(values)
    if not isinstance(a, VirtualArray):
        t.check(type(r) is type(a), lambda: "%s is a %s" % (name, type(r).__name__))
    t.check(which == 2 and has(T, "rec", "tup") or len(r) == len(values), lambda: "length %d, expected %d" % (len(r), len(values)))
    if which < 2:
        def f(dt, v):
            if dt == "str":
                return (u"\x01" if which else u"\x00") * len(v.encode("utf-8"))
            if dt == "bytes":
                return (b"\x01" if which else b"\x00") * len(v)
            if dt == "bool":
                return bool(which)
            return float(which) if dt.startswith("f") else which
        expect(t, r, [dense(T, v, f) for v in values], name, strict=True)
    elif not isinstance(a, Table):
        f = lambda dt, v: len(v) if dt == "bytes" else 0
        shape = [dense(T, v, f) for v in values]

        def blank2(x):
            if isinstance(x, bytes):
                return len(x)
            if isinstance(x, list):
                return [blank2(y) for y in x]
            if isinstance(x, tuple):
                return tuple(blank2(y) for y in x)
            if isinstance(x, dict):
                return dict((k, blank2(y)) for k, y in x.items())
            if isinstance(x, Obj):
                return Obj(blank2(x.data), x.args, x.kwargs)
            return None if x is None else 0
        got = attempt(lambda: blank2(tolist(r)))
        tables = has(T, "rec", "tup")
        if not tables:
            t.check(same(got, shape), lambda: "empty_like has structure %r, expected %r" % (got, shape))
    if not has(T, "union") and len(values) and which < 2 and not t.features & {"chunked", "appendable", "sparse"}:
        t.check(jtype(r) == jtype(a), lambda: "%s has type %r, expected %r" % (name, jtype(r), jtype(a)))
    expect(t, a, want, "the array afterwards", strict=True)


# ------------------------------------------------------------------ astype

CAST = {"i": ("int64", "int32", "float64", "float32", "int16", "complex128", "uint8", "bool"), "f": ("float64", "float32", "complex128", "bool")}


def cast(t):
    """numbers are converted, nothing else"""
    T, values, a = sample(t, maxlen=5, kinds=("num", "list", "rec", "opt", "tup", "nd", "union", "obj") if t.chance(0.8) else None)
    floats = "float" in repr(T)
    to = t.pick(CAST["f" if floats else "i"])
    t.note("dtype", to)
    if not isinstance(a, AwkwardArray):
        return
    arg = t.pick([to, numpy.dtype(to), getattr(numpy, {"bool": "bool_"}.get(to, to))])
    r = attempt(lambda: a.astype(arg))
    want = plain(values)
    expect(t, a, want, "the array afterwards", strict=True)
    if has(T, "str", "bytes"):
        if isinstance(r, Refused):
            return
        f = lambda dt, v: v if dt in ("str", "bytes") else numpy.array(v, dtype=dt).astype(to).tolist()
        expect(t, r, [dense(T, v, f) for v in values], "astype", strict=True)
        return
    t.check(not isinstance(r, Refused), lambda: "refused: %r" % (r,))
    f = lambda dt, v: numpy.array(v, dtype=dt).astype(to).tolist()
    expect(t, r, [dense(T, v, f) for v in values], "astype", strict=True)
    t.check(len(r) == len(values), "length")
    if not has(T, "union") and not t.features & {"chunked", "appendable", "sparse"}:
        w = repr(jtype(a))
        g = repr(jtype(r))
        import re
        names = "|".join(NUMS)
        strip = lambda s: re.sub(r"'(%s|complex128)'" % names, "#", s)
        t.check(strip(w) == strip(g) and all(x == to for x in re.findall(r"'(%s|complex128)'" % names, g)) , lambda: "astype has type %s, the array %s" % (g, w))
    if not isinstance(a, VirtualArray):
        t.check(type(r) is type(a) or isinstance(a, AppendableArray), lambda: "astype gives a %s" % type(r).__name__)


# ------------------------------------------------------------------ bytes

def count(a, seen):
    if isinstance(a, numpy.ndarray):
        return a.nbytes
    if id(a) in seen:
        return 0
    seen[id(a)] = a
    if isinstance(a, StringArray):
        return count(a._content, seen)
    if isinstance(a, JaggedArray):
        s, e = a._starts, a._stops
        base = s.base
        if base is not None and e.base is base and len(s) + 1 == len(base) and len(e) == len(s) and e.__array_interface__["data"][0] == s.__array_interface__["data"][0] + s.itemsize:
            return base.nbytes + count(a._content, seen)
        return s.nbytes + e.nbytes + count(a._content, seen)
    if isinstance(a, Table):
        return sum(count(x, seen) for x in a._contents.values())
    if isinstance(a, MaskedArray):
        return a._mask.nbytes + count(a._content, seen)
    if isinstance(a, UnionArray):
        return a._tags.nbytes + a._index.nbytes + sum(count(x, seen) for x in a._contents)
    if isinstance(a, ChunkedArray):
        return sum(count(x, seen) for x in a._chunks)
    if isinstance(a, VirtualArray):
        return count(a.array, seen) if a.ismaterialized else 0
    if isinstance(a, (IndexedArray, SparseArray)):
        return a._index.nbytes + count(a._content, seen)
    if isinstance(a, ObjectArray):
        return count(a._content, seen)
    raise AssertionError(type(a))


def nbytes(t):
    """every buffer of a structure counted once (parts of the structure that occur twice, and offsets, included)"""
    T = gen_type(t, t.between(0, 3), nums=NUMS)
    values = gen_values(t, T, t.length(6))
    a = build(t, T, values, Layout(frozenset(["indexed", "chunked", "sparse", "boolmask", "bitmask", "indexmask", "nestedwrap", "inner"]), p=0.3), wrap=t.below(3))
    t.note("array", describe(a))
    if not isinstance(a, AwkwardArray):
        return
    if t.chance(0.3):
        a = Table(x=a, y=a) if t.flag() else UnionArray.fromtags([0] * len(values) + [1] * len(values), [a, a])
    got = attempt(lambda: a.nbytes)
    want = count(a, {})
    t.evals += 1
    t.check(got == want, lambda: "nbytes is %r, expected %d" % (got, want))
    t.check(a.copy().nbytes == want, lambda: "nbytes of a copy is %r, expected %d" % (a.copy().nbytes, want))
    t.nontrivial = len(values) >= 2 and T[0] != "num"
    # virtual arrays: nothing before, the array afterwards, or what was declared
    n = t.pick([None, None, t.below(100)])
    g = Gen(a)
    v = VirtualArray(g, nbytes=n)
    if n is not None:
        t.check(v.nbytes == n and not v.ismaterialized, lambda: "nbytes of a virtual array declared to have %d is %r" % (n, v.nbytes))
        v.array
    w = v.nbytes
    t.check(w == count(a, {}), lambda: "nbytes of a materialized virtual array is %r" % w)


# ------------------------------------------------------------------ *_like with a parameter of the outermost array

def likes(t):
    """x.zeros_like(parameter=value) is x.copy(parameter=value).zeros_like()"""
    n = t.between(1, 5)
    S = gen_type(t, t.below(2), kinds=("num", "list", "rec", "opt"))
    inner = build(t, S, gen_values(t, S, n), Layout(ALL - {"sparse"}, p=0.2), wrap=0)
    flags = numpy.array([t.flag() for _ in range(n)])
    k = t.below(5)
    if k == 0:
        a, new = MaskedArray(flags, inner, maskedwhen=t.flag()), {"maskedwhen": t.flag()}
    elif k == 1:
        a, new = BitMaskedArray.fromboolmask(flags, inner, maskedwhen=t.flag(), lsborder=t.flag()), t.pick([{"maskedwhen": t.flag()}, {"lsborder": t.flag()}, {"maskedwhen": t.flag(), "lsborder": t.flag()}])
    elif k == 2:
        f = lambda x, *args, **kw: (tolist(x),) + args + tuple(sorted(kw.items()))
        g = lambda x, *args, **kw: ("g", tolist(x)) + args + tuple(sorted(kw.items()))
        a, new = ObjectArray(inner, f, (1,), {"k": 2}), t.pick([{"generator": g}, {"args": (3, 4)}, {"kwargs": {"z": 5}}, {"args": (), "kwargs": {}}])
    elif k == 3:
        pos = sorted(set(t.below(n) for _ in range(t.below(4))))
        a, new = SparseArray(n, numpy.array(pos, dtype=int), numpy.array([t.below(9) for _ in pos], dtype=int), default=t.below(3)), t.pick([{"default": 7}, {"length": n + 2}])
    else:
        a, new = StringArray.fromiter([t.pick(STRS[:4]) for _ in range(n)], encoding="utf-8"), {"encoding": "latin-1"}
    name = t.pick(["zeros_like", "ones_like", "empty_like"])
    was = attempt(lambda: tolist(a))
    t.note("array", describe(a), name, dict((k, v) for k, v in new.items() if not callable(v)))
    if isinstance(inner, Table) and name == "empty_like":
        name = "zeros_like"
    got = attempt(lambda: getattr(a, name)(**new))
    want = attempt(lambda: getattr(a.copy(**new), name)())
    t.check(not isinstance(got, Refused) and not isinstance(want, Refused), lambda: "%r, expected %r" % (got, want))
    t.check(type(got) is type(want) and len(got) == len(want), "class or length")
    for x in new:
        t.check(getattr(got, x) == getattr(want, x) == new[x], lambda: "%s is %r, expected %r" % (x, getattr(got, x), new[x]))
    if name != "empty_like":
        t.check(same(attempt(lambda: tolist(got)), attempt(lambda: tolist(want))), lambda: "%r, expected %r" % (tolist(got), tolist(want)))
    t.check(same(attempt(lambda: tolist(a)), was), "the array itself changed")
    t.nontrivial = n >= 2


class Two(object):
    """a generator whose result depends on its arguments"""

    def __init__(self, tag):
        self.tag, self.calls = tag, 0

    def __call__(self, *args, **kwargs):
        self.calls += 1
        return JaggedArray.fromiter([[self.tag] + list(args), sorted(kwargs.values())])

    def want(self, args, kwargs):
        return [[self.tag] + list(args), sorted(kwargs.values())]


def virtuals(t):
    """copies of virtual arrays, with any of their parameters replaced"""
    f, g = Two(1), Two(2)
    type2 = awkward0.type.ArrayType(2, float("inf"), numpy.dtype("int64"))
    cache = {} if t.flag() else None
    par = {"generator": f, "args": tuple(t.below(9) for _ in range(t.below(3))), "kwargs": dict((k, t.below(9)) for k in "xy" if t.flag()), "cache": cache,
           "persistentkey": t.pick([None, "mykey"]), "type": t.pick([None, type2]), "nbytes": t.pick([None, 17]), "persistvirtual": t.flag()}
    a = VirtualArray(**par)
    done = t.chance(0.4)
    if done:
        a.array
    new = {}
    if not done:
        if t.flag():
            new["generator"] = g
        if t.flag():
            new["args"] = (7, 8)
        if t.flag():
            new["kwargs"] = {"q": 5}
    for k, v in (("cache", {}), ("persistentkey", "other"), ("type", type2), ("nbytes", 23), ("persistvirtual", not par["persistvirtual"])):
        if t.chance(0.3):
            new[k] = v
    deepc = t.flag()
    t.note("how", "deepcopy" if deepc else "copy", sorted(new), "materialized" if done else "not materialized", "cache" if cache is not None else "no cache")
    b = (a.deepcopy if deepc else a.copy)(**new)
    full = dict(par)
    full.update(new)
    for k in ("generator", "args", "kwargs", "persistentkey", "persistvirtual"):
        t.check(getattr(b, k) == full[k], lambda: "%s is %r, expected %r" % (k, getattr(b, k), full[k]))
        t.check(getattr(a, k) == par[k], lambda: "%s of the source is now %r" % (k, getattr(a, k)))
    if not deepc:
        t.check(b.cache is full["cache"], "cache")
    t.check(a.cache is par["cache"], "cache of the source")
    before = f.calls + g.calls
    if not done:
        t.check(not b.ismaterialized and not a.ismaterialized, "materialized by copying")
        if full["nbytes"] is not None:
            t.check(b.nbytes == full["nbytes"], "nbytes of the copy")
        if full["type"] is not None:
            t.check(b.type == full["type"] and len(b) == 2, "type of the copy")
        t.check(f.calls + g.calls == before, "generated by asking for what was declared")
    calls = t.between(1, 3)
    for _ in range(calls):
        expect(t, b, full["generator"].want(full["args"], full["kwargs"]), "the copy")
    shared = not deepc and par["persistentkey"] is not None and full["cache"] is cache and cache is not None and full["persistentkey"] == par["persistentkey"]
    if not shared or not new:
        expect(t, a, f.want(par["args"], par["kwargs"]), "the source")
    t.check(f.calls + g.calls <= before + 2, lambda: "generated %d times" % (f.calls + g.calls - before))
    if full["cache"] is not None and not deepc:
        if full["persistentkey"] is not None and not done:
            t.check(full["persistentkey"] in full["cache"], lambda: "cache has keys %r" % sorted(map(str, full["cache"])))
    t.nontrivial = bool(new)


class Rows(object):
    """makes the same table anew every time"""
    def __init__(self, values):
        self.values = values
        self.calls = 0

    def __call__(self):
        self.calls += 1
        return Table(x=numpy.array(self.values), y=numpy.array(self.values) * 2)


def virtualcolumns(t):
    """columns assigned to and deleted from virtual tables and their copies, which caches forget; only copies that are not deep share their buffers"""
    n = t.between(1, 4)
    gen = Rows([t.below(100) for _ in range(n)])
    cache = t.pick([None, {}, {}])
    kw = {"cache": cache} if cache is not None else {}
    if cache is not None and t.flag():
        kw["persistentkey"] = "key"
    a = VirtualArray(gen, **kw)
    base = {"x": [list(gen.values)], "y": [[2 * x for x in gen.values]]}
    pool = [(a, base)]
    arrays = []
    steps = t.between(2, 8)
    t.note("cache", cache is not None, "persistentkey" in kw)
    for _ in range(steps):
        i = t.below(len(pool))
        v, model = pool[i]
        act = t.pick(("set", "set", "del", "copy", "deepcopy", "deepcopy", "inplace", "inplace", "evict", "read", "slice"))
        t.note("step", act, i)
        if act == "set":
            k = t.pick("xyzw")
            new = [t.below(100) for _ in range(n)]
            arr = numpy.array(new)
            if isinstance(v, VirtualArray) or all(c is not None for c in model.values()):
                v[k] = arr
                model[k] = [new]
                arrays.append((arr, model[k]))
        elif act == "del":
            k = t.pick(sorted(model) or ["x"])
            if k in model and len(model) > 1:
                del v[k]
                del model[k]
        elif act == "copy" and "persistentkey" not in kw and v.cache is not None:
            # (with a key, copies are one entry of the cache; without a cache, copies share the array that was made)
            pool.append((v.copy(), dict(model)))
        elif act == "deepcopy":
            pool.append((v.deepcopy(), dict((k, [list(c[0])]) for k, c in model.items())))
        elif act == "inplace" and arrays:
            arr, cell = t.pick(arrays)
            j = t.below(n)
            arr[j] = 1000 + t.below(100)
            cell[0][j] = int(arr[j])
        elif act == "evict" and cache is not None:
            cache.clear()
        elif act == "read":
            v, model = t.pick(pool)
            k = t.pick(sorted(model))
            expect(t, v[k], model[k][0], "column %r" % k)
        elif act == "slice":
            j = t.below(n)
            expect(t, v[j:], [dict((k, model[k][0][r]) for k in model) for r in range(j, n)], "slice")
    t.nontrivial = len(pool) > 1 and bool(arrays)
    for i in t.shuffle(range(len(pool))):
        v, model = pool[i]
        t.check(sorted(v.columns) == sorted(model), lambda: "array %d has columns %r, expected %r" % (i, v.columns, sorted(model)))
        expect(t, v, [dict((k, model[k][0][r]) for k in model) for r in range(n)], "array %d" % i)


SUBS = [Sub("virtualcolumns", virtualcolumns, 3000), Sub("copies", copies, 15000), Sub("deep", deep, 15000), Sub("columns", columns, 7200), Sub("overrides", overrides, 15000), Sub("strings", strings, 2400), Sub("like", like, 15000), Sub("astype", cast, 15000), Sub("nbytes", nbytes, 7200), Sub("likes", likes, 4000), Sub("virtuals", virtuals, 4000)]
