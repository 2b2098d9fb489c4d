"""C16: saving and loading."""
import copy
import io
import json
import lzma
import os
import pathlib
import pickle
import zlib
import numpy
from .common import *
from awkward0 import persist
from .indexing import gen_index

try:
    import h5py
except ImportError:
    h5py = None

ID = "C16"
RULE = ("a case draws one or several arrays (any type, layout, view, shared buffer), a container (mapping, awkd file, HDF5 group, pickle), names, prefixes, suffixes and a compression policy; "
        "non-trivial: an array of at least 2 elements that is not a plain Numpy array of numbers")

LZMA = (lzma.compress, ("lzma", "decompress"))
ZLIB = (zlib.compress, ("zlib", "decompress"))
persist.whitelist.append(["pbt.gen", "makeobj"])        # pickles use the default whitelist
WHITE = persist.whitelist + [["pbt.props.c16"], ["pbt.gen"]]


def policies(t):
    """(compression argument, the rules it stands for as (minsize, types, matches, decompressor))"""
    m = t.below(8)
    if m == 0:
        return t.pick([None, False, []]), []
    if m == 1:
        return True, [(0, (object,), True, ("zlib", "decompress"))]
    if m == 2:
        return zlib.compress, [(0, (object,), True, ("zlib", "decompress"))]
    if m == 3:
        return LZMA, [(0, (object,), True, LZMA[1])]
    rules, ref = [], []
    for _ in range(t.between(1, 3)):
        minsize = t.pick([0, 1, 8, 16, 24, 40])
        types = t.pick([(object,), (numpy.integer,), (numpy.floating,), (numpy.bool_, numpy.integer), (numpy.uint8,)])
        match = t.chance(0.8)
        contexts = t.pick(["*", ["nope", "*"]]) if match else t.pick(["nope.*", [], ["a", "b"]])
        pair = t.pick([ZLIB, LZMA])
        rule = {"minsize": minsize, "types": types[0] if len(types) == 1 and t.flag() else list(types) if t.flag() else tuple(types), "contexts": contexts, "pair": pair}
        if minsize == 0 and t.flag():
            del rule["minsize"]
        rules.append(rule)
        ref.append((minsize, types, match, pair[1]))
    return (rules[0] if len(rules) == 1 and t.flag() else rules if t.flag() else tuple(rules)) if len(rules) != 2 else rules, ref


def checkpolicy(t, schema, ref):
    """every stored buffer is compressed by the first rule that applies to it"""
    def walk(x):
        if isinstance(x, dict):
            if x.get("call") == ["awkward0", "numpy", "frombuffer"]:
                buf, dt, count = x["args"]
                if "ref" in count or "ref" in dt:
                    return
                dt = persist.json2dtype(dt["dtype"])
                nbytes = dt.itemsize * count["json"]
                want = None
                for minsize, types, match, dec in ref:
                    if match and nbytes >= minsize and issubclass(dt.base.type, types):
                        want = list(dec)
                        break
                t.evals += 1
                t.check(buf.get("call") == want, lambda: "a %s buffer of %d bytes is stored with %r; the policy %r asks for %r" % (dt, nbytes, buf.get("call"), ref, want))
                return
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(schema)


def atype(a):
    return awkward0.type.fromarray(a)


def hasempty(x):
    if isinstance(x, dict):
        x = list(x.values())
    return isinstance(x, (list, tuple)) and (len(x) == 0 or any(hasempty(y) or y is None for y in x))


def alike(t, T, values, a, b, what):
    """b, read back, is a"""
    expect(t, b, plain(values), what, strict=True)
    t.check(len(b) == len(values), lambda: "%s: length %d, not %d" % (what, len(b), len(values)))
    t.check(type(b) is type(a) or isinstance(a, VirtualArray), lambda: "%s: a %s came back as a %s" % (what, type(a).__name__, type(b).__name__))
    x, y = attempt(lambda: gottype(atype(a).to)), attempt(lambda: gottype(atype(b).to))
    # (a slice of a union is as narrow as its elements, and a chunked array without elements has no type)
    if not isinstance(x, Refused) and not has(T, "union") and "SparseArray" not in describe(a) and not (has(T, "list") and any(k in describe(a) for k in ("ChunkedArray", "AppendableArray")) and hasempty(values)):
        t.check(x == y, lambda: "%s: type %r came back as %r" % (what, x, y))
        t.check(atype(a) == atype(b), lambda: "%s: type\n%s\nis not equal to\n%s" % (what, atype(a), atype(b)))
    if isinstance(a, AwkwardArray) and T[0] in ("rec", "tup"):
        t.check(a.columns == b.columns, lambda: "%s: columns %r came back as %r" % (what, a.columns, b.columns))
        t.check(a.rowname == b.rowname, lambda: "%s: row name %r came back as %r" % (what, a.rowname, b.rowname))


LAY = Layout(ALL, p=0.45)
NAMES = ("", "a", "array", "x y", "na\xefve", "A.b", "t-1", "tree;1", "data.json", "\u6f22")


def draw(t, maxlen=6, T=None):
    T, v, a = sample(t, T=T, lay=LAY if t.chance(0.8) else Layout(PLAIN | {"view", "scatter", "gap"}), maxlen=maxlen, special=t.chance(0.3), nums=("int64", "float64", "bool", "int32", "uint8", "float32", "int16", "uint64"))
    # a selection of a bigger array, keeping its buffers, is an array too
    if t.chance(0.3) and len(v) > 0:
        where, desc, fn = gen_index(t, len(v), ("slice", "mask", "fancy"))
        if fn is not None:
            t.feature("selected")
            t.note("selected", desc)
            v, a = fn(v), a[where]
            # (chunks without elements are not written, and a sparse array of nothing else has no default)
            t.assume(not ("sparse" in t.features and t.features & {"chunked", "appendable"} and T[0] not in ("num", "nd")))
    if isinstance(a, Table) and T[0] in ("rec", "tup") and t.chance(0.3):
        a.rowname = t.pick(("Point", "tuple", "Row", "xy z"))
        t.note("rowname", a.rowname)
        if a.rowname == "tuple":
            pass        # only tables with numbered columns become tuples
        else:
            v = [dict((str(i), y) for i, y in enumerate(x)) if isinstance(x, tuple) else x for x in v]
    return T, v, a


class Bytes(dict):
    """a mapping that keeps bytes, like a file"""
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v.tobytes() if isinstance(v, numpy.ndarray) else bytes(v))


def memory(t):
    """serialize and deserialize into a mapping with any options"""
    T, v, a = draw(t)
    st = {} if t.chance(0.4) else Bytes()
    name = t.pick(NAMES)
    kw = {}
    if t.flag():
        kw["suffix"] = t.pick(["", ".raw", "_"])
    if t.flag():
        kw["schemasuffix"] = t.pick(["", ".json", "/schema"])
    if t.chance(0.4):
        kw["delimiter"] = t.pick(["-", "/", "::", "", None])
    if t.chance(0.2):
        kw["prefix"] = t.pick(["pre", "", "p/"])
    comp, ref = policies(t)
    default = t.chance(0.2)
    if not default:
        kw["compression"] = comp
    t.note("options", [name, dict((k, x) for k, x in kw.items() if k != "compression"), ref])
    # the name of the schema must differ from the names of the buffers
    schemaname = name + kw.get("schemasuffix", "")
    t.assume(schemaname == "" or not schemaname[-1].isdigit())
    other = "zz-other"
    st[other] = b"untouched"
    schema = persist.serialize(a, st, name, **kw)
    t.check(bytes(st[other]) == b"untouched", "an unrelated entry changed")
    if not default:
        checkpolicy(t, json.loads(json.dumps(schema)), ref)
    # every key it wrote is what keys() lists
    written = set(st) - {other}
    listed = list(persist.keys(st, schemaname))
    t.check(sorted(listed) == sorted(written), lambda: "keys() lists %r, but %r were written" % (sorted(listed), sorted(written)))
    if "prefix" not in kw:
        delim = kw.get("delimiter", "-") or ""
        pre = name + delim if name else ""
        t.check(all(k == schemaname or k.startswith(pre) for k in written), lambda: "entries %r do not start with %r" % (sorted(written), pre))
    b = persist.deserialize(st, schemaname, whitelist=WHITE)
    alike(t, T, v, a, b, "read back")
    # a stored copy of a copy is the same again
    if t.chance(0.3):
        st2 = Bytes()
        persist.serialize(b, st2)
        alike(t, T, v, a, persist.deserialize(st2, whitelist=WHITE), "read back twice")
    alike(t, T, v, a, a, "original after writing")


def pickled(t):
    """pickle, copy and deepcopy"""
    T, v, a = draw(t)
    m = t.below(3)
    if m == 0:
        b = pickle.loads(pickle.dumps(a, protocol=t.below(6)))
        alike(t, T, v, a, b, "pickled")
    elif m == 1:
        # inside other objects, and twice
        b, c = pickle.loads(pickle.dumps({"a": [a, a]}))["a"]
        alike(t, T, v, a, b, "pickled in a dict")
        alike(t, T, v, a, c, "pickled in a dict")
    else:
        b = (copy.copy if t.flag() else copy.deepcopy)(a)
        alike(t, T, v, a, b, "copied")


class SomePath(object):
    """has a path, without being one"""
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


def files(t):
    """several arrays in awkd files"""
    k = t.between(1, 3)
    drawn = [draw(t, 4) for _ in range(k)]
    comp, ref = policies(t)
    names = []
    for n in t.shuffle([x for x in NAMES if x]):
        if not any(n.startswith(x) or x.startswith(n) for x in names):
            names.append(n)
    names = names[:k]
    path = os.path.join(t.tmpdir(), t.pick(["f", "f.awkd", "a.b"]))
    real = path if path.endswith(".awkd") else path + ".awkd"
    how = t.below(4)
    kw = {} if t.chance(0.3) else {"compression": comp}
    if t.chance(0.2):
        kw["delimiter"] = t.pick(["/", "__"])
    if t.chance(0.2):
        kw["suffix"] = t.pick([".bin", ""])
    t.note("files", [how, names, ref])
    target = path if t.chance(0.7) else t.pick((pathlib.Path, SomePath))(path)
    if how == 0 and t.chance(0.3):
        # any file-like object
        T, v, a = drawn[0]
        buf = io.BytesIO()
        awkward0.save(buf, a, mode="w", **kw)
        alike(t, T, v, a, awkward0.load(buf, whitelist=WHITE), "single array in a buffer")
        return
    if how == 0:
        T, v, a = drawn[0]
        awkward0.save(target, a, mode="w", **kw)
        got = awkward0.load(real, whitelist=WHITE)
        alike(t, T, v, a, got, "single array in a file")
        return
    if how == 1:
        awkward0.save(target, dict((n, a) for n, (T, v, a) in zip(names, drawn)), mode="w", **kw)
    elif how == 2:
        # one after another, appending
        for n, (T, v, a) in zip(names, drawn):
            awkward0.save(target, a, name=n, **(kw if t.flag() else {}))
    else:
        names = [x if t.flag() else x for x in names]
        awkward0.save(target, dict((n, a) for n, (T, v, a) in zip(names, drawn)), name="pre_", mode="w", **kw)
        names = ["pre_" + n for n in names]
    before = open(real, "rb").read()
    # existing names are refused before anything is written
    g = attempt(lambda: awkward0.save(target, drawn[0][2], name=t.pick(names)))
    t.check(isinstance(g, Refused) and isinstance(g.err, KeyError), lambda: "saving under an existing name gave %r" % (g,))
    with awkward0.load(pathlib.Path(real) if t.chance(0.2) else real, whitelist=WHITE) as f:
        t.check("%d members" % len(names) in repr(f), lambda: "repr %r" % f)
        t.check(all(n in f for n in names) and sorted(f.keys()) == sorted(names), lambda: "keys %r" % (list(f.keys()),))
        t.check(sorted(f) == sorted(names) and len(f) == len(names), lambda: "the file holds %r, expected %r" % (sorted(f), sorted(names)))
        for i in t.shuffle(range(k)):
            T, v, a = drawn[i]
            alike(t, T, v, a, f[names[i]], "array %r of a file" % names[i])
        g = attempt(lambda: f["no such"])
        t.check(isinstance(g, Refused) and isinstance(g.err, KeyError), lambda: "a missing name gave %r" % (g,))
    del before


def hdf(t):
    """several arrays in HDF5 groups"""
    if h5py is None:
        raise Discard()
    k = t.between(1, 3)
    drawn = [draw(t, 4) for _ in range(k)]
    names = t.shuffle([x for x in NAMES if x])[:k]
    comp, ref = policies(t)
    path = os.path.join(t.tmpdir(), "f.h5")
    kw = {} if t.chance(0.3) else {"compression": comp}
    t.note("names", [names, ref])
    with h5py.File(path, "w") as f:
        root = f if t.flag() else f.create_group("sub")
        g = awkward0.hdf5(root, whitelist=WHITE, **kw)
        for n, (T, v, a) in zip(names, drawn):
            g[n] = a
        if t.flag():
            for i in t.shuffle(range(k)):
                T, v, a = drawn[i]
                alike(t, T, v, a, g[names[i]], "array %r of a group" % names[i])
        where = root.name
    with h5py.File(path, "r") as f:
        g = awkward0.hdf5(f[where], whitelist=WHITE)
        t.check(sorted(g) == sorted(names) and len(g) == k, lambda: "the group holds %r, expected %r" % (sorted(g), names))
        for i in t.shuffle(range(k)):
            T, v, a = drawn[i]
            alike(t, T, v, a, g[names[i]], "array %r of a re-opened group" % names[i])


def basic(t):
    """plain Numpy arrays of any type and shape"""
    dt = t.pick(["int64", ">i4", "<u2", "bool", "float64", ">f8", "float32", "complex128", "S3", "U4", ">U2", "M8[s]", "m8[ms]",
                 "struct", "nested", "subarray", "aligned", "offsets"])
    n = t.length(5)
    shape = (n,) + t.pick([(), (), (2,), (2, 3), (1,), (0,)])
    cells = int(numpy.prod(shape))
    if dt in ("struct", "nested", "subarray", "aligned", "offsets"):
        d = {"struct": [("x", "i4"), ("y", ">f8")], "nested": [("x", "i2"), ("r", [("u", "u1"), ("w", "f4")])], "subarray": [("x", "f8", (2,)), ("k", "i1"), ("m", "i2", (2, 2))],
             "aligned": numpy.dtype([("a", "i1"), ("b", "f8"), ("c", "i2")], align=True),
             "offsets": numpy.dtype({"names": ["a", "b"], "formats": ["i4", "i2"], "offsets": [2, 8], "itemsize": 12})}[dt]
        d = numpy.dtype(d)
        a = numpy.zeros(cells, dtype=d)
        for name in d.names:
            sub = a[name]
            if sub.dtype.names is None:
                sub[...] = numpy.array([t.below(100) for _ in range(sub.size)]).reshape(sub.shape)
            else:
                for nn in sub.dtype.names:
                    sub[nn] = [t.below(100) for _ in range(len(sub))]
        a = a.reshape(shape)
    elif dt[-2] in "SU" or dt in ("S3", "U4", ">U2"):
        a = numpy.array([t.pick(["", "a", "bc", "xyz"]) for _ in range(cells)], dtype=dt).reshape(shape)
    else:
        a = numpy.array([t.below(120) for _ in range(cells)]).astype("i8").astype(dt).reshape(shape)
    if t.chance(0.3):
        a = numpy.repeat(a, 2, axis=0)[::2]
    elif t.chance(0.2):
        a = a[::-1]
    elif t.chance(0.2) and a.ndim == 2:
        a = numpy.asfortranarray(a)
    t.note("array", [repr(a)])
    if n >= 2:
        t.nontrivial = True
    comp, ref = policies(t)
    st = Bytes() if t.flag() else {}
    if t.chance(0.3) and cells:
        # inside a jagged array
        j = JaggedArray.fromcounts([n], a)
        persist.serialize(j, st, compression=comp)
        b = persist.deserialize(st).content
    elif t.chance(0.3):
        p = os.path.join(t.tmpdir(), "n.awkd")
        awkward0.save(p, a, mode="w", compression=comp)
        b = awkward0.load(p)
    else:
        persist.serialize(a, st, compression=comp)
        b = persist.deserialize(st)
    t.evals += 1
    t.check(isinstance(b, numpy.ndarray) and b.dtype == a.dtype and b.shape == a.shape, lambda: "%s%r came back as %r" % (a.dtype, a.shape, (getattr(b, "dtype", None), getattr(b, "shape", b))))
    t.check(repr(b.tolist()) == repr(a.tolist()), lambda: "came back as %r" % (b,))


def gensimple(n, k=1):
    return numpy.arange(n) * k


def gentable(n):
    return Table(x=numpy.arange(n), y=numpy.arange(n) * 1.5)


def genjagged(counts, k=1):
    return JaggedArray.fromcounts(counts, numpy.arange(sum(counts)) * k)


def virtual(t):
    """virtual arrays are stored as virtual (with later column changes) or as data"""
    persistv = t.flag()
    m = t.below(3)
    kw = {"k": t.between(1, 3)} if t.flag() else {}
    n = t.length(5)
    if m == 0:
        f, args, ref = gensimple, (n,), [i * kw.get("k", 1) for i in range(n)]
    elif m == 1:
        kw = {}
        f, args, ref = gentable, (n,), [{"x": i, "y": i * 1.5} for i in range(n)]
    else:
        counts = [t.below(3) for _ in range(n)]
        flat = iter(range(100))
        f, args, ref = genjagged, (counts,), [[next(flat) * kw.get("k", 1) for _ in range(c)] for c in counts]
    cache = {} if t.flag() else None
    tpe = atype(f(*args, **kw)) if t.flag() else None
    key = "thekey" if cache is not None and t.flag() else None
    a = VirtualArray(f, args, kw, cache=cache, persistentkey=key, type=tpe, persistvirtual=persistv)
    t.note("virtual", [f.__name__, args, kw, persistv, tpe is not None, key])
    t.nontrivial = n >= 2
    changes = []
    if m == 1:
        for _ in range(t.below(4)):
            c = t.pick(["x", "y", "z", "w"])
            if t.flag() or c not in (ref[0] if ref else {"x": 0, "y": 0}):
                new = [t.below(50) for _ in range(n)]
                changes.append(("set", c, new))
                a[c] = numpy.array(new, dtype="int64")
                for r, x in zip(ref, new):
                    r[c] = x
            elif len(ref) and len(ref[0]) > 1:
                changes.append(("del", c))
                del a[c]
                for r in ref:
                    del r[c]
    t.note("changes", changes)
    if t.flag():
        a.tolist()
    whole = t.below(3)
    outer = a if whole == 0 else ChunkedArray([a, a]) if whole == 1 else Table(p=a, q=a)
    want = ref if whole == 0 else ref + ref if whole == 1 else [{"p": x, "q": x} for x in ref]
    st = Bytes()
    persist.serialize(outer, st)
    if persistv and whole == 0 and not changes:
        t.check(len([k for k in st if k != ""]) == 0, lambda: "a virtual array stored %r" % sorted(st))
    newcache = {} if t.flag() else None
    b = persist.deserialize(st, whitelist=WHITE, cache=newcache)
    if persistv and whole == 0:
        t.check(isinstance(b, VirtualArray) and not b.ismaterialized, lambda: "a virtual array came back as %r" % type(b))
        t.check(b.cache is newcache and b.persistentkey == key, "cache or persistent key was lost")
        if tpe is not None:
            t.check(b.type == a.type and not b.ismaterialized, lambda: "declared type %s came back as %s" % (a.type, b.type))
    elif whole == 0:
        t.check(not isinstance(b, VirtualArray), "a concrete array came back virtual")
    expect(t, b, want, "read back", strict=True)
    if newcache is not None and persistv and whole == 0:
        newcache.clear()
        expect(t, b, want, "read back after eviction", strict=True)
    if persistv and (n > 0 or whole != 1):
        # without permission to call the generator nothing is loaded
        g = attempt(lambda: tolist(persist.deserialize(st)))
        t.check(isinstance(g, Refused), lambda: "the generator was called without being in the whitelist: %r" % (g,))


def shared(t):
    """the same sub-array in several places, several arrays in one mapping"""
    T, v, a = draw(t, 4, T=t.pick((("num", "int64"), ("list", ("num", "float64")), ("rec", (("x", ("num", "int64")), ("s", ("str",)))), ("opt", ("num", "int64")))))
    n = len(v)
    m = t.below(5)
    if m == 0:
        outer, want = Table(p=a, q=a), [{"p": plain(x), "q": plain(x)} for x in v]
    elif m == 1:
        outer, want = ChunkedArray([a, a]), plain(v) * 2
    elif m == 2:
        cut = t.below(n + 1)
        outer, want = ChunkedArray([a[:cut], a[cut:], a]), plain(v) * 2
    elif m == 3:
        idx = [t.below(n) for _ in range(t.length(5))] if n else []
        ia = IndexedArray(numpy.array(idx, dtype="int64"), a)
        outer, want = Table(p=ia, q=a[:len(idx)]), None
        k = min(len(idx), n)
        want = [{"p": plain(v[idx[i]]), "q": plain(v[i])} for i in range(k)]
    else:
        counts = [n, 0]
        j = JaggedArray.fromcounts(counts, a)
        outer, want = Table(p=j, q=j), [{"p": plain(v), "q": plain(v)}, {"p": [], "q": []}]
    st = Bytes() if t.flag() else {}
    comp, ref = policies(t)
    other = draw(t, 3)
    persist.serialize(outer, st, "one", compression=comp)
    persist.serialize(other[2], st, "two", compression=comp)
    persist.serialize(a, st, "three")
    for what in t.shuffle(["one", "two", "three"]):
        b = persist.deserialize(st, what, whitelist=WHITE)
        if what == "one":
            expect(t, b, want, "structure with a shared part", strict=True)
        elif what == "two":
            alike(t, other[0], other[1], other[2], b, "second array")
        else:
            alike(t, T, v, a, b, "third array")


def types(t):
    """high-level types survive json"""
    from . import c19
    if t.chance(0.4):
        T = c19.gen_rec(t, t.between(1, 3))
        t.assume(c19.guarded(T) and "hole" in repr(T) and not c19.flattens(T, T) and not c19.flattens(c19.unroll(T, T, 1), T))
        a = c19.make_rec(T)
        if t.chance(0.3):
            S, a = ("tab", (("again", T), ("same", T))), awkward0.type.TableType(again=a, same=a)
        t.feature("recursive")
    else:
        T = c19.gen(t, t.below(4))
        a = c19.make(t, T)
    t.note("type", T)
    t.nontrivial = T[0] not in ("prim", "str")
    s = json.dumps(persist.type2json(a))
    t.note("json", s)
    b = persist.json2type(json.loads(s))
    t.evals += 3
    t.check(a == b and b == a, lambda: "%r came back as %r" % (a, b))
    t.check(type(a) is type(b), lambda: "a %s came back as a %s" % (type(a), type(b)))
    # a fixed point: what is written from the copy says the same
    t.check(repr(a) == repr(b), lambda: "printed as\n%s\nnow\n%s" % (repr(a), repr(b)))
    c = persist.json2type(json.loads(json.dumps(persist.type2json(b))))
    t.check(a == c, lambda: "%r came back as %r the second time" % (a, c))
    if t.chance(0.3):
        # as the declared type of a virtual array
        n = t.below(4)
        v = VirtualArray(gensimple, (n,), type=awkward0.type.ArrayType(n, a), persistvirtual=True)
        st = Bytes()
        persist.serialize(v, st)
        w = persist.deserialize(st, whitelist=WHITE)
        t.check(not w.ismaterialized and w.type == v.type and len(w) == n, lambda: "declared type %r came back as %r" % (v.type, w.type))


def renamed(x):
    """a schema as written by the package's older name"""
    if isinstance(x, dict):
        out = {}
        for k, y in x.items():
            if k in ("call", "function") and isinstance(y, (list, tuple)) and y:
                y = list(y)
                if y[0] == "awkward0" or y[0].startswith("awkward0."):
                    y = ["awkward" + y[0][len("awkward0"):]] + y[1:]
                out[k] = y
            elif k == "json" or k == "python":
                out[k] = y
            else:
                out[k] = renamed(y)
        return out
    if isinstance(x, (list, tuple)):
        return [renamed(y) for y in x]
    return x


def legacy(t):
    """files written when the package was called awkward are read like new ones, but only what the whitelist allows"""
    T, v, a = draw(t, 5)
    st = Bytes()
    schema = json.loads(json.dumps(persist.serialize(a, st)))
    old = renamed(schema)
    t.assume("awkward.arrow" not in repr(old) and "'awkward.persist'" not in repr(old))        # a module name in full is not renamed
    if t.flag():
        old["awkward"] = old.pop("awkward0")
    st[""] = json.dumps(old).encode("ascii")
    b = persist.deserialize(st, whitelist=WHITE)
    alike(t, T, v, a, b, "data under the old name")


class Marked(object):
    """what a generator got"""

    def __init__(self, x, args, kwargs):
        self.x, self.args, self.kwargs = x, args, kwargs


def mark(x, *args, **kwargs):
    return Marked(tolist(x), args, kwargs)


def virtuallist(*args, **kwargs):
    out = numpy.empty(1, dtype=object)
    out[0] = (args, kwargs)
    return out


class P(object):
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is P and exactly(self.x, other.x)

    __hash__ = None

    def __repr__(self):
        return "P(%r)" % (self.x,)


class J(P):
    """an object that knows how to write itself"""

    def tojson(self):
        return {"x": self.x}

    @staticmethod
    def fromjson(d):
        return J(d["x"])

    def __eq__(self, other):
        return type(other) is J and exactly(self.x, other.x)


def exactly(x, y):
    """equal, with equal types (except that Numpy scalars may become Python's)"""
    if isinstance(x, numpy.generic) and not isinstance(y, numpy.generic):
        x = x.item()
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(exactly(p, q) for p, q in zip(x, y))
    if isinstance(x, dict):
        return len(x) == len(y) and all(k in y and exactly(z, y[k]) and [w for w in y if w == k and type(w) is type(k)] for k, z in x.items())
    if isinstance(x, numpy.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and exactly(x.tolist(), y.tolist())
    if isinstance(x, float):
        return repr(x) == repr(y)
    if isinstance(x, AwkwardArray):
        return exactly(tolist(x), tolist(y))
    return x == y


def anyobject(t, depth=2):
    k = t.wpick([(3, "int"), (1, "big"), (2, "float"), (1, "odd"), (2, "str"), (1, "bytes"), (1, "bool"), (1, "None"), (1, "scalar"), (1, "complex"), (1, "set"), (1, "dtype"), (1, "function"), (1, "class"), (1, "P"), (1, "J")]
                + ([(3, "list"), (2, "tuple"), (3, "dict"), (1, "keys"), (1, "array"), (1, "awkward")] if depth else []))
    if k == "int":
        return t.below(20) - 5
    if k == "big":
        return t.pick([2 ** 63, -2 ** 70, 2 ** 53 + 1])
    if k == "float":
        return t.pick([0.5, 0.0, -0.0, 1.0, 1e300, 0.1])
    if k == "odd":
        return t.pick([float("inf"), float("-inf"), float("nan")])
    if k == "str":
        return t.pick(["", "a", u"\u4e2d", "ref", "x\x00y"])
    if k == "bytes":
        return t.pick([b"", b"a", b"\xff"])
    if k == "bool":
        return t.flag()
    if k == "None":
        return None
    if k == "scalar":
        return t.pick([numpy.int64(3), numpy.float32(0.5), numpy.bool_(True), numpy.uint8(7), numpy.float64("nan")])
    if k == "complex":
        return 1 + 2j
    if k == "set":
        return frozenset([1, 2])
    if k == "dtype":
        return numpy.dtype(t.pick(["int32", ">f8", "S3"]))
    if k == "function":
        return t.pick([mark, len, json.loads, numpy.sum])
    if k == "class":
        return t.pick([P, dict, awkward0.JaggedArray])
    if k in ("P", "J"):
        return (P if k == "P" else J)(t.pick([1, "a", 2.5, None, [1, 2]]))
    if k == "list":
        return [anyobject(t, depth - 1) for _ in range(t.below(4))]
    if k == "tuple":
        return tuple(anyobject(t, depth - 1) for _ in range(t.below(3)))
    if k == "dict":
        return dict((t.pick(["a", "call", "json", "ref", "id", "", "read"]), anyobject(t, depth - 1)) for _ in range(t.below(4)))
    if k == "keys":
        return dict((t.pick([1, 2, "a", (1, 2), None, True, 1.5]), anyobject(t, depth - 1)) for _ in range(t.below(3)))
    if k == "array":
        return numpy.arange(t.below(4)) * t.pick([1, 0.5])
    return JaggedArray.fromiter([[1, 2], [], [t.below(5)]])


OPEN = [["*"]]


def parameters(t):
    """the Python objects that object arrays and virtual arrays carry come back as they were"""
    args = tuple(anyobject(t) for _ in range(t.below(4)))
    if args and t.chance(0.3):
        args = args + (args[0],)         # one object in two places
    kwargs = dict((k, anyobject(t)) for k in ("p", "q")[:t.below(3)])
    t.note("parameters", [args, kwargs])
    t.nontrivial = len(args) + len(kwargs) > 1
    m = t.below(3)
    n = t.between(1, 3)
    if m == 0:
        a = ObjectArray(numpy.arange(n), mark, args, kwargs)
    elif m == 1:
        a = VirtualArray(virtuallist, args, kwargs, persistvirtual=True)
    else:
        a = JaggedArray.fromcounts([n], ObjectArray(numpy.arange(n), mark, args, kwargs))
    st = Bytes()
    persist.serialize(a, st)
    listed = list(persist.keys(st, ""))
    t.check(sorted(set(listed)) == sorted(st), lambda: "keys() lists %r, but %r were written" % (sorted(listed), sorted(st)))
    b = persist.deserialize(st, whitelist=OPEN)
    t.evals += 1
    if m == 1:
        got = b.array[0]
    else:
        x = (b if m == 0 else b[0])[n - 1]
        t.check(x.x == n - 1, "the data of an object")
        got = x.args, x.kwargs
    t.check(exactly(args, got[0]) and exactly(kwargs, got[1]), lambda: "%r came back as %r" % ((args, kwargs), got))


def pyobjects(t):
    """Numpy arrays of Python objects"""
    n = t.length(5)
    vals = [anyobject(t, 0) for _ in range(n)]
    vals = [None if callable(x) else x for x in vals]
    x = numpy.empty(n, dtype=object)
    for i, y in enumerate(vals):
        x[i] = y
    t.note("objects", vals)
    t.nontrivial = n > 1
    m = t.below(4)
    if m == 0:
        a, want = x, vals
    elif m == 1:
        a, want = JaggedArray.fromcounts([n, 0], x), [vals, []]
    elif m == 2:
        a, want = Table(p=x, q=numpy.arange(n)), [{"p": y, "q": i} for i, y in enumerate(vals)]
    else:
        k = [t.below(n) for _ in range(t.below(4))] if n else []
        a, want = IndexedArray(numpy.array(k, dtype="int64"), x), [vals[i] for i in k]
    st = Bytes()
    persist.serialize(a, st)
    b = persist.deserialize(st, whitelist=OPEN)
    t.evals += 1
    if m == 0:
        t.check(isinstance(b, numpy.ndarray) and b.dtype == a.dtype, lambda: "came back as a %s of %s" % (type(b), getattr(b, "dtype", None)))
        got = list(b)
    elif m == 1:
        got = [list(y) for y in b]
    elif m == 2:
        got = [{"p": y["p"], "q": int(y["q"])} for y in b]
    else:
        got = list(b)
    t.check(exactly(want, got), lambda: "%r came back as %r" % (want, got))
    if n:
        # reading objects back is running code, which needs permission
        g = attempt(lambda: persist.deserialize(st, whitelist=[["awkward0", "*Array*"], ["awkward0", "Table*"], ["awkward0", "numpy", "frombuffer"]]))
        t.check(isinstance(g, Refused), lambda: "loaded %r without permission" % (g,))


SUBS = [Sub("types", types, 3000), Sub("legacy", legacy, 2000), Sub("parameters", parameters, 2000), Sub("pyobjects", pyobjects, 1500), Sub("memory", memory, 7200), Sub("pickled", pickled, 3600), Sub("files", files, 1800), Sub("hdf", hdf, 1200), Sub("basic", basic, 3600), Sub("virtual", virtual, 3000),
        Sub("shared", shared, 2400)]
