"""C19: high-level types."""
from .common import *
from awkward0.type import ArrayType, TableType, UnionType, OptionType

ID = "C19"
RULE = ("a case builds a type (nested to depth 4, possibly shared or recursive) and a rewritten, changed or unrelated one, or arrays of one type in two layouts; "
        "non-trivial: a composite type")

PRIMS = ("bool", "int8", "int64", "uint8", "float32", "float64", ">i4", "complex128", "M8[s]", "S3")
FIELDS = ("x", "y", "z", "0", "a b")


def gen(t, depth):
    """a reference type: ("prim", dtype), ("str",), ("arr", n, T), ("tab", ((n, T)...)), ("uni", (T...)), ("opt", T)"""
    k = t.wpick([(4, "prim"), (1, "str")] + ([(4, "arr"), (3, "tab"), (3, "uni"), (2, "opt")] if depth > 0 else []))
    if k == "prim":
        return ("prim", t.pick(PRIMS))
    if k == "str":
        return ("str",)
    if k == "arr":
        return ("arr", t.pick([0, 1, 2, 3, "inf", "inf"]), gen(t, depth - 1))
    if k == "tab":
        names = t.shuffle(FIELDS)[:t.wpick([(0.3, 0), (2, 1), (3, 2), (1, 3)])]
        if t.chance(0.3):
            n = t.pick([2, 3, "inf"])
            return ("tab", tuple((m, ("arr", n, gen(t, depth - 2))) for m in names))
        return ("tab", tuple((m, gen(t, depth - 1)) for m in names))
    if k == "uni":
        return ("uni", tuple(gen(t, depth - 1) for _ in range(t.between(1, 3))))
    return ("opt", gen(t, depth - 1))


def canon(T):
    """unions flat and without order, options not nested, tables as deep as possible, fields without order"""
    k = T[0]
    if k == "arr":
        return ("arr", T[1], canon(T[2]))
    if k == "opt":
        x = canon(T[1])
        return x if x[0] == "opt" else ("opt", x)
    if k == "uni":
        out = []
        for x in T[1]:
            x = canon(x)
            out.extend(x[1] if x[0] == "uni" else [x])
        return ("uni", tuple(sorted(out, key=repr)))
    if k == "tab":
        fields = [(n, canon(x)) for n, x in T[1]]
        takes = set(x[1] if x[0] == "arr" else "no" for _, x in fields)
        if len(takes) == 1 and not takes & {"no", "inf"}:
            return ("arr", takes.pop(), canon(("tab", tuple((n, x[2]) for n, x in fields))))
        return ("tab", tuple(sorted(fields, key=repr)))
    return T


def make(t, T):
    """the library's type, made in different ways"""
    k = T[0]
    if k == "prim":
        return numpy.dtype(T[1])
    if k == "str":
        return str
    if k == "arr":
        n = float("inf") if T[1] == "inf" else t.pick([int, numpy.int64])(T[1])
        return ArrayType(n, make(t, T[2]))
    if k == "opt":
        return OptionType(make(t, T[1]))
    if k == "uni":
        parts = [make(t, x) for x in T[1]]
        if len(parts) > 1 and isinstance(parts[0], awkward0.type.Type) and not isinstance(parts[0], UnionType) and not any(isinstance(x, UnionType) for x in parts) and t.chance(0.3):
            out = parts[0]
            for x in parts[1:]:
                out = out | x
            return out
        out = UnionType(*parts)
        if len(parts) > 1 and t.chance(0.3):
            # unions of unions have the possibilities of all of them
            i = t.between(1, len(parts) - 1)
            l, r = parts[:i], parts[i:]
            if not any(isinstance(x, UnionType) for x in parts):
                l = UnionType(*l) if len(l) > 1 or not isinstance(l[0], awkward0.type.Type) or t.flag() else l[0]
                r = UnionType(*r) if len(r) > 1 or not isinstance(l, UnionType) or t.flag() else r[0]
                out = l | r
        return out
    fields = [(n, make(t, x)) for n, x in T[1]]
    how = t.below(3)
    if how == 0:
        return TableType(**dict(fields))
    if how == 1 and fields:
        out = ArrayType(*fields[0])
        for f in fields[1:]:
            out = out & ArrayType(*f)
        return out
    out = TableType()
    for n, x in fields:
        out[n] = x
    return out


def rewrite(t, T):
    """another way of writing the same type"""
    k = T[0]
    if k == "arr":
        x = rewrite(t, T[2])
        if T[1] != "inf" and x[0] == "tab" and len(x[1]) and t.flag():
            return ("tab", tuple((n, ("arr", T[1], y)) for n, y in x[1]))
        return ("arr", T[1], x)
    if k == "opt":
        x = rewrite(t, T[1])
        for _ in range(t.below(3)):
            x = ("opt", x)
        return ("opt", x)
    if k == "uni":
        xs = t.shuffle([rewrite(t, x) for x in T[1]])
        if len(xs) > 1 and t.flag():
            k = t.between(1, len(xs) - 1)
            xs = [("uni", tuple(xs[:k]))] + list(xs[k:]) if t.flag() else list(xs[:k]) + [("uni", tuple(xs[k:]))]
        if t.chance(0.3):
            xs = [("uni", tuple(xs))]
        return ("uni", tuple(xs))
    if k == "tab":
        return ("tab", tuple(t.shuffle([(n, rewrite(t, x)) for n, x in T[1]])))
    return T


def change(t, T):
    """a type with one thing changed somewhere"""
    k = T[0]
    if k in ("arr", "opt", "uni", "tab") and t.chance(0.6):
        if k == "arr":
            return ("arr", T[1], change(t, T[2]))
        if k == "opt":
            return ("opt", change(t, T[1]))
        if len(T[1]):
            i = t.below(len(T[1]))
            xs = list(T[1])
            xs[i] = change(t, xs[i]) if k == "uni" else (xs[i][0], change(t, xs[i][1]))
            return (k, tuple(xs))
    if t.chance(0.3):
        return ("opt", T)
    if k == "prim":
        return ("prim", t.pick(PRIMS))
    if k == "str":
        return ("prim", "S3")
    if k == "arr":
        return ("arr", t.pick([0, 1, 2, 3, 4, "inf"]), T[2]) if t.flag() else T[2]
    if k == "opt":
        return T[1]
    if k == "uni":
        if len(T[1]) > 1 and t.flag():
            i = t.below(len(T[1]))
            return ("uni", T[1][:i] + T[1][i + 1:])
        return ("uni", T[1] + (t.pick(T[1]),))
    if k == "hole":
        return ("prim", "S3")
    if len(T[1]) and t.flag():
        i = t.below(len(T[1]))
        if t.flag():
            return ("tab", T[1][:i] + T[1][i + 1:])
        return ("tab", T[1][:i] + (("q", T[1][i][1]),) + T[1][i + 1:])
    return ("tab", T[1] + (("q", ("prim", "int64")),))


def composite(T):
    return T[0] not in ("prim", "str")


def pairs(t):
    T = gen(t, t.between(1, 4))
    how = t.below(4)
    S = T if how == 0 else rewrite(t, T) if how == 1 else change(t, rewrite(t, T)) if how == 2 else gen(t, t.between(0, 3))
    t.assume(composite(T) and composite(S))
    a, b = make(t, T), make(t, S)
    t.note("one", T)
    t.note("two", S)
    t.nontrivial = True
    want = canon(T) == canon(S)
    before = repr(a), repr(b), str(a), str(b)
    t.check((a == b) is want, lambda: "== is %r, expected %r" % (a == b, want))
    t.check((b == a) is want, lambda: "== the other way is %r, expected %r" % (b == a, want))
    t.check((a != b) is (not want), lambda: "!= is %r" % (a != b,))
    t.check(a == a and b == b, "a type differs from itself")
    t.evals += 4
    if want:
        t.check(hash(a) == hash(b), "equal types with different hashes")
        t.check(len(set([a, b])) == 1, "equal types are two elements of a set")
    # comparing does not change
    t.check((repr(a), repr(b), str(a), str(b)) == before, "comparing changed a type")
    t.check(a != 3 and not (a == "x") and not (a == None), "equal to something that is not a type")  # noqa: E711
    # transitivity
    R = rewrite(t, S)
    c = make(t, R)
    t.check((a == c) is want, lambda: "== to a rewritten equal type (%r) is %r, expected %r" % (R, a == c, want))


def info(t):
    """shape, dtype, columns, printing"""
    T = gen(t, t.between(1, 4))
    t.assume(composite(T))
    a = make(t, T)
    t.note("type", T)
    t.nontrivial = True
    s, r = str(a), repr(a)
    for n in names(T):
        t.check(repr(n) in s, lambda: "field %r is not in %s" % (n, s))
        t.check(n in r, lambda: "field %r is not in %s" % (n, r))
    t.check("".join(s.split()) == squeezed(T), lambda: "printed as %s\nfor %r" % (s, T))
    if plainnames(T):
        b = eval(r, dict(SCOPE))
        t.check(b == a and repr(b) == r, lambda: "repr %s is the type %r" % (r, b))
    for n in FIELDS + ("q",):
        t.check(a.hascolumn(n) is hascol(T, n), lambda: "hascolumn(%r) is %r, expected %r" % (n, a.hascolumn(n), hascol(T, n)))
    t.evals += 4
    sh = []
    x = T
    while x[0] == "arr" and x[1] != "inf":
        sh.append(x[1])
        x = x[2]
    if x[0] == "prim":
        if sh:
            t.check(a.shape == tuple(sh), lambda: "shape %r, expected %r" % (a.shape, tuple(sh)))
            t.check(a.dtype == numpy.dtype(x[1]), lambda: "dtype %r, expected %r" % (a.dtype, x[1]))
            t.check(a.isnumpy is True, "is not Numpy")
            b = awkward0.type.fromnumpy(tuple(sh), numpy.dtype(x[1]))
            t.check(b == a and hash(b) == hash(a), lambda: "fromnumpy gives %r" % (b,))
            m = awkward0.type.fromnumpy(tuple(sh), numpy.dtype(x[1]), masked=True)
            t.check(m == OptionType(a) and m != a, lambda: "fromnumpy masked gives %r" % (m,))
            if len(sh) > 1:
                b = awkward0.type.fromnumpy(sh[0], numpy.dtype((x[1], tuple(sh[1:]))))
                t.check(b == a, lambda: "fromnumpy of a sub-array dtype gives %r" % (b,))
    elif x[0] == "arr":
        t.check(a.shape == tuple(sh) and a.dtype == numpy.dtype(object), lambda: "shape %r dtype %r, expected %r and object" % (a.shape, a.dtype, tuple(sh)))
        t.check(a.isnumpy is False, "is Numpy")
    elif x[0] == "tab":
        t.check(a.shape == tuple(sh), lambda: "shape %r, expected %r" % (a.shape, tuple(sh)))
        if x[1] and all(y[0] == "prim" for _, y in x[1]):
            want = numpy.dtype([(n, y[1]) for n, y in x[1]])
            t.check(a.dtype == want, lambda: "dtype %r, expected %r" % (a.dtype, want))
            t.check(a.isnumpy is True, "is not Numpy")
    # what a type may take
    for bad in (-1, 1.5, "3x", None):
        if not isinstance(bad, str):
            r = attempt(lambda: ArrayType(bad, numpy.dtype(float)))
            t.check(isinstance(r, Refused), lambda: "ArrayType(%r, float) is allowed" % (bad,))


def squeezed(T):
    """the type as printed, without white space"""
    k = T[0]
    if k == "prim":
        return "".join(str(numpy.dtype(T[1])).split())
    if k == "str":
        return "<class'str'>"
    if k == "arr":
        return "[0,%s)->%s" % (T[1], squeezed(T[2]))
    if k == "opt":
        return "?(%s)" % squeezed(T[1])
    if k == "uni":
        return "(%s)" % "|".join(squeezed(x) for x in T[1])
    return "".join("%s->%s" % ("".join(repr(n).split()), squeezed(x)) for n, x in T[1])


def plainnames(T):
    return all(n.isidentifier() for n in names(T)) and "'str'," not in repr(T)


SCOPE = dict(ArrayType=ArrayType, TableType=TableType, UnionType=UnionType, OptionType=OptionType, dtype=numpy.dtype, inf=float("inf"))


def edits(t):
    """types are changed in place: fields and alternatives read, replaced, removed and joined"""
    T = gen(t, t.between(1, 4))
    t.assume(composite(T))
    a = make(t, T)
    for _ in range(t.between(1, 4)):
        t.note("type", T)
        hash(a), repr(a)
        T, a = edit(t, T, a)
        if not composite(T):
            break
        t.nontrivial = True
        b = make(t, T)
        t.evals += 1
        t.check(a == b and b == a and hash(a) == hash(b), lambda: "after the change: %r, expected %r" % (a, b))
        t.check("".join(str(a).split()) == squeezed(T), lambda: "after the change, printed as %s" % a)


def edit(t, T, a):
    """(the type after one change somewhere, the library's object after the same change)"""
    k = T[0]
    if k == "arr":
        t.check(a.takes == (float("inf") if T[1] == "inf" else T[1]), lambda: "takes is %r, expected %r" % (a.takes, T[1]))
        if composite(T[2]) and t.flag():
            x, y = edit(t, T[2], a.to)
            if y is not a.to:
                a.to = y
            return ("arr", T[1], x), a
        if t.flag():
            a.takes = 5
            return ("arr", 5, T[2]), a
        S = gen(t, 1)
        a.to = make(t, S)
        return ("arr", T[1], S), a
    if k == "opt":
        if composite(T[1]) and t.flag():
            x, y = edit(t, T[1], a.type)
            if y is not a.type:
                a.type = y
            return ("opt", x), a
        S = gen(t, 1)
        a.type = make(t, S)
        return ("opt", S), a
    if k == "uni":
        t.check(len(a) == len(T[1]), lambda: "a union of %d has length %r" % (len(T[1]), len(a)))
        i = t.below(len(T[1]))
        how = t.below(4)
        if how == 0 and composite(T[1][i]):
            x, y = edit(t, T[1][i], a[i])
            if y is not a[i]:
                a[i] = y
            return ("uni", T[1][:i] + (x,) + T[1][i + 1:]), a
        S = gen(t, 1)
        if how == 1 and len(T[1]) > 1:
            del a[i]
            return ("uni", T[1][:i] + T[1][i + 1:]), a
        if how == 2:
            a.append(make(t, S))
            return ("uni", T[1] + (S,)), a
        a[i] = make(t, S)
        return ("uni", T[1][:i] + (S,) + T[1][i + 1:]), a
    t.check(a.columns == [n for n, _ in T[1]] or len(set(a.columns)) == len(T[1]), lambda: "columns %r" % (a.columns,))
    how = t.below(4)
    S = gen(t, 1)
    if how == 0 and T[1]:
        i = t.below(len(T[1]))
        n, x = T[1][i]
        if composite(x):
            x, y = edit(t, x, a[n])
            if y is not a[n]:
                a[n] = y
            return ("tab", T[1][:i] + ((n, x),) + T[1][i + 1:]), a
    if how == 1 and T[1]:
        i = t.below(len(T[1]))
        del a[T[1][i][0]]
        t.check(T[1][i][0] not in a.columns, "a deleted field is still there")
        return ("tab", T[1][:i] + T[1][i + 1:]), a
    if how == 2:
        b = a & ArrayType("q", make(t, S))
        return ("tab", tuple(f for f in T[1] if f[0] != "q") + (("q", S),)), b
    n = t.pick([n for n, _ in T[1]] + ["q"])
    a[n] = make(t, S)
    if n in [m for m, _ in T[1]]:
        return ("tab", tuple((m, S if m == n else x) for m, x in T[1])), a
    return ("tab", T[1] + ((n, S),)), a


def layouts(t):
    """the layout of an array lists every array it is made of, at its place"""
    T, v, a = sample(t)
    t.assume(isinstance(a, AwkwardArray))
    if t.chance(0.2):
        # the same array twice
        a = Table(p=a, q=a)
        t.feature("shared")
    lo = a.layout
    keys = list(lo)
    t.check(len(lo) == len(keys) and keys == sorted(keys), "keys of the layout")
    seen = {}
    count = [0]

    def same_(x, y):
        return x is y or (isinstance(x, numpy.ndarray) and isinstance(y, numpy.ndarray) and x.dtype == y.dtype and numpy.array_equal(x, y))

    def kids(x):
        """(name of the argument, places, parts), and other arguments"""
        if isinstance(x, numpy.ndarray):
            return [], {"shape": x.shape, "dtype": x.dtype}
        if isinstance(x, StringArray):
            return [("content", 0, None)], {}
        if isinstance(x, JaggedArray):
            return [("starts", 0, x.starts), ("stops", 1, None), ("content", 2, x.content)], {}
        if isinstance(x, MaskedArray):
            d = {"maskedwhen": x.maskedwhen}
            if isinstance(x, BitMaskedArray):
                d["lsborder"] = x.lsborder
            return [("mask", 0, x.mask), ("content", 1, x.content)], d
        if isinstance(x, Table):
            return [(n, i, y) for i, (n, y) in enumerate(x.contents.items())], {}
        if isinstance(x, UnionArray):
            return [("tags", 0, x.tags), ("index", 1, x.index), ("contents", 2, list(x.contents))], {}
        if isinstance(x, AppendableArray):
            return [("chunks", 0, list(x.chunks))], {"chunkshape": x.chunkshape, "dtype": x.dtype}
        if isinstance(x, ChunkedArray):
            return [("chunks", 0, list(x.chunks))], {}
        if isinstance(x, SparseArray):
            return [("index", 0, x.index), ("content", 1, x.content)], {"length": x.length}
        if isinstance(x, IndexedArray):
            return [("index", 0, x.index), ("content", 1, x.content)], {}
        if isinstance(x, VirtualArray):
            return [("array", 0, x.array)] if x.ismaterialized else [], {"generator": x.generator, "args": x.args}
        if isinstance(x, ObjectArray):
            return [("content", 0, x.content)], {"generator": x.generator, "args": x.args, "kwargs": x.kwargs}
        raise RuntimeError("harness: %r" % type(x))

    def walk(pos, x):
        count[0] += 1
        t.check(pos in keys, lambda: "nothing at %r, where there is a %s" % (pos, type(x).__name__))
        node = lo[pos]
        t.check(tuple(node.position) == pos, "position")
        t.check(x is None or same_(node.array, x), lambda: "at %r is %r, expected %r" % (pos, node.array, x))
        x = node.array
        repr(node)
        if id(x) in seen:
            t.check(node.args is None and tuple(node.cls) == seen[id(x)], lambda: "an array seen at %r is %r at %r" % (seen[id(x)], node.cls, pos))
            return
        seen[id(x)] = pos
        t.check(node.cls is type(x), lambda: "class at %r is %r" % (pos, node.cls))
        parts, others = kids(x)
        args = dict((y.name, y.value) for y in node.args)
        for n, y in others.items():
            t.check(n in args and (args[n] is y or args[n] == y), lambda: "argument %r at %r is %r, expected %r" % (n, pos, args.get(n), y))
        for n, i, y in parts:
            many = isinstance(y, list)
            want = [pos + (i + j,) for j in range(len(y))] if many else pos + (i,)
            got = args.get(n)
            t.check((list(map(tuple, got)) if many else tuple(got)) == want, lambda: "argument %r at %r is %r, expected %r" % (n, pos, got, want))
            for p, z in zip(want, y) if many else [(want, y)]:
                walk(p, z)
    walk((), a)
    t.check(count[0] == len(keys), lambda: "%d parts, %d in the layout" % (count[0], len(keys)))
    lines = repr(lo).split("\n")
    if not any(isinstance(lo[k].array, SparseArray) and isinstance(lo[k].array.default, numpy.ndarray) for k in keys):          # the default may take several lines
        t.check(len(lines) == 1 + len(keys), lambda: "printed in %d lines for %d parts" % (len(lines), len(keys)))
        # every line has its position, its class and where its parts are
        for k, line in zip(keys, lines[1:]):
            head, _, rest = line.partition("]")
            t.check(head.lstrip("[").strip() == (", ".join(str(i) for i in k) or "()"), lambda: "line %r for %r" % (line, k))
            node, place = lo[k], lambda p: "layout[%s]" % (", ".join(str(i) for i in p) or "()")
            rest = rest[1:]
            t.check(len(rest) - len(rest.lstrip(" ")) == 2 * len(k), lambda: "depth of %r" % line)
            rest = rest.strip()
            if node.args is None:
                t.check(rest == "-> " + place(node.cls), lambda: "line %r, expected -> %s" % (line, place(node.cls)))
                continue
            t.check(rest.startswith(type(node.array).__name__ + "(") and rest.endswith(")"), lambda: "line %r of a %s" % (line, type(node.array).__name__))
            if isinstance(node.array, numpy.ndarray):
                sh = node.array.shape
                t.check(rest == "ndarray(shape=%s, dtype=%r)" % (sh[0] if len(sh) == 1 else sh, node.array.dtype), lambda: "line %r" % line)
                continue
            for n, i, y in kids(node.array)[0]:
                w = "%s=%s" % (n, "[%s]" % ", ".join(place(k + (i + j,)) for j in range(len(y))) if isinstance(y, list) else place(k + (i,)))
                t.check(w in rest, lambda: "%r is not in %r" % (w, rest))
    if len(keys) > 1:
        t.check(lo[keys[1]] is lo[keys[1][0] if len(keys[1]) == 1 else keys[1]], "an integer for a tuple")
    t.evals += count[0]


def names(T):
    if T[0] == "tab":
        out = set(n for n, _ in T[1])
        for _, x in T[1]:
            out |= names(x)
        return out
    if T[0] == "uni":
        return set().union(*[names(x) for x in T[1]])
    if T[0] == "arr":
        return names(T[2])
    if T[0] == "opt":
        return names(T[1])
    return set()


def hascol(T, n):
    if T[0] == "tab":
        return any(m == n for m, _ in T[1])
    if T[0] == "uni":
        return any(hascol(x, n) for x in T[1])
    if T[0] == "arr":
        return hascol(T[2], n)
    if T[0] == "opt":
        return hascol(T[1], n)
    return False


class Hole(object):
    """marks where a recursive type refers to its root"""


def gen_rec(t, depth, top=True):
    k = t.wpick([(0 if top else 2, "prim"), (0 if top else 3, "hole"), (4, "arr"), (3, "tab"), (2, "uni"), (1, "opt")] if depth > 0 else [(1, "prim"), (2, "hole")])
    if k == "prim":
        return ("prim", t.pick(PRIMS[:4]))
    if k == "hole":
        return ("hole",)
    if k == "arr":
        # (no finite value has a fixed number of itself)
        return ("arr", "inf", gen_rec(t, depth - 1, False))
    if k == "tab":
        return ("tab", tuple((n, gen_rec(t, depth - 1, False)) for n in t.shuffle(FIELDS)[:t.between(1, 3)]))
    if k == "uni":
        return ("uni", tuple(gen_rec(t, depth - 1, False) for _ in range(t.between(2, 3))))
    return ("opt", gen_rec(t, depth - 1, False))


def guarded(T, safe=False):
    """every hole is inside a list or a record (not just unions and options)"""
    if T[0] == "hole":
        return safe
    if T[0] == "arr":
        return guarded(T[2], True)
    if T[0] == "tab":
        return all(guarded(x, True) for _, x in T[1])
    if T[0] == "uni":
        return all(guarded(x, safe) for x in T[1])
    if T[0] == "opt":
        return guarded(T[1], safe)
    return True


def unroll(T, root, n):
    """replace holes by the whole, n times"""
    k = T[0]
    if k == "hole":
        return unroll(root, root, n - 1) if n > 0 else T
    if k == "arr":
        return ("arr", T[1], unroll(T[2], root, n))
    if k == "opt":
        return ("opt", unroll(T[1], root, n))
    if k == "uni":
        return ("uni", tuple(unroll(x, root, n) for x in T[1]))
    if k == "tab":
        return ("tab", tuple((m, unroll(x, root, n)) for m, x in T[1]))
    return T


def make_rec(T, root=None):
    k = T[0]
    if k == "hole":
        return root
    if k == "prim":
        return numpy.dtype(T[1])
    if k == "arr":
        out = ArrayType.__new__(ArrayType)
        out.takes = float("inf")
        out.to = make_rec(T[2], root if root is not None else out)
        return out
    if k == "opt":
        out = OptionType.__new__(OptionType)
        out.type = make_rec(T[1], root if root is not None else out)
        return out
    if k == "uni":
        out = UnionType()
        for x in T[1]:
            out.append(make_rec(x, root if root is not None else out))
        return out
    out = TableType()
    for n, x in T[1]:
        out[n] = make_rec(x, root if root is not None else out)
    return out


def depthcanon(T, root, depth):
    """the type unrolled to a depth, for comparison"""
    if depth == 0:
        return "..."
    k = T[0]
    if k == "hole":
        return depthcanon(root, root, depth)
    if k == "arr":
        return ("arr", T[1], depthcanon(T[2], root, depth - 1))
    if k == "tab":
        return ("tab", tuple(sorted(((m, depthcanon(x, root, depth - 1)) for m, x in T[1]), key=repr)))
    if k == "uni":
        return ("uni", tuple(sorted((depthcanon(x, root, depth - 1) for x in T[1]), key=repr)))
    if k == "opt":
        return ("opt", depthcanon(T[1], root, depth - 1))
    return T


def recursive(t):
    """types that contain themselves: printing, comparing and hashing them ends, and is right"""
    T = gen_rec(t, t.between(1, 3))
    t.assume(guarded(T) and "hole" in repr(T) and not flattens(T, T) and not flattens(unroll(T, T, 1), T))
    t.note("type", T)
    t.nontrivial = True
    a = make_rec(T)
    t.check("T0" in repr(a) and "T0" in str(a), lambda: "printed as %r" % (a,))
    how = t.below(3)
    if how == 0:
        b, want = make_rec(T), True
        S = T
    elif how == 1:
        # one more or two more turns before it closes
        S = unroll(T, T, t.between(1, 2))
        b, want = make_rec(S), True
    else:
        S = change_rec(t, T)
        t.assume(guarded(S) and not flattens(S, S))
        b = make_rec(S)
        want = depthcanon(T, T, 7) == depthcanon(S, S, 7)
    t.note("two", S)
    t.check((a == b) is want, lambda: "== is %r, expected %r" % (a == b, want))
    t.check((b == a) is want, lambda: "== the other way is %r, expected %r" % (b == a, want))
    t.evals += 2
    h = hash(a)
    if want:
        t.check(h == hash(b), "equal types with different hashes")
    t.check(a.hascolumn("q") is hascol(T, "q"), "hascolumn")
    a.isnumpy


def flattens(T, root):
    """a union directly in a union, or an option in an option (equal to something simpler, decided elsewhere)"""
    k = T[0]
    if k == "uni":
        return any(x[0] in ("uni",) or (x[0] == "hole" and root[0] == "uni") or flattens(x, root) for x in T[1])
    if k == "opt":
        return T[1][0] == "opt" or (T[1][0] == "hole" and root[0] == "opt") or flattens(T[1], root)
    if k == "arr":
        return flattens(T[2], root)
    if k == "tab":
        return any(flattens(x, root) for _, x in T[1])
    return False


def change_rec(t, T):
    S = change(t, T)
    for _ in range(3):
        if "('arr', 0" not in repr(S) and "('arr', 1" not in repr(S) and not any("('arr', %d" % i in repr(S) for i in (2, 3, 4)):
            break
        S = change(t, T)
    t.assume(not any("('arr', %d" % i in repr(S) for i in range(5)) and S[0] in ("arr", "tab", "uni", "opt"))
    return S


NOEMPTY = frozenset(ALL) - frozenset(["emptychunk"])


def arrays(t):
    """arrays of equal values in two layouts have equal types"""
    T = gen_type(t, t.below(3), nums=NUMS)
    n = t.length(6, 1)
    v = gen_values(t, T, n)
    lay = Layout(NOEMPTY, p=0.4)
    a = build(t, T, v, lay, wrap=t.below(3))
    b = build(t, T, v, lay, wrap=t.below(3))
    t.note("type", tstr(T))
    t.note("one", describe(a))
    t.note("two", describe(b))
    t.nontrivial = T[0] != "num"
    x, y = awkward0.type.fromarray(a), awkward0.type.fromarray(b)
    # a chunk may be empty inside (lists of nothing in a chunk have no type)
    inner = t.features & {"chunked", "appendable"} and has(T, "list", "opt", "union") or has(T, "union") and has(T, "list", "opt")
    if not inner:
        t.check(x == y and y == x, lambda: "types %r and %r" % (x, y))
        t.check(hash(x) == hash(y), "hashes of the types")
        if not has(T, "union"):
            t.check(gottype(x) == ("array", n, wanttype(T)), lambda: "type %r, expected %r" % (gottype(x), wanttype(T)))
    t.evals += 2
    t.check(x.takes == n, "length in the type")
    if isinstance(a, AwkwardArray):
        t.check(a.type == x, lambda: ".type is %r, fromarray gives %r" % (a.type, x))
        lo = a.layout
        t.check(len(lo) >= 1 and lo[()].cls is type(a) and lo[()].array is a, "layout of the top")
        keys = list(lo)
        t.check(keys == sorted(keys) and len(keys) == len(lo), "layout keys")
        for k in keys:
            t.check(tuple(lo[k].position) == tuple(k), "position")
            repr(lo[k])
        repr(lo), str(lo)
    for z in (x, y):
        repr(z), str(z)
    repr(a), str(a), repr(b), str(b)
    if T[0] in ("num", "nd"):
        sh = (n,) + tuple(T[2] if T[0] == "nd" else ())
        for z in (a, b):
            t.check(tuple(z.shape) == sh, lambda: "shape %r, expected %r" % (z.shape, sh))
            t.check(z.dtype == numpy.dtype(T[1]), lambda: "dtype %r, expected %r" % (z.dtype, T[1]))
            t.check(z.ndim == len(sh), lambda: "ndim %r" % (z.ndim,))
            t.check(z.size == numpy.prod(sh), lambda: "size %r, expected %r" % (z.size, numpy.prod(sh)))
        t.evals += 4
    elif T[0] == "list":
        t.check(tuple(a.shape) == (n,) and a.dtype == numpy.dtype(object) and a.ndim == 1 and a.size == n, lambda: "shape %r dtype %r" % (a.shape, a.dtype))
    elif T[0] in ("rec", "tup") and isinstance(a, AwkwardArray):
        t.check(tuple(a.shape) == (n,) and a.size == n, lambda: "shape %r" % (a.shape,))
    # another length, or one item less, is another type
    c = a[:n - 1]
    z = awkward0.type.fromarray(c)
    t.check(z != x and z.takes == n - 1, lambda: "type of a slice is %r" % (z,))


def trees(t):
    """arrays that contain themselves (trees of records and lists)"""
    n = t.between(1, 6)
    # node i has the children starts[i]:stops[i] of the node list; only later nodes, so that it ends
    starts, stops = [], []
    for i in range(n):
        lo = t.between(i + 1, n)
        hi = t.between(lo, n)
        starts.append(lo)
        stops.append(hi)
    vals = [t.below(10) for _ in range(n)]
    tab = Table()
    tab["v"] = numpy.array(vals)
    kids = JaggedArray(numpy.array(starts), numpy.array(stops), tab)
    tab["c"] = kids
    t.note("children", list(zip(starts, stops)))
    t.nontrivial = n >= 2

    def want(i):
        return {"v": vals[i], "c": [want(j) for j in range(starts[i], stops[i])]}
    expect(t, tab, [want(i) for i in range(n)], "tree")
    x = awkward0.type.fromarray(tab)
    T = TableType()
    T["v"] = numpy.dtype("int64")
    T["c"] = ArrayType(float("inf"), T)
    t.check(x == ArrayType(n, T), lambda: "type %r" % (x,))
    t.check(hash(x) == hash(ArrayType(n, T)), "hash")
    t.check(x != ArrayType(n + 1, T), "length")
    t.check(ArrayType(float("inf"), x.to) == awkward0.type.fromarray(kids).to, "type of the children")
    repr(x), str(x), repr(tab.layout), repr(tab), str(kids)
    i = t.below(n)
    expect(t, tab[i:], [want(j) for j in range(i, n)], "slice")
    expect(t, tab["c"]["v"], [[vals[j] for j in range(starts[i], stops[i])] for i in range(n)], "children")


def passing(t):
    """virtual arrays whose cache keeps nothing: each reading makes an array that is gone (and its identity free) a moment later"""
    k = t.between(2, 5)
    n = t.between(1, 3)
    same = t.flag()
    T = None
    sources = []
    for _ in range(k):
        if T is None or not same:
            T = gen_type(t, t.below(3), ("num", "num", "list", "rec", "rec", "opt", "str", "nd"))
        sources.append(build(t, T, gen_values(t, T, n), Layout(p=0), wrap=0))
        t.note("array", describe(sources[-1]))
    how = t.pick(["table", "union", "lists", "chunked"] if same else ["table", "union", "lists"])
    t.note("how", how)
    t.nontrivial = True

    def fresh(a):
        return a.copy() if isinstance(a, numpy.ndarray) else a.deepcopy()

    def assemble(parts):
        if how == "table":
            return Table.frompairs([("c%d" % i, x) for i, x in enumerate(parts)])
        if how == "union":
            return UnionArray.fromtags(numpy.arange(n * k) % k, parts)
        if how == "chunked":
            return ChunkedArray(parts, [n] * k)
        return Table.frompairs([("c%d" % i, JaggedArray(numpy.zeros(n, dtype="int64"), numpy.arange(n), x)) for i, x in enumerate(parts)])

    eager = assemble([fresh(x) for x in sources])
    lazy = assemble([VirtualArray(Gen(x, fresh=True), cache=Forgetful()) for x in sources])
    t.check(lazy.type == eager.type and eager.type == lazy.type, lambda: "type %r, expected %r" % (lazy.type, eager.type))
    t.check(str(lazy.type) == str(eager.type), lambda: "type %s, expected %s" % (lazy.type, eager.type))
    t.check(list(lazy.columns) == list(eager.columns), lambda: "columns %r, expected %r" % (lazy.columns, eager.columns))
    t.check(lazy.nbytes == eager.nbytes, lambda: "nbytes %r, expected %r" % (lazy.nbytes, eager.nbytes))
    x, y = attempt(lambda: lazy.rowname), attempt(lambda: eager.rowname)
    t.check(x == y or (isinstance(x, Refused) and isinstance(y, Refused)), lambda: "rowname %r, expected %r" % (x, y))
    expect(t, lazy, tolist(eager), "values")
    t.evals += 5


def bytesof(x, seen):
    """what README says nbytes is: the bytes of the buffers that an array refers to, each array counted once"""
    if isinstance(x, numpy.ndarray):
        return x.size * x.dtype.itemsize
    if id(x) in seen:
        return 0
    seen[id(x)] = x
    if isinstance(x, VirtualArray):
        return bytesof(x.array, seen)
    if isinstance(x, Table):
        return sum(bytesof(y, seen) for y in x.contents.values())
    if isinstance(x, (ChunkedArray, AppendableArray)):
        return sum(bytesof(y, seen) for y in x.chunks)
    if isinstance(x, UnionArray):
        return x.tags.nbytes + x.index.nbytes + sum(bytesof(y, seen) for y in x.contents)
    if isinstance(x, (JaggedArray, StringArray)):
        if x.starts.size == 0:
            seen["loose"] = True        # what stops goes beyond starts is not seen from outside
        if JaggedArray.offsetsaliased(x.starts, x.stops):
            own = (x.starts.size + 1) * x.starts.dtype.itemsize
        else:
            own = x.starts.nbytes + x.stops.nbytes
        return own + bytesof(x.content, seen)
    if isinstance(x, (IndexedArray, SparseArray)):
        return x.index.nbytes + bytesof(x.content, seen)
    if isinstance(x, MaskedArray):
        return x.mask.nbytes + bytesof(x.content, seen)
    return bytesof(x.content, seen)


def sizes(t):
    """nbytes of an array in any layout, of several columns of the same array, and of selections"""
    T, values, a = sample(t, lay=Layout(ALL - {"view"}, p=0.4), wrap=0)
    if isinstance(a, numpy.ndarray):
        a = IndexedArray(numpy.arange(len(a)), a)
    t.note("array", describe(a))
    seen = {}
    want = bytesof(a, seen)
    if "loose" in seen or "longstops" in t.features:
        t.check(a.nbytes >= want, lambda: "nbytes %r, expected %r or more" % (a.nbytes, want))
    else:
        t.check(a.nbytes == want, lambda: "nbytes %r, expected %r" % (a.nbytes, want))
    if t.flag():
        b = Table.frompairs([("x", a), ("y", a), ("z", numpy.arange(len(a)))])
        t.check(b.nbytes == a.nbytes + 8 * len(a), lambda: "nbytes of two columns of the same array: %r, of one: %r" % (b.nbytes, a.nbytes))
    else:
        b = JaggedArray.fromoffsets(numpy.array([0, len(a)]), a)
        t.check(b.nbytes == a.nbytes + 16, lambda: "nbytes in a list: %r, alone: %r" % (b.nbytes, a.nbytes))
    t.evals += 2


SUBS = [Sub("pairs", pairs, 30000), Sub("info", info, 12000), Sub("recursive", recursive, 12000), Sub("arrays", arrays, 15000), Sub("trees", trees, 2400), Sub("edits", edits, 8000), Sub("layouts", layouts, 8000), Sub("passing", passing, 3000), Sub("sizes", sizes, 4000)]
