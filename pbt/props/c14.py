"""C14: virtual arrays, against a model that counts generator calls and evicts from caches."""
from collections import OrderedDict
from .common import *
from .indexing import gen_index, gen_slice

ID = "C14"
RULE = ("a case draws generated values, a cache (none, dict, LRU, minimal interface, never storing) with or without persistent key and declared type, and a history of reads, property "
        "queries, copies, evictions, failures and column assignments compared with a list model and a count of generator calls; non-trivial: at least two steps")


class LRU(object):
    """a cache with room for a few arrays, with the whole mapping interface it needs"""

    def __init__(self, size):
        self.size = size
        self.d = OrderedDict()

    def __getitem__(self, k):
        self.d.move_to_end(k)
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v
        self.d.move_to_end(k)
        while len(self.d) > self.size:
            self.d.popitem(last=False)

    def __delitem__(self, k):
        del self.d[k]

    def __contains__(self, k):
        return k in self.d

    def clear(self):
        self.d.clear()

    def keys(self):
        return list(self.d)


class Minimal(object):
    """only the three methods a cache has to have"""

    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def clear(self):
        self.d.clear()

    def keys(self):
        return list(self.d)


class Never(object):
    """a cache that keeps nothing"""

    def __getitem__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        pass

    def __delitem__(self, k):
        raise KeyError(k)

    def __contains__(self, k):
        return False

    def clear(self):
        pass

    def keys(self):
        return []


class Maker(object):
    """a generator: builds a fresh array every time (or returns the same one), counts, checks its arguments, and fails on demand"""

    def __init__(self, make, args=(), kwargs=None, same=False):
        self.make, self.args, self.kwargs, self.same = make, args, kwargs or {}, same
        self.calls = 0
        self.failing = None
        self.memo = None

    def __call__(self, *args, **kwargs):
        if args != self.args or kwargs != self.kwargs:
            raise Violation("generator called with %r %r instead of %r %r" % (args, kwargs, self.args, self.kwargs))
        if self.failing is not None:
            raise self.failing
        self.calls += 1
        if self.same:
            if self.memo is None:
                self.memo = self.make()
            return self.memo
        return self.make()


class Boom(Exception):
    pass


def vtype(t):
    return t.wpick([(3, ("rec", (("x", ("num", "int64")), ("y", ("num", "float64"))))), (3, ("num", t.pick(NUMS[:5]))), (2, ("list", ("num", "int64"))), (1, ("str",)),
                    (1, ("nd", "float64", (2,))), (1, ("opt", ("num", "int64"))), (1, ("list", ("rec", (("x", ("num", "int64")),))))])


def intable(t, v, maker, model):
    """views of a table with v as a column do not need its values"""
    n = len(model)
    before = maker.calls
    tab = Table(q=v)
    if n == 0:
        return False
    s = gen_slice(t, n)
    row = tab[t.below(n)]
    view = tab[s]
    len(view), tab.columns, view.columns
    view2 = view[::-1]
    view3 = tab[numpy.array([t.flag() for _ in range(n)])]
    view3.columns
    repr(row)
    t.check(maker.calls == before, lambda: "slicing a table called the generator of its column")
    if t.flag():
        expect(t, view2["q"], model[s][::-1], "column of a view")
        return True
    return False


def history(t):
    """a history of reads, copies, evictions and column changes against a model that counts calls"""
    T = vtype(t)
    n = t.length(6)
    vals = gen_values(t, T, n)
    plainvals = plain(vals)
    t.note("type", tstr(T))
    t.note("values", vals)
    lay = Layout(frozenset(["scatter", "gap", "npstride", "boolmask", "indexmask", "longstops"]), 0.3)
    if T[0] == "rec":
        def make():
            return Table.frompairs([(k, numpy.array([r[k] for r in vals], dtype=S[1])) for k, S in T[1]])
    elif T[0] == "num" and n and T[1] in ("int64", "float64", "bool") and t.chance(0.3):
        make = lambda: list(vals)
    else:
        fixed = build(t, T, vals, lay, 0)
        make = lambda: fixed.copy()
    args = t.pick([(), (), (1,), (1, "a")])
    kwargs = t.pick([{}, {}, {"k": 3}])
    maker = Maker(make, args, kwargs)
    kind = t.pick(["none", "dict", "dict", "lru", "minimal", "never"])
    cache = {"none": lambda: None, "dict": dict, "lru": lambda: LRU(2), "minimal": Minimal, "never": Never}[kind]()
    key = t.pick([None, None, "mykey"]) if kind != "none" else None
    typed = t.chance(0.5)
    kw = {}
    if typed:
        kw["type"] = awkward0.type.fromarray(build(t, T, vals, Layout(PLAIN), 0))
    if t.chance(0.3):
        kw["nbytes"] = 1234
    giveargs = args if len(args) != 1 or t.flag() else args[0]
    v = VirtualArray(maker, giveargs, kwargs, cache=cache, persistentkey=key, **kw)
    t.note("cache", kind, "key", key, "typed", typed, "args", args, kwargs, sorted(kw))
    model = plainvals
    mat = False                  # is the value held (by the array or its cache)
    others = []                  # copies: (array, model, how)
    steps = t.between(1, 8)
    t.nontrivial = steps > 1
    never = kind == "never"
    rec = T[0] == "rec"
    nb = "nbytes" in kw
    cols = OrderedDict((k, True) for k, _ in T[1]) if rec else None

    for _ in range(steps):
        n = len(model)
        acts = ["read", "read", "index", "len", "type", "dtype", "ismat", "materialize", "evict", "evict", "copy", "deepcopy", "ufunc", "nbytes", "table", "settype", "fail", "str", "iter", "slice", "counts", "other"]
        if rec:
            acts += ["set", "set", "set", "del", "del", "column", "columns", "setlist", "dellist", "setscalar"]
        act = t.pick(acts)
        before = maker.calls
        needs = True             # does the step need the values
        wasmat = mat
        t.note("step", act)
        if act == "read":
            expect(t, v, model, "tolist")
        elif act == "iter":
            expect(t, [x for x in v], model, "iteration")
        elif act == "index":
            w, desc, fn = gen_index(t, n)
            got = attempt(lambda: v[w])
            if fn is None:
                t.check(isinstance(got, Refused) and isinstance(got.err, IndexError), lambda: "v[%s] gave %r" % (desc, got))
            else:
                t.check(not isinstance(got, Refused), lambda: "v[%s] raised %r" % (desc, got))
                expect(t, got, fn(model), "v[%s]" % desc)
        elif act == "slice":
            s = gen_slice(t, n)
            expect(t, v[s], model[s], "v[%r]" % s)
        elif act == "len":
            t.check(len(v) == n, lambda: "len %d" % len(v))
            needs = not typed
        elif act in ("type", "dtype"):
            needs = not typed
            got = gottype(v.type)
            if not (n == 0 and has(T, "list", "opt")):
                want = wanttype(T)
                if rec:
                    t.check(got[:2] == ("array", n) and sorted(k for k, _ in got[2][1]) == sorted(cols), lambda: "type %r" % (got,))
                else:
                    t.check(got == ("array", n, want), lambda: "type %r, expected %r" % (got, want))
            if act == "dtype":
                v.dtype
                t.check(tuple(v.shape)[0] == n, lambda: "shape %r" % (v.shape,))
        elif act == "ismat":
            t.check(bool(v.ismaterialized) == mat, lambda: "ismaterialized is %r, expected %r" % (v.ismaterialized, mat))
            needs = False
        elif act == "nbytes":
            if nb and not mat:
                t.check(v.nbytes == 1234, lambda: "nbytes %r" % v.nbytes)
                needs = False
            else:
                t.check(v.nbytes >= 0, "nbytes")
        elif act == "materialize":
            expect(t, v.materialize(), model, "materialize()")
            if wasmat:
                mat = not never
                continue         # an explicit request may call the generator again
        elif act == "evict":
            if cache is not None:
                mode = t.below(2)
                if mode == 0:
                    cache.clear()
                else:
                    for k in list(cache.keys()):
                        if k == v.key:
                            del cache[k]
                mat = False
            needs = False
        elif act in ("copy", "deepcopy"):
            if rec and (key is not None or (mat and act == "copy" and kind == "none")):
                continue         # they share one table
            c = v.copy() if act == "copy" else v.deepcopy()
            others.append((c, [dict(r) for r in model] if rec else list(model), act))
            needs = False
            t.check(maker.calls == before, lambda: "%s called the generator" % act)
            if act == "deepcopy" and hasattr(cache, "d") and isinstance(cache, LRU):
                mat = v.ismaterialized
        elif act == "ufunc":
            if T[0] == "num" and T[1] != "bool":
                expect(t, v + 1, (numpy.array(model, dtype=T[1]) + 1).tolist(), "v + 1")
            elif rec and n:
                expect(t, v + 1, [dict((k, x + 1) for k, x in r.items()) for r in model], "v + 1", eq=close)
            else:
                needs = False
        elif act == "counts":
            if T[0] == "list":
                expect(t, v.counts, [len(x) for x in model], "counts")
            else:
                needs = False
        elif act == "str":
            str(v)
            repr(v)
        elif act == "table":
            needs = False
            if typed:
                needs = intable(t, v, maker, model)
        elif act == "settype":
            needs = None
            if mat or typed:
                v.type = awkward0.type.fromarray(v.array)
                typed = True
            else:
                v.type = None
                needs = False
        elif act == "fail":
            if mat and kind != "never":
                continue
            maker.failing = t.pick([Boom("boom"), KeyError("boom"), IndexError("boom"), ValueError("boom")])
            got = attempt(lambda: v.array)
            t.check(isinstance(got, Refused), lambda: "the generator failed but the array gave %r" % (got,))
            got = attempt(lambda: v.tolist())
            t.check(isinstance(got, Refused) or (n == 0 and typed), lambda: "the generator failed but tolist gave %r" % (got,))
            maker.failing = None
            needs = False
            if not never:
                t.check(not v.ismaterialized, "ismaterialized after the generator failed")
        elif act == "other" and others:
            c, m, how = t.pick(others)
            expect(t, c, m, "the earlier %s" % how)
            before = maker.calls
            needs = None
            if cache is not None:
                mat = bool(v.ismaterialized)
        elif act in ("set", "setscalar"):
            k = t.pick(["x", "y", "z", "w"])
            if act == "set" or n == 0:
                val = [gen_num(t, "int64") for _ in range(n)]
                t.note(k, val)
                v[k] = numpy.array(val, dtype="int64") if t.flag() else list(val)
            else:
                val = [7] * n
                t.note(k, 7)
                v[k] = 7
            for r, x in zip(model, val):
                r[k] = x
            model = [dict(r) for r in model]
            cols[k] = True
        elif act == "setlist":
            ks = t.pick([["x", "z"], ["z", "w"], ["y", "x"]])
            v1 = [gen_num(t, "int64") for _ in range(n)]
            v2 = [gen_num(t, "float64") for _ in range(n)]
            t.note(ks, v1, v2)
            v[ks] = Table.frompairs([("a", numpy.array(v1, dtype="int64")), ("b", numpy.array(v2, dtype="float64"))])
            model = [dict(r) for r in model]
            for r, a, b in zip(model, v1, v2):
                r[ks[0]], r[ks[1]] = a, b
            cols[ks[0]] = cols[ks[1]] = True
        elif act == "del":
            if len(cols) < 2:
                continue
            k = t.pick(sorted(cols))
            t.note(k)
            del v[k]
            del cols[k]
            model = [dict((a, b) for a, b in r.items() if a != k) for r in model]
        elif act == "dellist":
            if len(cols) < 3:
                continue
            ks = t.shuffle(sorted(cols))[:2]
            t.note(ks)
            del v[ks]
            for k in ks:
                del cols[k]
            model = [dict((a, b) for a, b in r.items() if a not in ks) for r in model]
        elif act == "column":
            k = t.pick(sorted(cols))
            t.note(k)
            expect(t, v[k] if t.flag() else getattr(v, k), [r[k] for r in model], "column %s" % k)
        elif act == "columns":
            t.check(sorted(v.columns) == sorted(cols), lambda: "columns %r" % (v.columns,))
        else:
            needs = False
        called = maker.calls - before
        if needs is None:
            mat = bool(v.ismaterialized) if not never else False
            continue
        if needs:
            if never:
                t.check(called >= 1, lambda: "%s did not call the generator though nothing is cached" % act)
            elif wasmat:
                t.check(called == 0, lambda: "%s called the generator %d times though the array was materialized" % (act, called))
            else:
                t.check(called == 1, lambda: "%s called the generator %d times" % (act, called))
            mat = not never
        else:
            t.check(called == 0, lambda: "%s called the generator %d times" % (act, called))
        t.evals += 1
        if not never:
            t.check(bool(v.ismaterialized) == mat, lambda: "after %s ismaterialized is %r, expected %r" % (act, v.ismaterialized, mat))
    expect(t, v, model, "values at the end")
    if rec:
        t.check(sorted(v.columns) == sorted(cols), lambda: "columns at the end %r" % (v.columns,))
    for c, m, how in others:
        expect(t, c, m, "the earlier %s" % how)
    if isinstance(cache, dict) and key is None:
        mine = v.key
        held = mine in cache
        nothers = len([k for k in cache if k != mine])
        del v
        got = c = w = fn = None          # (an exception's traceback refers to v)
        t.check(mine not in cache and len(cache) == nothers, "the cache still holds an array that no longer exists")
        for c, m, how in others:
            expect(t, c, m, "the %s after its source was deleted" % how)


def wrongtype(t):
    """a declared type that the generated array does not have is an error, every time, and nothing is kept"""
    T = ("num", t.pick(["int64", "float64", "bool", "int32"]))
    S = t.pick([("num", "uint8"), ("list", ("num", "int64")), ("str",), ("rec", (("x", ("num", "int64")),)), ("num", T[1])])
    n = t.between(1, 4)
    vals = gen_values(t, T, n)
    other = gen_values(t, S, n if S != T else n + 1)
    declared = awkward0.type.fromarray(build(t, S, other, Layout(PLAIN), 0))
    maker = Maker(lambda: numpy.array(vals, dtype=T[1]))
    kind = t.below(3)
    cache = [None, {}, LRU(1)][kind]
    v = VirtualArray(maker, cache=cache, persistentkey=t.pick([None, "k"]) if kind else None, type=declared)
    t.note("values", T[1], vals, "declared", tstr(S), len(other), "cache", kind)
    t.nontrivial = True
    for _ in range(t.between(1, 3)):
        use = t.pick([lambda: v.array, lambda: v[0], lambda: v.tolist(), lambda: v + 1, lambda: v.materialize(), lambda: v[:]])
        got = attempt(use)
        t.check(isinstance(got, Refused) and isinstance(got.err, TypeError), lambda: "an array of another type was accepted: %r" % (got,))
        t.check(not v.ismaterialized, "ismaterialized after the type was found wrong")
        t.check(len(v) == len(other), "len is not the declared one")
    v.type = None
    expect(t, v, vals, "after dropping the declaration")


def chunks(t):
    """reading part of a chunked array of virtual arrays only calls the generators of the chunks it touches"""
    T = t.pick([("num", "int64"), ("list", ("num", "float64")), ("str",), ("rec", (("x", ("num", "int64")),))])
    parts = [gen_values(t, T, t.length(4, 1)) for _ in range(t.between(1, 4))]
    makers = [Maker(lambda p=p: build(t, T, p, Layout(PLAIN), 0)) for p in parts]
    arrays = [build(t, T, p, Layout(PLAIN), 0) for p in parts]
    for m, a in zip(makers, arrays):
        m.make = lambda a=a: a
    kind = t.below(2)
    vs = [VirtualArray(m, cache=None if kind == 0 else {}, type=awkward0.type.fromarray(a)) for m, a in zip(makers, arrays)]
    known = t.flag()
    a = ChunkedArray(vs, [len(p) for p in parts] if known else [])
    flat = plain([x for p in parts for x in p])
    t.note("parts", parts, "type", tstr(T), "sizes known", known)
    t.nontrivial = len(parts) > 1
    bounds = []
    k = 0
    for p in parts:
        bounds.append((k, k + len(p)))
        k += len(p)
    touched = set()
    len(a), a.type
    t.check(not any(m.calls for m in makers), "length or type of declared chunks called a generator")
    for _ in range(t.between(1, 4)):
        act = t.below(4)
        if act == 0:
            i = t.below(2 * k) - k
            t.note("index", i)
            expect(t, a[i], flat[i], "a[%d]" % i)
            touched |= set(c for c, (x, y) in enumerate(bounds) if x <= i % k < y)
        elif act == 1:
            i, j = sorted([t.below(k + 1), t.below(k + 1)])
            t.note("slice", i, j)
            expect(t, a[i:j], flat[i:j], "a[%d:%d]" % (i, j))
            if i == j:
                return           # the type of an empty result may come from any chunk
            touched |= set(c for c, (x, y) in enumerate(bounds) if x < j and i < y)
        elif act == 2:
            c = a.copy()
            t.check(c.chunks[0] is a.chunks[0], "copy made new chunks")
        else:
            b = Table(q=a)
            b[1:], b[::-1]
        for c, m in enumerate(makers):
            t.check(m.calls <= 1, lambda: "generator of chunk %d called %d times" % (c, m.calls))
            t.check(m.calls == 0 or c in touched, lambda: "generator of chunk %d called though only %r were read" % (c, sorted(touched)))
        t.evals += 1


def shared(t):
    """many virtual arrays in one or two small caches, with arrays disappearing and new ones reusing their identity"""
    size = t.between(1, 4)
    cache = LRU(size) if t.flag() else {}
    caches = [cache, None, LRU(size) if t.flag() else {}]
    live = {}
    count = 0
    t.nontrivial = True
    for _ in range(t.between(3, 20)):
        act = t.pick(["new", "new", "new", "read", "read", "recache", "replace", "read", "read", "drop", "evict", "copy", "recache", "rekey"])
        if act == "replace" and live:
            k = t.pick(sorted(live))
            t.note("drop", k)
            del live[k]             # and the next array is likely to get its identity
            act = "new"
        if act == "new":
            vals = [count * 10 + t.below(10) for _ in range(t.below(4))]
            mk = Maker(lambda vals=vals: numpy.array(vals, dtype="int64"))
            key = "key%d" % count if t.flag() else None
            which = t.pick([0, 0, 0, 1, 2])
            live[count] = (VirtualArray(mk, cache=caches[which], persistentkey=key), vals)
            t.note("new", count, vals, key, which)
            count += 1
        elif act == "evict":
            cache.clear()
            t.note("evict")
        elif live and act != "replace":
            k = t.pick(sorted(live))
            t.note(act, k)
            if act == "read":
                expect(t, live[k][0], live[k][1], "array %d" % k)
                expect(t, live[k][0][:1], live[k][1][:1], "array %d sliced" % k)
            elif act == "drop":
                del live[k]
            elif act == "recache":
                which = t.pick([0, 1, 2])
                t.note("which", which)
                live[k][0].cache = caches[which]
            elif act == "rekey":
                live[k][0].persistentkey = "new%d" % count
                count += 1
                if t.flag():
                    t.note("materialize")
                    live[k][0].materialize()
            else:
                live[count] = (live[k][0].copy(), live[k][1])
                count += 1
    for k in sorted(live):
        expect(t, live[k][0], live[k][1], "array %d at the end" % k)


def sameobject(t):
    """the generator hands out one and the same table; columns are assigned and deleted around evictions"""
    n = t.length(4)
    x = [gen_num(t, "int64") for _ in range(n)]
    maker = Maker(lambda: Table.frompairs([("x", numpy.array(x, dtype="int64")), ("y", numpy.array(x) * 0.5), ("z", numpy.array(x) * 2)]), same=True)
    cache = t.pick([dict, lambda: LRU(1), Never])()
    typed = t.flag()
    v = VirtualArray(maker, cache=cache, type=awkward0.type.fromarray(maker.make()) if typed else None)
    model = OrderedDict([("x", x), ("y", [0.5 * q for q in x]), ("z", [2 * q for q in x])])
    t.note("x", x, "cache", type(cache).__name__, "typed", typed)
    t.nontrivial = True
    for _ in range(t.between(1, 6)):
        act = t.pick(["del", "set", "evict", "read", "del"])
        t.note(act)
        if act == "del" and len(model) > 1:
            k = t.pick(sorted(model))
            t.note(k)
            del v[k]
            del model[k]
        elif act == "set":
            k = t.pick(["x", "y", "w"])
            val = [gen_num(t, "int64") for _ in range(n)]
            t.note(k, val)
            v[k] = numpy.array(val, dtype="int64")
            model[k] = val
        elif act == "evict":
            cache.clear()
        expect(t, v, [dict((k, model[k][i]) for k in model) for i in range(n)], "rows after %s" % act)
        t.check(sorted(v.columns) == sorted(model), lambda: "columns %r" % (v.columns,))


SUBS = [Sub("history", history, 80000), Sub("wrongtype", wrongtype, 4000), Sub("chunks", chunks, 12000), Sub("shared", shared, 12000), Sub("sameobject", sameobject, 8000)]
