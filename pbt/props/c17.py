"""C17: whitelists, and containers as mappings."""
import fnmatch
import io
import json
import os
import sys
import zipfile
import numpy
from .common import *
from awkward0 import persist

try:
    import h5py
except ImportError:
    h5py = None

ID = "C17"
RULE = ("a case draws a schema of nested calls, functions and pickles with a whitelist of wildcard patterns, or a history of puts, gets, deletes, listings, failures and re-openings of a container; "
        "non-trivial: at least 2 calls of which one is refused, or at least 4 operations")

CALLS = []
ME = "pbt.props.c17"


def record(*args, **kw):
    CALLS.append("record")
    return (args, kw)


def record2(*args, **kw):
    CALLS.append("record2")
    return [args, kw]


class Box(object):
    def __init__(self, *args):
        CALLS.append("Box")
        self.args = args

    def __eq__(self, other):
        return type(other) is Box and self.args == other.args

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 0

    @staticmethod
    def make(*args):
        CALLS.append("Box.make")
        return ("made",) + args

    @staticmethod
    def other(*args):
        CALLS.append("Box.other")
        return ("other",) + args


class Bomb(object):
    """unpickling calls a function"""
    def __init__(self, k):
        self.k = k

    def __reduce__(self):
        return (unbomb, (self.k,))


def unbomb(k):
    CALLS.append("unbomb")
    return k


# (specification, function, log entry)
FUNCS = [([ME, "record"], record, "record"), ([ME, "record2"], record2, "record2"), ([ME, "Box"], Box, "Box"), ([ME, "Box", "make"], Box.make, "Box.make"), ([ME, "Box", "other"], Box.other, "Box.other"),
         (["pbt.sidefx", "poke"], None, None)]

PATTERNS = [[ME], [ME, "record"], [ME, "rec*"], [ME, "Box"], [ME, "Box", "make"], [ME, "Box", "m*"], ["pbt.*"], ["pbt.props.*", "*"], [ME, "record", "extra"], [ME, "Box", "make", "x"], [ME, "*", "other"],
            ["*"], ["pbt", "props", "c17"], ["pbt.props.c16"], [ME, "recor"], [ME, "ecord"], [ME + "x"], ["PBT.*"], [ME, "RECORD"], [ME, "record?"], [ME, "[rB]*"], ["*.c17", "record"], [ME, "record", "*"],
            ["pbt.sidefx", "nopoke"], ["numpy", "frombuffer"], ["awkward0.persist"], ["awkward0.persist", "topython"], ["awkward0.persist", "to*"], ["awkward0.persist", "frompython"]]


def allowed(spec, white):
    return any(len(spec) >= len(w) and all(fnmatch.fnmatchcase(s, p) for s, p in zip(spec, w)) for w in white)


class Stop(Exception):
    pass


class Spec(object):
    def __init__(self, t, white):
        self.t, self.white = t, white
        self.calls, self.refused, self.n = [], 0, 0
        self.ids = {}

    def expr(self, depth):
        """(schema, function computing the value in loading order)"""
        t = self.t
        self.n += 1
        k = t.below(9 if depth > 0 else 3)
        if k == 0:
            v = t.pick([None, 1, "x", [1, {"a": 2}], {"call": [ME, "record"]}, True, {"python": "!"}])
            return {"json": v}, lambda: v
        if k == 1:
            spec, fn, log = t.pick(FUNCS)
            return {"function": spec}, lambda: self.call(spec, fn, None)
        if k == 2:
            x = t.below(100)
            py = Bomb(x)

            def run():
                if not allowed(["awkward0.persist", "topython"], self.white):
                    raise Stop()
                self.calls.append("unbomb")
                return x
            return {"python": persist.frompython(py)}, run
        if k in (3, 4, 5):
            spec, fn, log = t.pick(FUNCS)
            args = [self.expr(depth - 1) for _ in range(t.below(3))]
            kw = {}
            if fn in (record, record2):
                for n in ("p", "q"):
                    if t.chance(0.3):
                        kw[n] = self.expr(depth - 1)
            out = {"call": spec}
            if args or t.flag():
                out["args"] = [s for s, f in args]
            if kw:
                out["kwargs"] = dict((n, s) for n, (s, f) in kw.items())

            def run():
                f = self.call(spec, fn, None)
                a = [g() for s, g in args]
                b = dict((n, g()) for n, (s, g) in kw.items())
                self.calls.append(log)
                return {"record": lambda: (tuple(a), b), "record2": lambda: [tuple(a), b], "Box": lambda: (Box, tuple(a)), "Box.make": lambda: ("made",) + tuple(a), "Box.other": lambda: ("other",) + tuple(a)}[log]()
            return out, run
        if k == 6:
            xs = [self.expr(depth - 1) for _ in range(t.below(3))]
            w = t.pick(["list", "tuple"])
            return {w: [s for s, g in xs]}, lambda: (list if w == "list" else tuple)(g() for s, g in xs)
        if k == 7:
            xs = [("k%d" % i, self.expr(depth - 1)) for i in range(t.below(3))]
            return {"dict": dict((n, s) for n, (s, g) in xs)}, lambda: dict((n, g()) for n, (s, g) in xs)
        xs = [(t.pick("ab"), self.expr(depth - 1)) for i in range(t.below(3))]
        return {"pairs": [[n, s] for n, (s, g) in xs]}, lambda: [(n, g()) for n, (s, g) in xs]

    def call(self, spec, fn, log):
        if not allowed(spec, self.white) or fn is None:
            raise Stop()
        return fn


def norm(x):
    if isinstance(x, Box):
        return (Box, tuple(norm(y) for y in x.args))
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return dict((k, norm(y)) for k, y in x.items())
    return x


PLAINKINDS = ("num", "list", "rec", "opt", "str", "union", "bytes", "tup", "nd")      # (pickles of objects need permission of their own)


def whitelist(t):
    """(argument, list of patterns)"""
    m = t.below(6)
    if m == 0:
        w = t.pick(PATTERNS)
        return (w[0], [[w[0]]]) if t.flag() else (w, [w])
    if m == 1:
        w = persist.whitelist
        return w, [list(x) for x in w]
    w = [t.pick(PATTERNS) for _ in range(t.between(1, 5))]
    return w, w


def schemas(t):
    arg, white = whitelist(t)
    # the module that must not be imported is never in the whitelist
    t.assume(not allowed(["pbt.sidefx", "poke"], white))
    g = Spec(t, white)
    schema, run = g.expr(t.between(1, 3))
    t.note("schema", [schema])
    t.note("whitelist", [arg])
    st = {"": json.dumps({t.pick(["awkward", "awkward0"]): "x", "schema": schema}).encode("ascii")}
    try:
        want = run()
        stopped = False
    except Stop:
        want, stopped = None, True
    t.nontrivial = g.n >= 2 and (stopped or len(g.calls) >= 2)
    del CALLS[:]
    sys.modules.pop("pbt.sidefx", None)
    got = attempt(lambda: persist.deserialize(st, whitelist=arg))
    t.evals += 1
    t.check("pbt.sidefx" not in sys.modules, "a module outside the whitelist was imported")
    t.check(CALLS == g.calls, lambda: "loading called %r, expected %r (whitelist %r)" % (CALLS, g.calls, white))
    if stopped:
        t.check(isinstance(got, Refused), lambda: "loaded %r although a function is not in the whitelist %r" % (got, white))
    else:
        t.check(not isinstance(got, Refused), lambda: "refused %r, expected %r" % (got, want))
        t.check(norm(got) == norm(want), lambda: "loaded %r, expected %r" % (norm(got), norm(want)))


def hostile(t):
    """specifications in every place an array's schema can hold one; with the default whitelist none runs"""
    spec = t.pick([[ME, "record"], [ME, "Box", "make"], ["os", "getpid"], ["builtins", "list"], ["builtins", "eval"], ["awkward0.persist", "pickle", "loads"], ["awkward0.persist", "os", "getpid"],
                   ["awkward0", "numpy", "array"], ["awkward0", "persist", "topython"], ["awkward0", "util", "toarray"], ["numpy", "array"], ["numpy"], ["awkward0"], ["zlib", "compress"], ["awkward0", "numpy"],
                   ["awkward0.array.jagged", "JaggedArray"], ["awkward0.generate", "fromiter"], ["lzma"], ["pbt.sidefx", "poke"], ["awkward0", "JaggedArray", "numpy", "array"], ["awkward0", "JaggedArray", "numpy"]])
    where = t.below(7)
    arg = {"json": [1, 2, 3]}
    call = {"call": spec, "args": [arg]}
    buf = {"call": ["awkward0", "numpy", "frombuffer"], "args": [{"read": "0"}, {"dtype": "int64"}, {"json": 3}]}
    jag = lambda x: {"call": ["awkward0", "JaggedArray", "fromcounts"], "args": [{"json": [3]}, x]}
    schema = [lambda: call, lambda: jag(call), lambda: {"call": ["awkward0", "VirtualArray"], "args": [{"function": spec}, {"tuple": [arg]}, {"dict": {}}], "cacheable": True},
              lambda: {"call": ["awkward0", "VirtualArray"], "args": [{"function": ["awkward0", "JaggedArray", "fromcounts"]}, {"tuple": [arg, buf]}, {"dict": {}}],
                       "kwargs": {"type": {"call": ["awkward0.persist", "json2type"], "args": [{"json": {"takes": 3, "to": {"function": spec}}}], "whitelistable": True}}, "cacheable": True},
              lambda: {"call": ["awkward0", "ObjectArray"], "args": [buf, {"function": spec}, {"tuple": []}, {"dict": {}}]},
              lambda: {"call": ["awkward0", "Table", "frompairs"], "args": [{"pairs": [["x", buf], ["y", call]]}, {"json": 0}]},
              lambda: {"call": ["awkward0", "ChunkedArray"], "args": [{"list": [buf, call]}, {"json": [3, 3]}]}][where]()
    t.note("schema", [schema])
    t.nontrivial = True
    st = {"": json.dumps({"awkward0": "x", "schema": schema}), "0": numpy.array([1, 2, 3]).tobytes()}
    del CALLS[:]
    sys.modules.pop("pbt.sidefx", None)
    got = attempt(lambda: tolist(persist.deserialize(st)))
    t.evals += 1
    t.check(CALLS == [] and "pbt.sidefx" not in sys.modules, lambda: "loading had an effect: %r" % (CALLS,))
    t.check(isinstance(got, Refused), lambda: "%r was accepted: %r" % (spec, got))


def broken(t):
    """damaged data raise an exception"""
    T, v, a = sample(t, PLAINKINDS, lay=Layout(ALL, p=0.4), maxlen=4)
    st = {}
    persist.serialize(a, st)
    schema = json.loads(st[""])
    m = t.below(5)
    good = attempt(lambda: tolist(persist.deserialize(st, whitelist=persist.whitelist + [["pbt.*"]])))
    if m == 0:
        del schema["awkward0"]
    elif m == 1:
        schema["schema"] = t.pick([[], [1], 3, "x", None, {}, {"nothing": 1}])
    elif m == 2:
        bufs = [k for k in st if k]
        t.assume(len(bufs) > 0)
        del st[t.pick(sorted(bufs))]
    elif m == 3:
        schema["prefix"] = "wrong-"
        t.assume(any(k for k in st))
    else:
        st[""] = t.pick([b"", b"{", b"[]", b"\xff", b"null"])
    if m < 4:
        st[""] = json.dumps(schema).encode("ascii")
    t.note("damage", [m])
    t.nontrivial = m >= 1
    # (a generator may read nothing until its data are needed)
    got = attempt(lambda: tolist(persist.deserialize(st, whitelist=persist.whitelist + [["pbt.*"]])))
    t.evals += 1
    t.check(isinstance(got, Refused), lambda: "damaged data were read as %r (undamaged: %r)" % (got, good))


class Unstorable(object):
    def __reduce__(self):
        raise TypeError("cannot be stored")


NAMES = ("a", "ab", "b", "abc", "x y", "b-1", "a.json", "\xe9", "schema.json", "0")


def value(t):
    if t.chance(0.2):
        n = t.length(4)
        a = numpy.array([t.below(100) for _ in range(n)], dtype="int64")
        return a.tolist(), a
    T, v, a = sample(t, PLAINKINDS, lay=Layout(ALL, p=0.3), maxlen=4, depth=2)
    return plain(v), a


def unstorable(t):
    content = numpy.arange(t.length(3))
    o = ObjectArray(content, lambda x: x)
    return t.pick([lambda: o, lambda: Table(x=numpy.arange(len(content)), y=o), lambda: ChunkedArray([numpy.arange(3), o])])() if len(content) else o


WHITE = persist.whitelist + [["pbt.gen"]]


def hdf(t):
    """a history of a group"""
    if h5py is None:
        raise Discard()
    path = os.path.join(t.tmpdir(), "f.h5")
    model = {}
    f = h5py.File(path, "w")
    sub = t.pick([None, "sub", "a"])
    beside = t.flag()
    if beside:
        f["other"] = numpy.arange(3)
    if sub:
        f.create_group(sub)
    mk = lambda: awkward0.hdf5(f[sub] if sub else f, whitelist=WHITE, **({"compression": t.pick([None, True])} if t.flag() else {}))
    g = mk()
    steps = t.between(2, 9)
    t.nontrivial = steps >= 4
    try:
        for _ in range(steps):
            op = t.wpick([(5, "put"), (4, "get"), (3, "del"), (2, "list"), (2, "reopen"), (2, "bad"), (1, "replace"), (1, "missing"), (1, "pop")])
            name = t.pick(NAMES)
            t.note(op, name)
            t.evals += 1
            if op == "put":
                v, a = value(t)
                if name in model:
                    r = attempt(lambda: g.__setitem__(name, a))
                    t.check(isinstance(r, Refused), "an existing name was overwritten without deleting it")
                else:
                    g[name] = a
                    model[name] = v
            elif op == "replace" and name in model:
                v, a = value(t)
                del g[name]
                g[name] = a
                model[name] = v
            elif op in ("get", "missing"):
                if name in model:
                    expect(t, g[name], model[name], "%r" % name, strict=True)
                else:
                    r = attempt(lambda: g[name])
                    t.check(isinstance(r, Refused) and isinstance(r.err, KeyError), lambda: "a missing name gave %r" % (r,))
                    t.check(g.get(name, 123) == 123, "get of a missing name")
            elif op == "del":
                r = attempt(lambda: g.__delitem__(name))
                t.check(isinstance(r, Refused) == (name not in model) and (r is None or isinstance(r.err, KeyError)), lambda: "deleting %r gave %r" % (name, r))
                model.pop(name, None)
            elif op == "pop" and name in model:
                expect(t, g.pop(name), model.pop(name), "popped %r" % name, strict=True)
            elif op == "bad":
                bad = unstorable(t)
                r = attempt(lambda: g.__setitem__(name, bad))
                t.check(isinstance(r, Refused), "something that cannot be stored was stored")
            elif op == "reopen":
                f.close()
                f = h5py.File(path, "a")
                g = mk()
            t.check(sorted(g) == sorted(model) and len(g) == len(model), lambda: "the group lists %r, expected %r" % (sorted(g), sorted(model)))
            t.check((name in g) == (name in model), lambda: "%r in group" % name)
        for name in model:
            expect(t, g[name], model[name], "%r at the end" % name, strict=True)
        if beside:
            t.check(f["other"][()].tolist() == [0, 1, 2], "an unrelated dataset changed")
        # deleting everything leaves nothing behind
        for name in t.shuffle(sorted(model)):
            del g[name]
        left = sorted(f[sub] if sub else f)
        t.check(left == (["other"] if beside and not sub else []), lambda: "deleting everything left %r" % (left,))
    finally:
        f.close()


def files(t):
    """a history of an awkd file"""
    path = os.path.join(t.tmpdir(), "f.awkd")
    model = {}
    steps = t.between(2, 7)
    t.nontrivial = steps >= 4
    kw = {}
    if t.chance(0.2):
        kw["schemasuffix"] = ".schema"
    for _ in range(steps):
        op = t.wpick([(6, "save"), (3, "dict"), (2, "bad"), (1, "overwrite")])
        t.evals += 1
        before = open(path, "rb").read() if os.path.exists(path) else None
        entries = zipfile.ZipFile(path).namelist() if before is not None else []
        if op == "bad":
            if before is None:
                continue
            # an array that cannot be stored: the others stay readable
            name = "zz%d" % t.below(100)
            t.note(op, name)
            bad = unstorable(t)
            r = attempt(lambda: awkward0.save(path, bad, name=name, **kw))
            t.check(isinstance(r, Refused), "something that cannot be stored was stored")
        else:
            k = 1 if op == "save" else t.between(1, 3)
            names = [t.pick(NAMES[:8]) for _ in range(k)]
            names = sorted(set(names))
            vals = [value(t) for _ in names]
            mode = "w" if op == "overwrite" else "a"
            t.note(op, names)
            if op == "save":
                save = lambda: awkward0.save(path, vals[0][1], name=names[0], mode=mode, **kw)
            else:
                pre = t.pick([None, "", "p"])
                d = dict(zip(names, [a for v, a in vals]))
                save = lambda: awkward0.save(path, d, mode=mode, **(dict(kw, name=pre) if pre is not None else kw))
                names = [(pre or "") + n for n in names]
            r = attempt(save)
            conflict = any(x != y and x.startswith(y) for x in names for y in names)
            exists = mode == "a" and any(e.startswith(n) for e in entries for n in names)
            must = conflict or (mode == "a" and any(n in model for n in names))
            t.check(isinstance(r, Refused) or not must, lambda: "conflicting names %r were accepted (file has %r)" % (names, sorted(model)))
            t.check(not isinstance(r, Refused) or conflict or exists, lambda: "names %r were refused with %r (file has %r)" % (names, r, sorted(model)))
            if isinstance(r, Refused):
                t.check(isinstance(r.err, KeyError), lambda: "conflicting names raised %r" % (r,))
                t.check(before is None or open(path, "rb").read() == before, "a refused save changed the file")
            else:
                if mode == "w":
                    model = {}
                for n, (v, a) in zip(names, vals):
                    model[n] = v
        if os.path.exists(path):
            with awkward0.persist.Load(path, whitelist=WHITE, **kw) as f:
                t.check(sorted(f) == sorted(model) and len(f) == len(model), lambda: "the file lists %r, expected %r" % (sorted(f), sorted(model)))
                for n in t.shuffle(sorted(model)):
                    expect(t, f[n], model[n], "%r" % n, strict=True)
                r = attempt(lambda: f["missing"])
                t.check(isinstance(r, Refused) and isinstance(r.err, KeyError), lambda: "a missing name gave %r" % (r,))
                t.check("missing" not in f and all(n in f for n in model), "membership")


SUBS = [Sub("schemas", schemas, 18000), Sub("hostile", hostile, 3600), Sub("broken", broken, 2400), Sub("hdf", hdf, 1800), Sub("files", files, 1800)]
