from ..lib import *
from ..gen import *
from ..engine import Violation, Discard
from ..runner import Sub

MUTED = ()


def sample(t, kinds=None, depth=None, lay=None, maxlen=6, wrap=None, special=False, T=None, nums=NUMS, minlen=0, p=0.35):
    """draw a type, values of it and an array holding them in some layout"""
    if T is None:
        T = gen_type(t, t.wpick([(3, 0), (4, 1), (4, 2), (1, 3)]) if depth is None else depth, kinds or ("num", "list", "rec", "opt", "str", "union", "bytes", "tup", "nd", "obj"), nums)
    n = t.length(maxlen, minlen)
    values = gen_values(t, T, n, special)
    lay = lay if lay is not None else Layout(p=p)
    a = build(t, T, values, lay, wrap=t.below(3) if wrap is None else wrap, special=special)
    t.note("type", tstr(T))
    t.note("array", describe(a))
    if n >= 2 and (t.features or T[0] != "num"):
        t.nontrivial = True
    return T, values, a


def structure(t, a, values, what):
    """every description that an array of lists gives of its own structure agrees with its values"""
    if type(a) is not awkward0.JaggedArray or len(a.starts.shape) != 1 or not all(isinstance(v, list) for v in values):
        return
    n = len(values)
    want = [len(v) for v in values]
    starts, stops = [int(x) for x in a.starts], [int(x) for x in a.stops][:n]
    for k in t.shuffle(["counts", "parents", "offsets", "localindex", "broadcast"])[:t.between(2, 5)]:
        t.evals += 1
        if k == "counts":
            expect(t, a.counts, want, what + ".counts")
            t.check([j - i for i, j in zip(starts, stops)] == want, lambda: "starts and stops of %s: %r %r" % (what, starts, stops))
        elif k == "offsets":
            got = attempt(lambda: a.offsets)
            if starts[1:] == stops[:-1]:
                expect(t, got, starts + stops[-1:] if n else tolist(got)[:1], what + ".offsets")
            else:
                t.check(isinstance(got, Refused) and isinstance(got.err, ValueError), lambda: "%s.offsets gave %r for starts %r stops %r" % (what, got, starts, stops))
        elif k == "localindex":
            expect(t, a.localindex, [list(range(c)) for c in want], what + ".localindex")
        elif k == "broadcast":
            expect(t, a.tojagged(numpy.arange(n) * 10), [[i * 10] * c for i, c in enumerate(want)], what + ".tojagged(flat)")
        else:
            got = tolist(a.parents)
            owners = {}
            for p, (i, j) in enumerate(zip(starts, stops)):
                for x in range(i, j):
                    owners.setdefault(x, []).append(p)
            t.check(len(got) > max(owners, default=-1), lambda: "%s.parents is %r, too short for starts %r stops %r" % (what, got, starts, stops))
            for x, p in enumerate(got):
                t.check(p in owners[x] if x in owners else p == -1, lambda: "%s.parents gave %r for starts %r stops %r" % (what, got, starts, stops))


READINGS = (lambda a: a.parents, lambda a: a.counts, lambda a: a.offsets, lambda a: a.localindex, lambda a: a.valid(), lambda a: a.flatten())


def readings(t, a):
    """read some of the properties that arrays remember"""
    if isinstance(a, awkward0.JaggedArray) and t.chance(0.4):
        for f in t.shuffle(READINGS)[:t.between(1, 3)]:
            attempt(f, a)


def tstr(T):
    k = T[0]
    if k == "num":
        return T[1]
    if k == "nd":
        return "%s%s" % (T[1], list(T[2]))
    if k in ("str", "bytes"):
        return k
    if k == "list":
        return "[%s]" % tstr(T[1])
    if k == "opt":
        return "?%s" % tstr(T[1])
    if k == "rec":
        return "{%s}" % ", ".join("%s: %s" % (n, tstr(x)) for n, x in T[1])
    if k == "tup":
        return "(%s)" % ", ".join(tstr(x) for x in T[1])
    if k == "obj":
        return "Obj<%s>" % tstr(T[1])
    if k == "union":
        return "(%s)" % " | ".join(tstr(x) for x in T[1])
    return repr(T)


def wanttype(T):
    """T as a plain nested structure"""
    k = T[0]
    if k == "num":
        return numpy.dtype(T[1]).name
    if k == "nd":
        out = numpy.dtype(T[1]).name
        for x in T[2][::-1]:
            out = ("array", x, out)
        return out
    if k in ("str", "bytes"):
        return k
    if k == "list":
        return ("array", "inf", wanttype(T[1]))
    if k == "opt":
        return ("opt", wanttype(T[1]))
    if k == "rec":
        return ("rec", tuple((n, wanttype(x)) for n, x in T[1]))
    if k == "tup":
        return ("rec", tuple((str(i), wanttype(x)) for i, x in enumerate(T[1])))
    if k == "union":
        return ("union", frozenset(wanttype(x) for x in T[1]))
    if k == "obj":
        return repr(makeobj)
    raise AssertionError(T)


def gottype(x):
    """a library type (of the items) as the same kind of nested structure"""
    if isinstance(x, awkward0.type.OptionType):
        return ("opt", gottype(x.type))
    if isinstance(x, awkward0.type.UnionType):
        return ("union", frozenset(gottype(y) for y in x._possibilities))
    if isinstance(x, awkward0.type.TableType):
        return ("rec", tuple((n, gottype(x[n])) for n in x.columns))
    if isinstance(x, awkward0.type.ArrayType):
        return ("array", "inf" if x.takes == float("inf") else int(x.takes), gottype(x.to))
    if isinstance(x, numpy.dtype):
        return x.name if x.names is None else str(x)
    if x is str:
        return "str"
    if x is bytes:
        return "bytes"
    return repr(x)
