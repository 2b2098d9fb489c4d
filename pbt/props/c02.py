"""C02: the same values in any physical layout read the same."""
import numpy

from .common import *

ID = "C02"
RULE = ("a case draws a type (depth <= 3), 0..6 values of it and builds an array of those values in a random physical layout; "
        "non-trivial: at least 2 elements and a nested, masked, or otherwise non-flat layout")


def read(t):
    """length, tolist, iteration, element access, type and repeated reads of one random layout against the values"""
    T, values, a = sample(t, special=True)
    want = [plain(v) for v in values]
    t.check(len(a) == len(want), lambda: "len is %r, expected %d" % (len(a), len(want)))
    expect(t, a, want, "tolist")
    expect(t, [tolist(x) for x in a], want, "iteration")
    expect(t, [tolist(a[i]) for i in range(len(want))], want, "element by element")
    how = t.below(6)
    n = len(want)
    if how == 0:
        expect(t, [tolist(a[i - n]) for i in range(n)], want, "element by element from the end")
    elif how == 1:
        expect(t, a[::-1], want[::-1], "all elements backward")
    elif how == 2 and n:
        ii = [t.between(-n, n - 1) for _ in range(t.length(4))]
        expect(t, a[numpy.array(ii, dtype=int)], [want[i] for i in ii], "elements %r" % (ii,))
    elif how == 3:
        m = [t.flag() for _ in range(n)]
        expect(t, a[numpy.array(m, dtype=bool)], [x for x, b in zip(want, m) if b], "elements under a mask")
    elif how == 4:
        i, j = sorted([t.below(n + 1), t.below(n + 1)])
        expect(t, [tolist(x) for x in a[i:j]], want[i:j], "iteration over a slice")
    expect(t, a, want, "tolist after reading")
    tpe = awkward0.type.fromarray(a)
    t.check(tpe.takes == len(values), lambda: "type takes %r, expected %d" % (tpe.takes, len(values)))
    # a ChunkedArray without elements has no type; fewer than one element of a union is not a union
    if not has(T, "union") and not (t.features & {"chunked", "appendable"} and (len(values) == 0 or has(T, "list", "opt"))):
        t.check(gottype(tpe.to) == wanttype(T), lambda: "type is %r, expected %r" % (gottype(tpe.to), wanttype(T)))


SUBS = [Sub("read", read, 48000)]
