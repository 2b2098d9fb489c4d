"""C03: one-dimensional indexing of any array agrees with Python lists, over every layout."""
from .common import *
from .indexing import *

ID = "C03"
RULE = ("a case draws a typed array in a random layout and a chain of 1..3 integer / slice / mask / fancy indexes (negative, empty, "
        "duplicated, out of range); non-trivial: at least 2 elements in a nested, masked or non-flat layout")


def chain(t):
    """chains of integers, slices, masks and integer arrays against a Python list"""
    T, values, a = sample(t, special=True, maxlen=7)
    want = [plain(v) for v in values]
    for step in range(t.between(1, 3)):
        w, what, fn = gen_index(t, len(want))
        if t.chance(0.2):
            w = (w,)
        t.note("index", what)
        if fn is None:
            got = attempt(lambda: tolist(a[w]))
            t.check(isinstance(got, Refused) and isinstance(got.err, IndexError),
                    lambda: "out-of-range index gave %r instead of IndexError" % (got,))
            return
        a = a[w]
        want = fn(want)
        expect(t, a, want, "result of %s" % what)
        if what.startswith("int"):
            return
        t.check(len(a) == len(want), lambda: "len %r, expected %d" % (len(a), len(want)))
    expect(t, [tolist(x) for x in a], want, "iteration over the result")


def unchanged(t):
    """the empty tuple and full slices select everything"""
    T, values, a = sample(t, special=True)
    want = [plain(v) for v in values]
    expect(t, a[()], want, "a[()]")
    expect(t, a[:], want, "a[:]")
    expect(t, a[::-1][::-1], want, "a[::-1][::-1]")
    expect(t, a[numpy.ones(len(want), dtype=bool)], want, "a[all true]")
    expect(t, a[numpy.arange(len(want))], want, "a[arange]")


SUBS = [Sub("chain", chain, 48000), Sub("unchanged", unchanged, 9000)]
