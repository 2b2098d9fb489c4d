"""Generated one-dimensional indexes with their meaning on Python lists."""
from .common import *

INTDT = ("int64", "int32", "int8", "uint8", "intp")


def gen_int(t, n):
    """in-range integer index (n > 0)"""
    return t.below(n) if t.flag() else -1 - t.below(n)


def as_numpy_int(t, i):
    m = t.below(3)
    if m == 0:
        return i
    return numpy.dtype(t.pick(("int64", "int32", "int16", "int8"))).type(i)


def gen_slice(t, n):
    def edge():
        m = t.below(5)
        if m == 0:
            return None
        if m == 1:
            return t.pick([0, n, n + 3, -n - 2, -n, n - 1, -1])
        return t.below(2 * n + 3) - n - 1
    step = t.pick([None, 1, 2, -1, -2, 3, -3, 5, n + 1])
    return slice(edge(), edge(), step)


def gen_index(t, n, kinds=("int", "slice", "mask", "fancy")):
    """(index, description, function on lists) or an index that must raise IndexError (function None)"""
    k = t.pick(kinds)
    if k == "int":
        if n == 0 or t.chance(0.1):
            i = t.pick([n, n + 1, -n - 1, -n - 3])
            return as_numpy_int(t, i), "int %d (out of range)" % i, None
        i = gen_int(t, n)
        j = as_numpy_int(t, i)
        return j, "int %r" % i, lambda v: v[i]
    if k == "slice":
        s = gen_slice(t, n)
        return s, repr(s), lambda v: v[s]
    if k == "mask":
        m = [t.flag() for _ in range(n)]
        w = numpy.array(m, dtype=bool)
        if t.chance(0.2) and n > 0:
            w = w.tolist()
        elif t.chance(0.2):
            w = numpy.repeat(w, 2)[::2]
        return w, "mask %r" % (m,), lambda v: [x for x, b in zip(v, m) if b]
    if k == "fancy":
        cnt = t.length(6)
        if n == 0:
            cnt = 0
        ii = [gen_int(t, n) for _ in range(cnt)]
        if n > 0 and t.chance(0.3):
            ii.sort(key=lambda i: i % n)
        bad = t.chance(0.07)
        if bad:
            ii.insert(t.below(len(ii) + 1), t.pick([n, n + 2, -n - 1, -n - 2]))
        dts = ["int64", "int32", "int8", "int16"]
        if all(i >= 0 for i in ii):
            dts.append("uint8")
        w = numpy.array(ii, dtype=t.pick(dts))
        if t.chance(0.25) and len(ii) > 0:
            w = w.tolist()
        elif t.chance(0.2):
            w = numpy.repeat(w, 2)[::2]
        return w, "fancy %r" % (ii,), (None if bad else (lambda v: [v[i] for i in ii]))
    raise AssertionError(k)
