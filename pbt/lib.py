"""Importing the code under test, comparing values, and Python reference values."""
import os
import sys
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy
numpy.seterr(all="ignore")
import awkward0
import awkward0.persist
import awkward0.type
import awkward0.util

assert os.path.realpath(awkward0.__file__).startswith(os.path.realpath(REPO) + os.sep), awkward0.__file__

from awkward0 import (JaggedArray, Table, MaskedArray, BitMaskedArray, IndexedMaskedArray, UnionArray,
                      ChunkedArray, AppendableArray, IndexedArray, SparseArray, VirtualArray,
                      ObjectArray, StringArray, fromiter)
from awkward0.array.base import AwkwardArray

from .engine import Violation


class U(object):
    """a value of a union, remembering which possibility it belongs to"""
    __slots__ = ("tag", "val")

    def __init__(self, tag, val):
        self.tag = tag
        self.val = val

    def __repr__(self):
        return "U%d(%r)" % (self.tag, self.val)


def plain(v):
    """reference value as the Python object the library's tolist() should give"""
    if isinstance(v, U):
        return plain(v.val)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    return v


def tolist(x):
    """any result of the library as plain Python objects"""
    if isinstance(x, numpy.ma.MaskedArray):
        return x.tolist()
    if isinstance(x, numpy.ndarray):
        return tolist(x.tolist()) if x.dtype.hasobject else x.tolist()
    if isinstance(x, numpy.generic):
        return x.item()
    if isinstance(x, AwkwardArray):
        return tolist(x.tolist())
    if isinstance(x, Table.Row):
        return tolist(x.tolist())
    if isinstance(x, list):
        return [tolist(y) for y in x]
    if isinstance(x, tuple):
        return tuple(tolist(y) for y in x)
    if isinstance(x, dict):
        return dict((k, tolist(y)) for k, y in x.items())
    return x


def isbool(x):
    return isinstance(x, (bool, numpy.bool_))


def same(a, b, strict=False):
    """equality of plain values; nan == nan, bool is not a number, 1 == 1.0 unless strict"""
    if isinstance(a, (numpy.generic, numpy.ndarray)):
        a = tolist(a)
    if isinstance(b, (numpy.generic, numpy.ndarray)):
        b = tolist(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        if strict and type(a) is not type(b):
            return False
        if a != a and b != b:
            return True
        return a == b
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) is type(b) and a == b
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y, strict) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y, strict) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], strict) for k in a)
    return type(a) is type(b) and a == b


def close(a, b, rtol=1e-9):
    """like same, with tolerance on floats"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], rtol) for k in a)
    if isinstance(a, (numpy.generic,)):
        a = a.item()
    if isinstance(b, (numpy.generic,)):
        b = b.item()
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        if a != a and b != b:
            return True
        if a == b:
            return True
        try:
            return abs(a - b) <= rtol * max(abs(a), abs(b), 1e-300) or abs(a - b) < 1e-12
        except OverflowError:
            return False
    return same(a, b)


def expect(t, got, want, what, strict=False, eq=same):
    """assert that a library result equals the reference"""
    g = tolist(got)
    t.evals += 1
    ok = eq(g, want, True) if (strict and eq is same) else eq(g, want)
    if not ok:
        raise Violation("%s: got %r, expected %r" % (what, clip(g), clip(want)))


def clip(x, n=600):
    r = repr(x)
    return x if len(r) <= n else (r[:n] + "...")


class Refused(object):
    """outcome of a call that raised"""

    def __init__(self, err):
        self.err = err

    def __repr__(self):
        return "%s(%s)" % (type(self.err).__name__, str(self.err)[:160])


def attempt(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs)
    except Exception as e:
        return Refused(e)


def describe(a, depth=0):
    """compact rendering of an array's layout"""
    if depth > 8:
        return "..."
    d = lambda x: describe(x, depth + 1)
    n = type(a).__name__
    try:
        if isinstance(a, numpy.ndarray):
            s = repr(a.tolist())
            return "np(%s,%s)" % (s if len(s) < 200 else s[:200] + "..", a.dtype if a.dtype.names is None else list(a.dtype.names))
        if isinstance(a, StringArray):
            return "%s(%s,%s,%s,%r)" % (n, a.starts.tolist(), a.stops.tolist(), bytes(a.content.tobytes()) if isinstance(a.content, numpy.ndarray) else d(a.content), a.encoding)
        if isinstance(a, JaggedArray):
            return "%s(%s,%s,%s)" % (n, a.starts.tolist(), a.stops.tolist(), d(a.content))
        if isinstance(a, Table):
            v = a._view if not isinstance(a._view, numpy.ndarray) else a._view.tolist()
            return "%s[%s]{%s}" % (n, v, ",".join("%s:%s" % (k, d(x)) for k, x in a._contents.items()))
        if isinstance(a, BitMaskedArray):
            return "%s(%s,%s,%s,lsb=%s)" % (n, a.mask.tolist(), d(a.content), a.maskedwhen, a.lsborder)
        if isinstance(a, MaskedArray):
            return "%s(%s,%s,%s)" % (n, a.mask.tolist(), d(a.content), a.maskedwhen)
        if isinstance(a, UnionArray):
            return "%s(%s,%s,[%s])" % (n, a.tags.tolist(), a.index.tolist(), ",".join(d(x) for x in a.contents))
        if isinstance(a, ChunkedArray):
            return "%s([%s],%s)" % (n, ",".join(d(x) for x in a._chunks), a._chunksizes)
        if isinstance(a, IndexedArray):
            return "%s(%s,%s)" % (n, a.index.tolist(), d(a.content))
        if isinstance(a, SparseArray):
            return "%s(%s,%s,%s,%r)" % (n, a.length, a.index.tolist(), d(a.content), a._default)
        if isinstance(a, VirtualArray):
            return "%s(%s)" % (n, d(a.array))
        if isinstance(a, ObjectArray):
            return "%s(%s)" % (n, d(a.content))
    except Exception as e:
        return "%s<%s>" % (n, e)
    return repr(a)[:300]
