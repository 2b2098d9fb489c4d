PROPERTY = "C08"
NEEDS = "a cross join of two ChunkedArrays where one has the chunks of the other and then some more"
BREAKS = "chunked arrays of different lengths are crossed, and the lists without a partner are dropped instead of being refused"
EDITS = [("awkward0/array/chunked.py", """        return self._chunksizes == what._chunksizes
""", """        return all(x == y for x, y in zip(self._chunksizes, what._chunksizes))
""")]
DEMO = """
import awkward0
J = awkward0.fromiter
a = awkward0.ChunkedArray([J([[1, 2], [3]]), J([[4]])])
b = awkward0.ChunkedArray([J([[10], [20, 30]])])
assert a.cross(awkward0.ChunkedArray([J([[10], [20, 30]]), J([[5]])])).tolist() == [[(1, 10), (2, 10)], [(3, 20), (3, 30)], [(4, 5)]]
try:
    got = a.cross(b)
except ValueError:
    pass
else:
    raise AssertionError(got.tolist())
"""
