PROPERTY = "C22"
NEEDS = "a column assigned to a virtual table, a cache that forgets the table, then a deep copy, and an assignment into that column's buffer afterwards"
BREAKS = "a deep copy shares the buffers of assigned columns with its source"
EDITS = [("awkward0/array/virtual.py", """        if out._setitem is not None:
            for n in list(out._setitem):
""", """        if out._setitem is not None and out._array is not None:
            for n in list(out._setitem):
""")]
DEMO = """
import numpy, awkward0
cache = {}
a = awkward0.VirtualArray(lambda: awkward0.Table(x=numpy.array([1, 2, 3])), cache=cache)
z = numpy.array([10, 20, 30])
a["z"] = z
cache.clear()
b = a.deepcopy()
z[1] = 999
assert a["z"].tolist() == [10, 999, 30]
assert b["z"].tolist() == [10, 20, 30], b["z"].tolist()
"""
