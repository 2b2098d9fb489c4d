PROPERTY = "C25"
NEEDS = "allow_iter off, and the str of a chunked array of seven elements whose chunk sizes are not known yet"
BREAKS = "str and repr raise RuntimeError"
EDITS = [('awkward0/array/chunked.py', """            strs = [self._util_arraystr(x) for x in self[:7].__iter__(checkiter=False)]
""", """            strs = [self._util_arraystr(x) for x in self[:7]]
""")]
DEMO = """
import awkward0, numpy
a = awkward0.ChunkedArray([numpy.arange(3), numpy.arange(3), numpy.arange(4)])
awkward0.ChunkedArray.allow_iter = False
str(a)
b = awkward0.ChunkedArray([numpy.arange(3), numpy.arange(3), numpy.arange(4)])
str(b)
"""
