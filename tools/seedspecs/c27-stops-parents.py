PROPERTY = "C27"
NEEDS = "stops assigned again, the last list ending where it did, after parents were worked out (by reading them or by broadcasting)"
BREAKS = "flat values are handed to the lists the elements belonged to before"
EDITS = [('awkward0/array/jagged.py', """        self._stops = value
        self._offsets, self._counts, self._parents = None, None, None
""", """        parents = self.__dict__.get("_parents")
        self._stops = value
        self._offsets, self._counts, self._parents = None, None, (parents if parents is not None and len(parents) == value.max() else None)
""")]
DEMO = """
import awkward0
import numpy
a = awkward0.JaggedArray([0, 2, 4], [2, 4, 6], numpy.arange(6))
assert a.parents.tolist() == [0, 0, 1, 1, 2, 2]
b = a + numpy.array([100, 200, 300])
a.stops = [1, 4, 6]
assert a.counts.tolist() == [1, 2, 2]
assert a.parents.tolist() == [0, -1, 1, 1, 2, 2]
a.stops = [2, 3, 6]
assert a.parents.tolist() == [0, 0, 1, -1, 2, 2]
"""
