PROPERTY = "C26"
NEEDS = "dtype read, then contents of another dtype assigned"
BREAKS = "conversion to Numpy uses the dtype of the earlier contents"
EDITS = [('awkward0/array/union.py', """        self._contents = value
        self._dtype = None
        self._isvalid = False
""", """        self._contents = value
        self._dtype = self.__dict__.get("_dtype")
        self._isvalid = False
""")]
DEMO = """
import awkward0, numpy
a = awkward0.UnionArray.fromtags([0, 1, 0], [numpy.array([1, 2]), numpy.array([3])])
assert numpy.array(a).tolist() == [1, 3, 2] and a.dtype == numpy.dtype(int)
a.contents = [numpy.array([1.5, 2.5]), numpy.array([3.5])]
assert numpy.array(a).tolist() == [1.5, 3.5, 2.5]
"""
