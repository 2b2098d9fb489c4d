PROPERTY = "C07"
NEEDS = "two-dimensional starts and stops where each row of lists begins where the row before ended"
BREAKS = "flatten leaves out the lists that are used more than once"
EDITS = [('awkward0/array/jagged.py', """or (len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]))
""", """or self.numpy.array_equal(self._starts[1:], self.stops[:-1])
""")]
DEMO = """
import numpy, awkward0
a = awkward0.JaggedArray([[0, 2], [2, 4]], [[2, 4], [4, 5]], numpy.arange(10) * 1.1)
want = [x for row in a.tolist() for y in row for x in y]
assert len(want) == 7
assert a.flatten().tolist() == want
"""
