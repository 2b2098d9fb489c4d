PROPERTY = "C19"
NEEDS = "an array of lists with one array of offsets (not separate starts and stops)"
BREAKS = "the offsets are counted twice in nbytes"
EDITS = [('awkward0/array/jagged.py', """            if self.offsetsaliased(self._starts, self._stops):
                return self._starts.base.nbytes + (""", """            if self.offsetsaliased(self._starts, self._stops) and self._starts.base.base is not None:
                return self._starts.base.nbytes + (""")]
DEMO = """
import awkward0
import numpy
a = awkward0.JaggedArray.fromoffsets(numpy.array([0, 2, 3]), numpy.arange(3.0))
assert a.nbytes == 3 * 8 + 3 * 8
"""
