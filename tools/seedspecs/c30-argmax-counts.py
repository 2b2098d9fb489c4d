PROPERTY = "C30"
NEEDS = "an operation that uses the counts of an argmax or argmin with ties (flatten, arithmetic, another reduction)"
BREAKS = "the positions of the extremes keep the counts they had before they were cut to one per list"
EDITS = [('awkward0/array/jagged.py', """        out.stops = self.numpy.array(out.stops, dtype=self.INDEXTYPE)
        out.stops[nonempty] = out.starts[nonempty] + 1
""", """        out._stops = self.numpy.array(out.stops, dtype=self.INDEXTYPE)
        out._stops[nonempty] = out.starts[nonempty] + 1
""")]
DEMO = """
import awkward0
a = awkward0.fromiter([[1, 3, 3], [], [5, 5]])
b = a.argmax()
assert b.tolist() == [[1], [], [0]]
assert b.counts.tolist() == [1, 0, 1]
assert (b + 1).tolist() == [[2], [], [1]]
"""
