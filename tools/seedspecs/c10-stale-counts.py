PROPERTY = "C10"
NEEDS = "counts read before offsets are assigned"
BREAKS = "assigning offsets leaves the counts derived from the old structure"
EDITS = [('awkward0/array/jagged.py', """        self._stops = value[1:]
        self._offsets = value
        self._counts, self._parents = None, None
""", """        self._stops = value[1:]
        self._offsets = value
        self._parents = None
""")]
DEMO = """
import awkward0
a = awkward0.JaggedArray.fromcounts([2, 1, 0], [1, 2, 3])
assert a.counts.tolist() == [2, 1, 0]
a.offsets = [0, 0, 3, 3]
assert a.tolist() == [[], [1, 2, 3], []]
assert a.counts.tolist() == [0, 3, 0]
"""
