PROPERTY = "C24"
NEEDS = "assignment at a jagged mask whose lists are stored in another order than they are in"
BREAKS = "the wrong elements are assigned"
EDITS = [('awkward0/array/jagged.py', """                flatindex = index.flatten()[where.flatten()]
                self._content[flatindex] = what
""", """                flatindex = index.flatten()[where.flatten() if where.iscompact else where.content]
                self._content[flatindex] = what
""")]
DEMO = """
import awkward0, numpy
a = awkward0.fromiter([[1, 2], [3, 4], [5, 6]])
m = awkward0.fromiter([[True, False], [False, False], [False, True]])
a[m[::-1]] = 99
assert a.tolist() == [[1, 99], [3, 4], [99, 6]], a.tolist()
"""
