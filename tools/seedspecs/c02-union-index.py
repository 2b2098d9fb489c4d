PROPERTY = "C02"
NEEDS = "a union whose index is longer than its tags, read through a mask or an index array"
BREAKS = "selections address the index beyond the tags: negative positions come from the wrong end"
EDITS = [('awkward0/array/union.py', """        tags = self._tags[head]
        index = self._index[:len(self._tags)][head]
""", """        tags = self._tags[head]
        index = self._index[head]
""")]
DEMO = """
import awkward0
a = awkward0.UnionArray([0, 1, 0], [0, 0, 1, 0, 0], [[1, 2], awkward0.fromiter([[3.5], []])])
assert a[-1] == 2, a[-1]
assert a[::-1].tolist() == [2, [3.5], 1]
"""
