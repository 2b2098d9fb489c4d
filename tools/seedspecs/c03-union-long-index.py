PROPERTY = "C03"
NEEDS = "a union whose index is longer than its tags (allowed), read at a negative integer or reversed"
BREAKS = "negative positions count from the end of the longer index, so an element is taken with another element's index"
EDITS = [("awkward0/array/union.py", """        tags = self._tags[head]
        index = self._index[:len(self._tags)][head]

        if len(tags.shape)""", """        tags = self._tags[head]
        index = self._index[head]

        if len(tags.shape)""")]
DEMO = """
import awkward0
u = awkward0.UnionArray([0, 1, 0], [0, 0, 1, 0, 0], [[1.1, 2.2], [100, 200]])
assert u.tolist() == [1.1, 100, 2.2]
assert u[-1] == 2.2 and u[-2] == 100
"""
