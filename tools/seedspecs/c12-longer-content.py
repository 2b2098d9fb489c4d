PROPERTY = "C12"
NEEDS = "a masked array whose content is longer than its mask, read at a negative position"
BREAKS = "the negative position is counted from the end of the content, so a value beyond the mask appears"
EDITS = [('awkward0/array/masked.py', """return self._content[:len(self._mask)][(head,) + tail]""", """return self._content[(head,) + tail]""")]
DEMO = """
import awkward0
a = awkward0.MaskedArray([False, True, False], [1, 2, 3, 4, 5])
assert a.tolist() == [1, None, 3]
assert a[-1] == 3 and a[-3] == 1
"""
