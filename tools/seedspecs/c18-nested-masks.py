PROPERTY = "C18"
NEEDS = "masked arrays inside of masked arrays, with an element masked by both"
BREAKS = "such an element is not missing in Arrow"
EDITS = [('awkward0/arrow.py', """            if mask is not None:
                thismask = mask | thismask
            return recurse(obj.content[:len(thismask)], thismask)
""", """            if mask is not None:
                thismask = mask ^ thismask
            return recurse(obj.content[:len(thismask)], thismask)
""")]
DEMO = """
import awkward0
from awkward0.arrow import toarrow
a = awkward0.MaskedArray([False, True, True, False], awkward0.MaskedArray([True, True, False, False], [1, 2, 3, 4], maskedwhen=True), maskedwhen=True)
assert a.tolist() == [None, None, None, 4]
assert toarrow(a).to_pylist() == [None, None, None, 4]
"""
