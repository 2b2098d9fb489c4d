PROPERTY = "C04"
NEEDS = "a negative integer in the second position that is beyond the beginning of some list, though not of the first"
BREAKS = "instead of an IndexError, an element of the list before is returned"
EDITS = [('awkward0/array/jagged.py', """                    if head < 0:
                        head = counts + head
                    if not self.numpy.bitwise_and(0 <= head, head < counts).all():
                        raise IndexError""", """                    if head < 0:
                        head = counts + head
                        inside = (counts != 0)
                    else:
                        inside = (head < counts)
                    if not inside.all():
                        raise IndexError""")]
DEMO = """
import awkward0
a = awkward0.fromiter([[1, 2, 3], [4], [5, 6]])
assert a[:, -1].tolist() == [3, 4, 6]
try:
    x = a[:, -2]
except IndexError:
    pass
else:
    raise AssertionError(x.tolist())
"""
