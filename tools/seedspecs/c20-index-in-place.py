PROPERTY = "C20"
NEEDS = "a jagged index of the default integer type which is already compact, used again or read afterwards"
BREAKS = "selecting with a jagged index changes the index"
EDITS = [('awkward0/array/jagged.py', """                indexes = self.numpy.array(head._content[:headoffsets[-1]], dtype=self.INDEXTYPE, copy=True)
""", """                indexes = self.numpy.array(head._content[:headoffsets[-1]], dtype=self.INDEXTYPE, copy=False)
""")]
DEMO = """
import awkward0
a = awkward0.JaggedArray.fromiter([[1.1, 2.2, 3.3], [], [4.4, 5.5]])
i = awkward0.JaggedArray.fromiter([[-1, 0], [], [1, -2]])
assert a[i].tolist() == [[3.3, 1.1], [], [5.5, 4.4]]
assert i.tolist() == [[-1, 0], [], [1, -2]]
"""
