PROPERTY = "C02"
NEEDS = "iteration over a sparse array whose content is longer than its index"
BREAKS = "trailing defaults are replaced by the unused content"
EDITS = [('awkward0/array/indexed.py', """        index = self._index
        lenindex = len(self._index)
        content = self._content
        default = self.default

        i = 0
        j = self.numpy.searchsorted(index, 0, side="left")
        while i != length:
            if j == lenindex:
                yield default
""", """        index = self._index
        content = self._content
        lenindex = len(content)
        default = self.default

        i = 0
        j = self.numpy.searchsorted(index, 0, side="left")
        while i != length:
            if j == lenindex or j >= len(index) and lenindex == 0:
                yield default
            elif j >= len(index):
                yield content[j]
                j += 1
""")]
DEMO = """
import awkward0
a = awkward0.SparseArray(5, [1, 3], [10, 30, 99])
assert list(a) == [0, 10, 0, 30, 0]
"""
