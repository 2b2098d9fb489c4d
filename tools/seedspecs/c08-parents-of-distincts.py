PROPERTY = "C08"
NEEDS = "distincts of lists, then parents (or broadcasting) of the result"
BREAKS = "the pairs are assigned to the lists of the original array's elements"
EDITS = [('awkward0/array/jagged.py', """        out = self.JaggedArray.fromoffsets(argpairs.offsets, self.Table.named("tuple", self._content[left], self._content[right]).flattentuple())
        out._parents = argpairs._parents

        if nested:
            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts - 1), self""", """        out = self.JaggedArray.fromoffsets(argpairs.offsets, self.Table.named("tuple", self._content[left], self._content[right]).flattentuple())
        out._parents = self._parents

        if nested:
            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts - 1), self""")]
DEMO = """
import awkward0
a = awkward0.fromiter([[1, 2, 3], [], [4, 5]])
a.parents
d = a.distincts()
assert d.parents.tolist() == [0, 0, 0, 2], d.parents
"""
