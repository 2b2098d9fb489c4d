PROPERTY = "C28"
NEEDS = "counts of a narrow integer type whose sum it cannot hold"
BREAKS = "the offsets wrap around"
EDITS = [('awkward0/array/jagged.py', """        offsets = cls.numpy.empty(len(counts) + 1, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
        offsets[0] = 0
""", """        offsets = cls.numpy.empty(len(counts) + 1, dtype=getattr(counts, "dtype", cls.JaggedArray.fget(None).INDEXTYPE))
        offsets[0] = 0
""")]
DEMO = """
import awkward0, numpy
counts = numpy.array([50, 60, 70, 0, 3], dtype=numpy.int8)
a = awkward0.JaggedArray.fromcounts(counts, numpy.arange(183))
assert [len(x) for x in a] == counts.tolist()
assert a[4].tolist() == [180, 181, 182]
"""
