PROPERTY = "C29"
NEEDS = "an index with repeated positions, iterated"
BREAKS = "after a repeated position, iteration yields only defaults"
EDITS = [('awkward0/array/indexed.py', """                yield content[j]
                while j != lenindex and index[j] == i:
                    j += 1
            else:
                yield default
            i += 1
""", """                yield content[j]
                j += 1
            else:
                yield default
            i += 1
""")]
DEMO = """
import awkward0
s = awkward0.SparseArray(6, [1, 1, 4], [10, 20, 30])
assert [s[i] for i in range(6)] == [0, 10, 0, 0, 30, 0]
assert s.tolist() == [0, 10, 0, 0, 30, 0]
"""
