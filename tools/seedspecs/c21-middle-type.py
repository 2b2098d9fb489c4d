PROPERTY = "C21"
NEEDS = "three or more jagged arrays concatenated within each list, of which only one in the middle holds floating point numbers"
BREAKS = "numbers are truncated to the type of the first and last array"
EDITS = [("awkward0/array/jagged.py", """                dtype = np.dtype(np.array(ick).dtype, False)
""", """                dtype = np.dtype(np.array([ick[0], ick[-1]]).dtype, False)
""")]
DEMO = """
import awkward0
J = awkward0.fromiter
a, b, c = J([[1, 2], []]), J([[1.5], [2.5]]), J([[], [3]])
assert a.concatenate([b, c], axis=1).tolist() == [[1.0, 2.0, 1.5], [2.5, 3.0]]
assert a.concatenate([c, b], axis=1).tolist() == [[1.0, 2.0, 1.5], [3.0, 2.5]]
"""
