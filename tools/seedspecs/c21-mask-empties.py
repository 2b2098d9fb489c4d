PROPERTY = "C21"
NEEDS = "concatenation along axis 1 where one array has an empty list at a place where it also begins a nonempty one"
BREAKS = "the elements of the arrays are put in the wrong places of the lists"
EDITS = [('awkward0/array/jagged.py', """            working_array[stops_i[not_empty]] -= 1
""", """            working_array[stops_i] -= not_empty
""")]
DEMO = """
import numpy, awkward0
J = awkward0.JaggedArray.fromiter
rng = numpy.random.RandomState(1)
for trial in range(200):
    xs = [[[int(v) for v in rng.randint(0, 100, rng.randint(0, 3))] for _ in range(5)] for _ in range(3)]
    got = awkward0.JaggedArray.concatenate([J(x + [[1]]) for x in xs], axis=1).tolist()
    want = [sum(lists, []) for lists in zip(*[x + [[1]] for x in xs])]
    assert got == want, (xs, got, want)
"""
