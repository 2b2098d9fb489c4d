PROPERTY = "C09"
NEEDS = "lists with nan beside lists with repeated extremes"
BREAKS = "a list without an extreme gets a position"
EDITS = [('awkward0/array/jagged.py', """        nonempty = out.counts > 0
        out.stops = self""", """        nonempty = self.counts > 0
        out.stops = self""")]
DEMO = """
import numpy, awkward0
a = awkward0.fromiter([[float("nan")], [2.0, 2.0, 1.0], []])
assert a.argmax().tolist() == [[], [0], []]
"""
