PROPERTY = "C05"
NEEDS = "operands that are leading slices of an array built from offsets, combined with each other after slicing"
BREAKS = "a leading slice of an offsets-built jagged array is taken for the whole array, so element-wise results have the wrong length or operands are refused"
EDITS = [("awkward0/array/jagged.py", """                len(starts) == len(starts_base) - 1 and
                len(stops) == len(stops_base) - 1)""", """                len(starts) == len(stops) and len(starts) > 0)""")]
DEMO = """
import numpy, awkward0
a = awkward0.JaggedArray.fromoffsets([0, 2, 2, 5], [1.0, 2.0, 3.0, 4.0, 5.0])[:2]
assert (a + 1).tolist() == [[2.0, 3.0], []]
assert (a + a).tolist() == [[2.0, 4.0], []]
"""
