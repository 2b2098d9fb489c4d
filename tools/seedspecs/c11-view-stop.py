PROPERTY = "C11"
NEEDS = "a view that goes backwards and stops one row before the first"
BREAKS = "the columns of such a view have one row too many, so they no longer agree with its rows"
EDITS = [('awkward0/array/table.py', """            if stop < 0:
                stop = None
""", """            if stop <= 0:
                stop = None
""")]
DEMO = """
import awkward0
t = awkward0.Table(x=[0.0, 1.1, 2.2, 3.3])
for start in range(-1, 4):
    for stop in range(-1, 4):
        v = t[start:stop:-1]
        assert v["x"].tolist() == [r["x"] for r in v], (start, stop)
"""
