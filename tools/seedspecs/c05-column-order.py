PROPERTY = "C05"
NEEDS = "records compared with records where the columns are given in another order"
BREAKS = "columns of the second table are matched by position"
EDITS = [('awkward0/array/table.py', """                for n, y in x._contents.items():
                    inputsdict[n].append(y[x._index()])
""", """                for n, y in zip(inputsdict, x._contents.values()):
                    inputsdict[n].append(y[x._index()])
""")]
DEMO = """
import awkward0
from collections import OrderedDict
a = awkward0.Table(OrderedDict([("x", [1, 2, 3]), ("y", [10, 20, 30])]))
b = awkward0.Table(OrderedDict([("y", [1, 1, 1]), ("x", [5, 5, 5])]))
assert (a + b)["x"].tolist() == [6, 7, 8]
assert (a + b)["y"].tolist() == [11, 21, 31]
"""
