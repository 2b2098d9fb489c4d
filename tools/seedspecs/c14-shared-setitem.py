PROPERTY = "C14"
NEEDS = "a column assigned, the array copied, another column assigned to the copy, and the cache evicted"
BREAKS = "the columns assigned to the copy appear in the original when it is read from its generator again"
EDITS = [('awkward0/array/virtual.py', """            out._setitem = OrderedDict(self._setitem.items())
""", """            out._setitem = self._setitem
""")]
DEMO = """
import awkward0
cache = {}
a = awkward0.VirtualArray(lambda: awkward0.Table(x=[1, 2, 3]), cache=cache, persistentkey="one")
a["y"] = [4, 5, 6]
b = a.copy(cache={}, persistentkey="two")
cache.clear()
b["z"] = [7, 8, 9]
assert b.columns == ["x", "y", "z"]
cache.clear()
assert a.columns == ["x", "y"], a.columns
assert a.tolist() == [{"x": 1, "y": 4}, {"x": 2, "y": 5}, {"x": 3, "y": 6}]
"""
