PROPERTY = "C16"
NEEDS = "strings whose offsets do not begin at zero"
BREAKS = "stored strings come back shifted to the beginning of the content"
EDITS = [('awkward0/array/objects.py', """        if self._content.offsetsaliased(self.starts, self.stops) and len(self.starts) > 0 and self.starts[0] == 0:
""", """        if self._content.offsetsaliased(self.starts, self.stops) and len(self.starts) > 0:
""")]
DEMO = """
import awkward0
from awkward0 import persist
a = awkward0.StringArray.fromoffsets([3, 6, 6, 11], b"onetwothree")
assert a.tolist() == ["two", "", "three"]
s = {}
persist.serialize(a, s)
assert persist.deserialize(s).tolist() == ["two", "", "three"]
"""
