PROPERTY = "C23"
NEEDS = "an object array made from lists, whose generator has keyword arguments, flattened"
BREAKS = "the keyword arguments are lost, so the flattened array makes other objects"
EDITS = [('awkward0/array/objects.py', """return self.copy(content=self._util_flatten(self._content, axis))""", """return self.__class__(self._util_flatten(self._content, axis), self._generator, self._args)""")]
DEMO = """
import awkward0
def scaled(x, offset, factor=1):
    return (x + offset) * factor
a = awkward0.ObjectArray(awkward0.fromiter([[1, 2], [], [3]]), scaled, (10,), {"factor": 2})
assert list(a.flatten()) == [22, 24, 26]
"""
