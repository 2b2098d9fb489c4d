PROPERTY = "C22"
NEEDS = "zeros_like of strings in another encoding than the default"
BREAKS = "the encoding is lost"
EDITS = [('awkward0/array/objects.py', """        jagged = self._content.zeros_like(**overrides)
        return self.copy(jagged.starts, jagged.stops, jagged.content, **mine)
""", """        jagged = self._content.zeros_like(**overrides)
        return self.__class__(jagged.starts, jagged.stops, jagged.content)
""")]
DEMO = """
import awkward0
a = awkward0.StringArray.fromiter([b"one", b"", b"two"], encoding=None)
assert a.zeros_like().tolist() == [b"\\0\\0\\0", b"", b"\\0\\0\\0"]
"""
