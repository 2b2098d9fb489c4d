PROPERTY = "C15"
NEEDS = "characters selected within byte strings or within strings of another encoding than UTF-8"
BREAKS = "the encoding is lost: byte strings become text"
EDITS = [('awkward0/array/objects.py', """        else:
            out = self._content[where]
            return self.__class__(out.starts, out.stops, out.content, self.encoding)
""", """        else:
            out = self._content[where]
            return self.__class__(out.starts, out.stops, out.content)
""")]
DEMO = """
import awkward0
a = awkward0.StringArray.fromiter([b"one", b"two", b"three"], encoding=None)
assert a[1:, :2].tolist() == [b"tw", b"th"], a[1:, :2].tolist()
"""
