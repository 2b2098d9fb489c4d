PROPERTY = "C01"
NEEDS = "dicts whose key sets differ, a smaller one arriving first"
BREAKS = "a record with extra fields is accepted by the existing record type and its extra fields are lost"
EDITS = [("awkward0/generate.py", """    def matches(self, tpe):
        return self.fields == tpe
""", """    def matches(self, tpe):
        return isinstance(tpe, (set, frozenset)) and self.fields.issubset(tpe) or self.fields == tpe
""")]
DEMO = """
import awkward0
x = [{"a": 1}, {"a": 2, "b": 3}, {"a": 4}]
assert awkward0.fromiter(x).tolist() == x
"""
