PROPERTY = "C19"
NEEDS = "comparing (or hashing) an option type of something that comparison normalizes"
BREAKS = "comparing a type changes what it is an option of"
EDITS = [('awkward0/type.py', """            seen[id(x)]._type = Type._copy(x._type, seen)
""", """            seen[id(x)]._type = x._type
""")]
DEMO = """
from awkward0.type import ArrayType, OptionType, TableType
inner = TableType(x=ArrayType(3, float), y=ArrayType(3, int))
t = OptionType(inner)
before = str(t)
assert t == OptionType(TableType(x=ArrayType(3, float), y=ArrayType(3, int)))
assert str(t) == before, (before, str(t))
"""
