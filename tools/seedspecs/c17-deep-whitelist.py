PROPERTY = "C17"
NEEDS = "a function of three names where the whitelist allows only another function of the same object"
BREAKS = "only the first two names are compared with the whitelist, so functions next to an allowed one can be called"
EDITS = [('awkward0/persist.py', """for n, p in zip(obj, white):""", """for n, p in list(zip(obj, white))[:2]:""")]
DEMO = """
import json
from awkward0 import persist
st = {"": json.dumps({"awkward0": "0", "schema": {"call": ["collections", "OrderedDict", "fromkeys"], "args": [{"json": [1, 2]}]}}).encode()}
assert list(persist.deserialize(st, whitelist=[["collections", "OrderedDict", "fromkeys"]])) == [1, 2]
try:
    x = persist.deserialize(st, whitelist=[["collections", "OrderedDict", "copy"]])
except RuntimeError:
    pass
else:
    raise AssertionError(x)
"""
