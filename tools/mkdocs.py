#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, note))


A = "awkward0/array/"

prop("C01", "fromiter is inverted by tolist, for any JSON-like nesting",
     "Building an array from an iterable of nested Python values (booleans, integers, floats, complex, strings, bytes, None, lists, dicts, named tuples, and mixtures of different kinds) and converting it back gives equal values in the same order, whether given as a sequence or a generator, with or without dictionary encoding of strings, and with either mask convention. Dicts and named tuples come back as dicts (dicts with other keys are another alternative of a union), plain tuples and lists as lists, missing values as None, and the type of the array is the one the values have (for lists: a jagged dimension; for None: an option; for mixtures: a union).",
     ["inputs"], "every finite list of values of every nested type, including empty lists at every depth, None at every depth, and every order in which kinds first appear",
     "the existing tests convert a few dozen literal lists; the state machine that switches representation when a new kind, a None or a longer list first appears depends on the order of arrival, which they do not vary",
     ["awkward0/generate.py", A + "jagged.py", A + "base.py"],
     [("typeof / fillable state machine", "awkward0/generate.py"), ("fromiter", "awkward0/generate.py")],
     ["fromiter(x).tolist()", "fromiter(x).type"],
     "generated typed values, compared with themselves after the round trip, plus the expected type")

prop("C02", "The same values read the same in every physical layout",
     "Any two arrays that represent the same values (different starts/stops/offsets order and gaps, index arrays, chunk boundaries, mask encodings, virtual or materialized, sparse, views with any step, integer widths) have the same length, tolist, iteration, element access and item type. Reading an array never changes what later reads return.",
     ["inputs", "configurations"], "every combination of layout classes over every nested type of bounded depth and every list of values",
     "unit tests fix one layout per class; the guarantee is about all nestings of layouts, unordered and gapped starts, unreachable content and non-contiguous buffers",
     [A + x for x in ("jagged.py", "table.py", "masked.py", "union.py", "chunked.py", "indexed.py", "virtual.py", "objects.py", "base.py")] + ["awkward0/type.py"],
     [("__iter__, __len__, tolist and _gettype of each class", "awkward0/array/*.py"), ("Table._index views", A + "table.py")],
     ["tolist", "len", "iter", "[i]", ".type"],
     "typed values are generated first, then an array of them in a random layout; the oracle is the list of values")

prop("C03", "One-dimensional indexing agrees with Python lists",
     "Indexing any array with an integer, a slice with any start, stop and step, a boolean mask, or an integer array gives exactly the elements a Python list (or Numpy fancy indexing) gives, including negative, repeated and empty indexes, in any chain, and in every layout. Out-of-range integers, alone or in an integer array, raise IndexError rather than returning a value.",
     ["inputs", "histories"], "every array of every type and layout, every chain of 1-d indexes with Python int, Numpy integer, list, contiguous or strided array",
     "the tests try some indexes on some arrays; slices across chunk boundaries with steps, unsorted fancy indexes, negative indexes on views of views and short or long masks are combinations they do not reach",
     [A + x for x in ("jagged.py", "table.py", "masked.py", "union.py", "chunked.py", "indexed.py", "virtual.py", "objects.py")],
     [("__getitem__", "awkward0/array/*.py"), ("ChunkedArray.global2chunkid", A + "chunked.py"), ("Table._newslice", A + "table.py")],
     ["a[i]", "a[i:j:k]", "a[mask]", "a[intarray]"],
     "chains of generated indexes over generated layouts against Python list semantics")

exec(open(os.path.join(HERE, "tools", "more.py")).read())

CLAIMED = [d["id"] for d, _ in P if os.path.exists(os.path.join(HERE, "pbt", "props", d["id"].lower() + ".py"))]

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{"property": d["id"], "quick_cmd": "./run.sh %s quick" % d["id"], "thorough_cmd": "./run.sh %s thorough" % d["id"],
                "technique": "property-based testing: structured generation with choice-sequence shrinking against an executable reference",
                "level": "exploration",
                "level_note": "Generated-input search: " + note + ". Assurance is limited to the cases explored (counts in the evidence file); the Python reference model and Numpy itself are trusted."}
               for d, note in P if d["id"] in CLAIMED],
    "not_applicable": [{"property": d["id"], "reason": "check not built yet"} for d, _ in P if d["id"] not in CLAIMED],
    "notes": "Everything is pure Python over /repo's working tree: nothing to build. run.sh replay <file> re-runs a shrunk failure.",
}
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(CLAIMED), "claimed")
