PROPERTY = "C13"
NEEDS = "an unsorted integer array as an index of a chunked array whose chunk sizes are not known yet"
BREAKS = "chunks are only counted up to the last index, so larger positions before it are looked up in the wrong chunk"
EDITS = [('awkward0/array/chunked.py', """self.global2chunkid(index.max())    # make sure""", """self.global2chunkid(index[-1])    # make sure""")]
DEMO = """
import awkward0
def fresh():
    return awkward0.ChunkedArray([[0, 1], [2, 3], [4, 5]])
assert fresh()[[5, 0]].tolist() == [5, 0]
a = fresh()
chunkid = a.global2chunkid([4, 1])
assert chunkid.tolist() == [2, 0]
"""
