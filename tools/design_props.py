TEXT = {
"C01": """
Specified: `tolist(fromiter(x)) == x` under the documented conventions, plus the canonical type. Generated: nested Python
values, heterogeneous at any level with some probability, fed as lists, tuples, generators and nested generators, with both mask
conventions and with dictionary encoding. Oracle: the input itself (round trip) and a small reference that computes the type
from the values. Beyond tests: the state machine of the fillables (`generate.py`) promotes and wraps depending on the *order*
in which kinds arrive; orders are generated.""",
"C02": """
Specified: physical layout is unobservable. Generated: (type, values, layout) as in section 1. Oracle: the Python values; every
array is read several times in different ways (len, iteration, integers, tolist, type) to show that reading changes nothing.
This check also is the self-test of the layout generator all the others use.""",
"C03": """
Specified: one-dimensional `__getitem__`. Generated: arrays in any layout and chains of one to three indexes (steps of either
sign, masks as arrays or lists, integer arrays of any width, empties, negatives, duplicates, out of range). Oracle: Python lists.""",
"C04": """
Specified: tuple indexes, jagged masks and integers, columns. Oracle: a recursive model that applies each item of the tuple at
its level (arrays iterate together, as in Numpy), or raises; jagged selections are computed list by list; indexes that do not
line up with the array (an element moved, dropped or added at any level) must raise. `wrapped` puts wrappers around the arrays and
multidimensional Numpy contents into these wrappers.""",
"C05": """
Specified: ufuncs. Generated: one or two operands with the same nested structure (lists, records, options, unions) in independent
layouts, nested Python lists in place of one, scalars of Python and Numpy, flat arrays (numbers, missing values, records, Python
lists) to broadcast, structures that differ. Oracle: the ufunc on the scalars at every
position; result types against Numpy's for the item types. `manytags` combines unions with hundreds of pairs of possibilities.""",
"C06": """
Specified: reducers and moments. Oracle: loops with None and NaN skipped; identities for empty lists; the defining formulas
of the moments; metamorphic: weights that are constant in a list change nothing. `functions` reduces with other ufuncs and
identities, `sparse` sparse arrays whose default is a list.""",
"C07": """
Specified: counts, flatten, pad, regular, fillna, compact, structure1d, boolmask. Oracle: list manipulation in Python, per type.""",
"C08": """
Specified: cross, pairs, distincts, choose and their arg versions, unzip, zip, broadcasting by tojagged. Oracle: itertools-like
loops in the documented order; the arg version must select what the other gives; the sub-check `big` uses long lists because
the positions are computed by closed formulas with square and cube roots; `unaligned` requires that chunked arrays are combined
completely or refused, never cut short.""",
"C09": """
Specified: argmin, argmax, argsort. Oracle: loops with ties, NaN and None; the selected elements must be the extremes.""",
"C10": """
Specified: constructors and derived descriptions of jagged structure. Oracle: the list of counts; each constructor must give the
same lists, each derived description must convert back. Stateful: histories of assignments to the six properties, with reads in
between (cached derivations must not go stale). Negative: corrupted descriptions must raise.""",
"C11": """
Specified: tables. Stateful, model-based: a pool of tables and views, each mirrored by a list of dicts; random selections,
assignments, deletions, renames and projections over the pool; all members compared at the end and along the way. Arithmetic of
rows with numbers, rows, tables and Numpy arrays from either side (`rowops`).""",
"C12": """
Specified: equivalence of the five mask encodings. Oracle: list with None; metamorphic: the same operation in every encoding,
and with other data under the mask (NaN, extremes), must give the same.""",
"C13": """
Specified: chunked and appendable arrays. Stateful: which chunk sizes are known depends on what was read before, so histories of
reads are generated; model: the flat list. An appendable array is a model-based state machine (append, extend, slices taken
earlier are re-read later, copies).""",
"C14": """
Specified: virtual arrays. Stateful model: the list of values, a counter of generator calls, caches that evict (LRU, one entry,
never storing, minimal interface), failing generators, column changes that have to survive eviction. Faults injected: evictions at
any point, exceptions from the generator, and deletion or replacement of the cache while new arrays take over freed identities.""",
"C15": """
Specified: string arrays. Oracle: Python strings encoded and decoded by Python's codecs.""",
"C16": """
Specified: persistence in mappings, awkd files, HDF5, pickle. Round trip: values, type, column and row names, class where the
property says so; several arrays per container; `keys()` must list exactly what was written; compression policies are checked in
the schema. Files are written in a scratch directory only.""",
"C17": """
Specified: the whitelist, and containers as mappings. Generated: schemas of nested calls in every place the format allows one,
with stand-ins that only record that they ran; oracle: an independent implementation of the prefix/wildcard rule. Damaged data must
raise. Containers: stateful comparison with a dict under put, get, delete, list, failing writes and re-opening.""",
"C18": """
Specified: Arrow and Parquet. Oracle: Arrow's own `to_pylist` and `validate(full=True)`; round trips; types of schemas against a
reference; strings of any encoding arrive as the same text or are refused, whatever the encoding's spelling.""",
"C19": """
Specified: type algebra and the types and layouts of arrays. Metamorphic: rewritings that must keep a type equal (order of
fields and alternatives, nested options and unions, fixed dimensions moved), changes that must not; equality against an
independent normal form; hashes agree; recursive types terminate; repr evaluates back. The printed layout names each part where it is.
`passing` compares tables, unions and chunks of virtual arrays that are made anew at every reading with the same of plain arrays; `sizes` adds up nbytes.""",
"C20": """
Specified: operations do not modify inputs. Invariant: every buffer reachable from the inputs, and every index, mask, weight or
Python object passed, is compared bit for bit before and after one to four operations out of a list of about 80; deep copies are
tested for shared memory.""",
"C21": """
Specified: concatenation. Oracle: list concatenation (axis 0) and pairwise joining (axis 1); what the code refuses must be
refused with an exception and what it must not refuse (arrays of the same classes) must work.""",
"C22": """
Specified: copies, *_like, astype, nbytes. Oracles: equality with the source; after scribbling over all buffers of one side the
other is unchanged; `copy(x=...)` against the array built with that parameter; a census of buffers for nbytes; a history of column changes, copies
and evictions over virtual tables (`virtualcolumns`).""",
"C23": """
Specified: object arrays and mixins. Oracle: the generator applied to the content at the selected positions, instance checks for
mixin methods; an analysis written with methods against the same written with loops.""",
"C24": """
Specified: column assignment through wrappers. Stateful: a list of dicts updated along with one to five assignments, some of
which must be refused and then leave everything as it was (including when one of several columns does not fit);
two-dimensional indexes and Numpy structured arrays (`shapes`).""",
"C25": """
Specified: Numpy and pandas conversion, the switches, printing. Oracle: arrays built by Numpy from the Python values; with a switch
off, exactly the named operations raise and everything else gives the same; with validity checks off valid arrays behave the same.""",
"C26": """
Specified: unions. Oracle: the element of the tagged alternative for each position; invalid tags and indexes must raise; histories
of reassigned tags, index and contents.""",
"C27": """
Specified: attribute setters as histories. Stateful: sequences of valid and invalid assignments, reads, copies and type queries;
oracle: a model of the attributes from which the elements are recomputed at every read, so that anything cached too long shows. The models of
jagged, masked and union arrays are the ones of C10, C12 and C26.""",
"C28": """
Specified: arrays described or indexed by narrow, unsigned and foreign-endian integers. Differential: the twin described by 64-bit
integers must give the same (or raise the same way) for every operation; list lengths are chosen near what the narrow type can hold.""",
"C29": """
Specified: SparseArray against the dense list it stands for. Model: a Python list with the content's values at the index and the default
elsewhere. Contents of all types and layouts, defaults implied or explicit, indexes with repetitions and beyond the length, selections
applied repeatedly, columns, arithmetic, counts, copies, stored forms and in-place assignment of columns.""",
"C30": """
Specified: histories. Each step draws an operation that applies to the present type (the model keeps the type along with the values) and
compares all elements, the length, validity and (sometimes) the array before with the nested-list model. What the code declines with
NotImplementedError is skipped. Documented exceptions are in the guards of the operations: tuples of tuples are flattened, columns of a
table may be longer than the table, and empty chunks have no type. This is the check that finds what the result of one operation does to the next: views of
tables, unions left by sparse selections, contents longer than the list needs.""",
}
