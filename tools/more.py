J = A + "jagged.py"

prop("C04", "Multidimensional, jagged and column indexing agree with per-element indexing",
     "A tuple of row indexes (integers, slices, and one-dimensional masks or integer arrays, which iterate together) no longer than the jagged depth selects from a jagged array what applying each item at its level selects, and raises IndexError where an element it needs does not exist; through wrappers (masked, indexed, sparse, chunked, union, virtual arrays), and for multidimensional Numpy contents of these, the result is the same. A jagged mask or a jagged integer array with the structure of an array filters or rearranges each inner list separately, at any depth, and column selection by a name or a list of names commutes with row selection outside the records. Jagged masks and indexes whose lists differ in number raise an exception.",
     ["inputs"], "every jagged array (any starts/stops order, gaps, depth to 3), every tuple of items up to its depth, every jagged mask and jagged index including negative, empty and repeated entries",
     "each item kind interacts with each other kind and with unordered or gapped inner boundaries; the tests hold a few examples on compact arrays",
     [J, A + "table.py", A + "masked.py", A + "base.py"],
     [("JaggedArray.__getitem__/_getitem_next", J), ("Table.__getitem__ column selection", A + "table.py")],
     ["a[i, j]", "a[:, 1:]", "a[jagged mask]", "a[jagged index]", "a['x'][i]"],
     "reference implementation of tuple and jagged indexing on nested lists")

prop("C05", "Element-wise operations act element by element, with broadcasting",
     "A Numpy universal function or arithmetic, comparison or logical operator on arrays gives, at every position of the nested structure, the result of the same function on the scalars at that position, keeping the structure: scalars and flat arrays broadcast into jagged ones, records combine column by column (== and != give one boolean per record), a missing operand gives a missing result, mixtures combine item by item, and chunked arrays combine whatever their chunk boundaries. Jagged arrays whose inner lengths differ are rejected with an exception, and the physical layouts of the operands do not change the result.",
     ["inputs", "configurations"], "every pair of operands with matching structure in any two layouts, with several unary, binary and two-output functions, and every mismatched pair of jagged structures",
     "structure matching is decided per pair of layouts (offsets shared or not, gaps, views, chunk boundaries, masks); the tests use a few equal-layout pairs",
     [J] + [A + x for x in ("table.py", "masked.py", "union.py", "chunked.py", "indexed.py", "virtual.py", "base.py")],
     [("__array_ufunc__", "awkward0/array/*.py"), ("JaggedArray.broadcast/tojagged", J)],
     ["numpy ufuncs", "operators"],
     "reference: the scalar function applied by Numpy at each position of the nested values, with the same dtypes")

prop("C06", "Reducers reduce each innermost list, skipping missing values and NaN",
     "any, all, count, count_nonzero, sum, prod, min, max and reduce on a jagged array give for each innermost list the reduction of its items with None and NaN skipped, and the documented identity for an empty list (infinities for min and max of floats, the extreme integers of integers); on flat arrays and records they give the scalar or one value per column. moment, mean, var and std, with or without weights and ddof, equal their defining formulas per inner list, and a weight constant within a list has no effect.",
     ["inputs", "configurations"], "every jagged, masked or record array of booleans, integers or floats (NaN and infinities included), in any layout, with empty lists first, last, adjacent and unordered or gapped contents",
     "the implementation uses reduceat over a flat content, whose treatment of empty lists, trailing lists, gaps and overlaps depends on the layout; the tests sample few",
     [J, A + "base.py", A + "masked.py", A + "table.py", A + "chunked.py", A + "indexed.py", A + "union.py"],
     [("_reduce and _prepare", "awkward0/array/*.py"), ("JaggedArray._reduce via reduceat", J), ("AwkwardArray.moment/mean/var/std", A + "base.py")],
     ["sum, prod, min, max, any, all, count, count_nonzero, reduce", "moment, mean, var, std"],
     "pure-Python reduction of every innermost list")

prop("C07", "counts, flatten, pad, regular and structure helpers keep every element",
     "counts gives the length of every inner list (-1 for a missing or non-list element), flatten joins the inner lists in order at the requested depth (missing items inside them stay), pad extends (and with clip truncates) each list to the requested length with missing values and changes nothing else, regular gives the rectangular Numpy array exactly when all lists have one length (missing numbers as NaN) and raises otherwise, and fillna replaces exactly the missing values and NaN. Where there is no inner list to act on (flat arrays, records) they raise an exception. All are independent of the physical layout.",
     ["inputs", "configurations"], "every jagged, masked, record, union or string array in any layout, every pad length including zero, every flatten depth",
     "these operate on starts, stops and offsets, where gaps, disorder, empty lists and masks interact; tests use compact arrays",
     [J, A + "base.py", A + "masked.py", A + "table.py", A + "objects.py", A + "union.py", A + "chunked.py", A + "indexed.py"],
     [("flatten, pad, regular, counts", "awkward0/array/*.py"), ("_util_pad, _util_flatten", A + "base.py")],
     ["counts", "flatten", "pad", "regular", "fillna", "compact", "structure1d", "index/parents"],
     "list-of-lists reference for each operation")

prop("C08", "Combinatorics enumerate exactly the right tuples per list, in order",
     "cross gives for each list every pair with the matching list of the other array, pairs every i<=j pair, distincts every i<j pair, and choose(n) for n from 2 to 5 every n-element combination, each exactly once, in the documented order (choose: by the last item first) and, with nested=True, grouped by the left element. The arg versions give local positions that select the same tuples, unzip returns the corresponding sides, and JaggedArray.zip builds lists of tuples or records of its jagged arguments, broadcasting flat arrays and scalars.",
     ["inputs"], "every pair of jagged arrays with equal length, any inner counts (0..7) and any layout of starts and stops",
     "the offsets arithmetic is closed-form (triangular and binomial roots); errors appear only at particular counts, gaps or depth",
     [J, A + "table.py", A + "base.py"],
     [("argcross, argpairs, argdistincts, argchoose, zip", J)],
     ["cross", "pairs", "distincts", "choose", "argcross", "argpairs", "argdistincts", "argchoose", "unzip", "JaggedArray.zip"],
     "itertools per inner list")

prop("C09", "argmin, argmax and argsort give positions that select the right elements",
     "argmin and argmax of a jagged array give, for each list, an empty list or the single local position of its first smallest or largest element, and indexing with the result selects that element; None and NaN are skipped, and a list with nothing else gives an empty list. argsort of jagged arrays gives, for every list, the positions of its non-missing items in descending (by default) or ascending order, equal items in their original order and NaN last. On flat arrays argmin and argmax agree with Numpy, skipping missing values.",
     ["inputs", "configurations"], "every jagged array of numbers with ties, empty lists anywhere, unordered or gapped contents",
     "the tests use small distinct lists without gaps; ties, empties, overlapping boundaries and integer extremes are inputs they do not sample",
     [J, A + "base.py", A + "masked.py", A + "chunked.py"],
     [("JaggedArray._argminmax, argsort", J)], ["argmin", "argmax", "argsort", "a[a.argmax()]"],
     "Python reference per list")

prop("C10", "All ways of describing jagged structure agree, and malformed ones are rejected",
     "Building a jagged array from counts, offsets, starts/stops, parents (with or without a length), uniques, a local index, a list of lists, a folding or a regular array gives the same array, and the derived counts, offsets, parents and localindex are consistent with its lists and convert into each other without loss, also after any sequence of assignments to starts, stops, offsets, counts, parents and content. Structures that do not describe lists inside the content (too short a content, decreasing offsets, negative starts, mismatched lengths, non-integer dtype) raise an exception instead of reading other data.",
     ["inputs"], "every list of counts, every order and integer width of the describing arrays, every malformed variation of a valid structure",
     "conversions are vectorized with special cases for leading, trailing and adjacent empty lists; tests hold a few",
     [J, A + "base.py", "awkward0/util.py"],
     [("offsets2parents, parents2startsstops, counts2offsets, uniques2offsetsparents, startsstops2parents", J), ("_valid and property setters", J)],
     ["JaggedArray.from*", "starts, stops, offsets, counts, parents, index", "valid()"],
     "list-of-lists reference; malformed structures must raise on first use")

prop("C11", "Tables are records: columns, rows and views always describe the same data",
     "For a table under any sequence of column assignment, deletion and reordering, row slicing, masking, fancy indexing, column selection and projection of nested tables, every row equals the record of the columns at that row, and the table is as long as its shortest column. Row selections see the data of the rows they selected, columns read through a view have the view's rows, and rows can be read by name, position and attribute.",
     ["histories"], "every table of generated columns (nested tables included) and every sequence of operations, compared after each step with a list of dicts",
     "views compose (slices of slices, fancy of slices, negative steps) and share contents; the tests cover single steps",
     [A + "table.py", A + "base.py"],
     [("Table._view, _newslice, _index, Row", A + "table.py")],
     ["t[...]", "t['x']", "t['x'] = ...", "del t['x']", "t.columns", "row.x", "unzip", "fromrec, frompairs"],
     "stateful model: list of dicts",
     [("view", "which rows of the shared columns this table shows", A + "table.py")])

prop("C12", "All mask encodings are equivalent",
     "A masked array given by a boolean mask, a bit mask with either bit order, or an index with a sentinel, masked when true or when false, has exactly the intended elements missing under reading, indexing, arithmetic, reduction, ismasked/isunmasked/boolmask, fillna and conversion between the encodings (concatenating bit masks is refused). The values hidden under a mask never influence any result.",
     ["inputs", "configurations"], "every mask pattern (lengths around multiples of eight included), every encoding, and hidden values chosen freely, including NaN and extremes",
     "hidden values are zero or harmless in the tests, and most tests use one encoding",
     [A + "masked.py", A + "base.py"],
     [("MaskedArray, BitMaskedArray, IndexedMaskedArray", A + "masked.py")],
     ["tolist", "ismasked", "boolmask", "fillna", "reducers", "ufuncs", "fromboolmask/bool2bit/bit2bool"],
     "list with None as reference; metamorphic change of hidden values")

prop("C13", "Chunked and appendable arrays behave as the concatenation of their chunks",
     "A chunked array, whatever its chunk boundaries and whether or not its chunk sizes are known yet, indexes, iterates, computes and converts like one contiguous array, and maps global to local positions and back consistently. An appendable array under any interleaving of append, extend, reads, slices and copies holds exactly the values appended so far, and earlier slices are unchanged by later appends.",
     ["histories"], "every partition into chunks (empty ones included), every order of size discovery, every interleaving of appends and reads with every chunk size",
     "boundary arithmetic depends on where slices and steps fall relative to chunk edges, and on what was read before",
     [A + "chunked.py"],
     [("global2chunkid, global2local, local2global, __getitem__ slices", A + "chunked.py"), ("AppendableArray.append/extend", A + "chunked.py")],
     ["a[...]", "append", "extend", "global2local", "local2global", "offsets"],
     "stateful model: a Python list",
     [("chunksizes", "sizes known so far", A + "chunked.py")])

prop("C14", "Virtual arrays compute once, on demand, and stay right when a cache evicts",
     "A virtual array gives the values its generator gives under every operation, calls the generator only when its values are needed and at most once while it stays materialized, and calls it again only after its cache dropped the value. Assigning and deleting columns survives eviction and re-materialization, and slices, copies and type declarations do not materialize the array; copies of an array that has a cache and no persistent key do not disturb each other, and an array that is deleted or given another cache leaves nothing behind that a later array could be given.",
     ["histories"], "every sequence of reads, property queries, slices, copies, cache evictions, column assignments and deletions, with and without declared type, cache and persistent keys",
     "tests check single calls; eviction between any two steps is a history dimension they do not explore",
     [A + "virtual.py"],
     [("materialize, ismaterialized, cache, _util_virtual", A + "virtual.py")],
     ["v.array", "v.ismaterialized", "v.materialize()", "generator call count"],
     "stateful model with a counting generator and an evicting cache",
     [("setitem/delitem", "columns assigned or deleted before materialization", A + "virtual.py")])

prop("C15", "String arrays hold exactly the given strings",
     "A string or bytes array built from Python strings, Numpy string arrays, or character buffers returns exactly those strings under reading, every index, slice, mask and fancy index, equality and inequality comparison with a string or a string array of the same length, padding and clipping (of encoded characters), concatenation, flattening and conversion, for every character including non-ASCII, empty strings and embedded zero bytes where the source can hold them, in every codec that writes no byte-order mark.",
     ["inputs"], "every list of unicode or byte strings, every supported encoding, gapped and unordered character buffers",
     "tests use short ASCII strings in compact buffers",
     [A + "objects.py", A + "base.py"],
     [("StringArray, StringMethods, fromnumpy, fromiter", A + "objects.py")],
     ["StringArray.fromiter/fromstr/fromnumpy/fromoffsets", "==, !=", "pad", "counts", "tolist"],
     "Python string reference")

prop("C16", "Saving and loading gives back an equal array, in every format",
     "Any array written with the serializer into a mapping, a zip container (save/load, toparquet excluded) or an HDF5 file and read back has equal values, equal type and the same column names and row names, whatever its physical layout, compression settings and prefix, and several arrays stored in one container do not disturb one another. A name that begins with another name already in a file is refused rather than mixed up.",
     ["inputs", "configurations"], "every typed array in every layout, sliced and shared buffers included, any compression policy, any names and prefixes",
     "tests round-trip one literal per class; views, empty arrays, shared sub-arrays and nested layouts multiply",
     ["awkward0/persist.py"] + [A + x for x in ("base.py", "jagged.py", "table.py", "masked.py", "union.py", "chunked.py", "indexed.py", "virtual.py", "objects.py")] + ["awkward0/type.py"],
     [("serialize, deserialize, save, load, hdf5", "awkward0/persist.py"), ("__awkward_serialize__", "awkward0/array/*.py")],
     ["awkward0.persist.serialize/deserialize", "awkward0.save/load", "awkward0.hdf5"],
     "round trip, values and type compared, in memory, zip and HDF5")

prop("C17", "Loading only calls whitelisted functions, and containers behave as mappings",
     "Deserializing stored data calls only functions the whitelist allows (entries are prefixes, or patterns with wildcards), for any specification in the data, and rejects everything else with an exception before it has any effect; pickled Python objects need awkward0.persist.topython in the whitelist. A file or HDF5 container under any sequence of put, get, delete and list operations, and re-opening, behaves as a dict of arrays; a failed or partial write does not change the other entries.",
     ["inputs", "histories"], "every call specification with dotted names inside and outside the whitelist at every position of the schema, and every operation sequence on a container",
     "tests read only what the library wrote",
     ["awkward0/persist.py"],
     [("spec2function, frompython, whitelist", "awkward0/persist.py"), ("hdf5, load", "awkward0/persist.py")],
     ["deserialize(..., whitelist)", "hdf5 mapping", "load mapping"],
     "adversarial schemas with canary functions; stateful dict model of containers")

prop("C18", "Arrow conversion is faithful in both directions",
     "Converting an Arrow array or table to an awkward array gives the values Arrow's own conversion gives (nulls as None), for sliced, chunked, nested, dictionary-encoded, union and empty arrays, and converting an awkward array to Arrow gives a valid Arrow array with equal values, also after converting back, except that a missing list or record may become one of missing parts. Writing to and reading from Parquet does the same, in any number of row groups and with any cache. Chunked arrays inside other arrays are refused.",
     ["inputs", "configurations"], "every Arrow type the conversion supports (numbers, booleans, strings, binary, lists, structs, dictionaries, nulls, unions where supported) with any offsets, null patterns and chunking",
     "tests use unsliced literals",
     ["awkward0/arrow.py"],
     [("fromarrow, toarrow, schema2type", "awkward0/arrow.py")],
     ["awkward0.fromarrow", "awkward0.toarrow", "toparquet, fromparquet"],
     "pyarrow's own to_pylist as oracle")

prop("C19", "High-level types describe the data and obey equality laws",
     "The type of an array states its length and the structure of every element, is the same for every layout of the same values (also of virtual arrays whose cache keeps nothing, as are columns and nbytes), and tells records, options, unions, lists, fixed dimensions and strings apart; equality of types is reflexive, symmetric and transitive, ignores the order of union alternatives and of fields, the nesting of unions in unions and options in options, and whether a fixed dimension is inside or outside of a record, agrees with hashing, differs whenever a length, dtype, field or option differs (any two Python callables count as one type), and ends for types that contain themselves. shape, dtype, ndim and size agree with the type and with Numpy for rectangular data, nbytes counts the buffers of every array it is made of once, printing any type or array always succeeds, a type prints as its structure and its repr evaluates to it, types changed in place are the types so made, and the layout of an array names every array it is made of, at its place.",
     ["inputs"], "every nested type to depth 4, pairs related by one change or by reordering, recursive types, and arrays of them",
     "tests compare a list of fixed pairs",
     ["awkward0/type.py", A + "base.py"],
     [("Type._eq, __hash__, fromarray, fromnumpy", "awkward0/type.py")],
     [".type", "==", "hash", "str/repr", ".shape/.dtype/.size/.ndim", "layout"],
     "generated type pairs with a structural reference equality")

prop("C20", "Operations never modify their inputs",
     "Except for explicit column assignment, deletion and appending, no operation changes the values of the arrays, index arrays, masks, weights, buffers or Python objects passed to it or it is called on: reading, indexing, arithmetic, reducing, combining, padding, filling, concatenating, converting, copying and saving leave them bit-for-bit equal. Results that are copies made by deepcopy share no buffers with their source. (A shallow copy of a wrapper shares its inner tables by definition, so that assigning a column through it is seen in both.)",
     ["inputs", "histories"], "every operation of the library on every layout, with negative indexes, NaN, masks and views, checked on values and on the raw buffers",
     "tests look at results, rarely at the inputs afterwards",
     [A + x for x in ("jagged.py", "table.py", "masked.py", "union.py", "chunked.py", "indexed.py", "virtual.py", "objects.py", "base.py")],
     [("everything that computes in place on a Numpy array", "awkward0/array/*.py")],
     ["buffers of all inputs before and after"],
     "snapshot of every reachable buffer before and after each operation")

prop("C21", "Concatenation joins arrays in order along either axis",
     "concatenate along axis 0 gives the elements of the first array followed by those of the next, for any number of arrays made of the same classes (with any gaps, views, masks, sentinels, offsets and integer widths) and for Numpy arrays mixed with them; arrays of other classes or object arrays with other generators are kept apart in a union or refused, with an exception. Axis 1 joins the inner lists of jagged arrays of equal length pairwise (required of numbers, of records of numbers and of objects made from such records; anything else is joined or refused). Structures that cannot be joined (tables with other columns, other lengths along axis 1, no arrays, axis 2) raise an exception rather than losing or mixing data, and the arrays joined are unchanged.",
     ["inputs", "configurations"], "every list of one or more arrays of matching types, empty ones included, with gaps, views, masks and different integer widths",
     "tests use pairs of compact arrays",
     [A + x for x in ("base.py", "jagged.py", "table.py", "masked.py", "union.py", "chunked.py", "indexed.py", "virtual.py", "objects.py")],
     [("concatenate, _concatenate_axis0, _concatenate_axis1", "awkward0/array/*.py")],
     ["AwkwardArray.concatenate", "a.concatenate([...])"],
     "list concatenation as reference")

prop("C22", "copy, deepcopy, *_like and astype keep structure",
     "copy and deepcopy give an array with equal values, type and class; with parameters replaced they give the array built with those parameters, and leave the source as it was. A deepcopy is unaffected by anything done to the source's buffers (and the other way around), and columns assigned to or deleted from a copy of a table do not appear in the source. zeros_like, ones_like and empty_like keep the structure (lengths, records, missing positions, string lengths) with zeros, ones or anything as numbers and characters (empty_like of records leaves the columns to be filled; defaults of sparse arrays stay), astype converts every number and nothing else (strings stay), and nbytes is the sum over all buffers, with a shared part of the structure and shared offsets counted once, or what an unmaterialized virtual array declares.",
     ["inputs", "configurations"], "every typed array in every layout",
     "tests call these on one compact example per class",
     [A + x for x in ("base.py", "jagged.py", "table.py", "masked.py", "union.py", "chunked.py", "indexed.py", "virtual.py", "objects.py")],
     [("copy, deepcopy, empty_like, zeros_like, ones_like, astype, nbytes", "awkward0/array/*.py")],
     ["copy", "deepcopy", "zeros_like", "ones_like", "astype", "nbytes"],
     "values, types and buffer identity compared")

prop("C23", "Objects and mixin methods survive every operation",
     "An object array makes the object its generator makes from the content at each selected position, and indexing, slicing, masking, flattening, combining, copying and concatenating it (inside or around lists, records, masks and any layout) selects the same objects; element-wise operations act on the content and make objects of the result. Arrays given methods by a mixin keep those methods through slicing, masking, fancy and jagged indexing and copying whenever the result is an array of the same class, the methods of the content (but not of the container) are there in columns, elements and flattened content, and classes derived from Methods are transferred from the content to the lists and masks around it in element-wise results and column selections. Python objects and named tuples put into an array by fromiter come back equal, of their own class.",
     ["inputs"], "every content layout, every index chain, mixins on jagged arrays, tables and object arrays",
     "tests check a few methods on a few classes",
     [A + "objects.py", A + "jagged.py", A + "table.py"],
     [("Methods.mixin, maybemixin, ObjectArray", A + "objects.py")],
     ["ObjectArray[...]", "Methods.mixin", "a.method()"],
     "list of expected objects; class and method checks after each operation")

prop("C24", "Column assignment works through every wrapper",
     "Assigning or deleting one or several columns on an array of records, seen directly or through jagged, masked, chunked, indexed, sparse, union, virtual wrappers or row views, makes exactly that column have exactly those values at every row and leaves all other columns unchanged. Scalars and flatter columns are broadcast; the new column may itself be in any layout. Assignments whose structure does not match (other lengths or list counts, other numbers of columns, names that are not strings, views of tables) are rejected and leave the array as it was, also when only one of several columns does not fit. A chunked array only accepts columns with the same chunk sizes, a sparse one only zeros where it has no rows, and an array that shows a row twice may refuse.",
     ["inputs", "histories"], "every wrapper nesting, view and sequence of assignments and deletions, with flat columns broadcast into jagged ones",
     "tests assign once to a compact table",
     [A + x for x in ("table.py", "jagged.py", "masked.py", "chunked.py", "indexed.py", "union.py", "virtual.py")],
     [("__setitem__, __delitem__", "awkward0/array/*.py"), ("IndexedArray._invert", A + "indexed.py")],
     ["a['x'] = ...", "a[['x','y']] = ...", "del a['x']"],
     "list-of-dicts reference after every step")

prop("C25", "Conversions to Numpy and pandas and the global switches behave as documented",
     "Converting an array to Numpy (numpy.array, numpy.asarray, with or without a dtype) gives the same values for every layout: the same dtype and shape where the elements are numbers, fixed-size arrays of numbers or records of numbers (structured), nan for missing floats, and an object array of the elements for lists, strings, objects, and whatever else is missing. topandas gives a DataFrame for tabular arrays and a Series otherwise, whose values, slices, masks and takes are those of the array; topandas(flatten=True) of tables, nested tables and one structure of lists (nested to any depth) gives one row per innermost element, whose index is its row and position in each list, with outer values repeated. With allow_tonumpy or allow_iter switched off on an instance, its class or all classes, conversion to Numpy or iteration raises RuntimeError while lengths, types, slices, masks, columns, ufuncs and reductions stay the same; str and repr never fail, and show the first and last elements whatever the layout. With check_prop_valid or check_whole_valid switched off, arrays of valid parts are built and behave exactly as with them on, and properties that would be refused are accepted.",
     ["inputs", "configurations"], "every typed array in every layout, with each switch on and off",
     "tests check one array per switch",
     [A + "base.py", "awkward0/pandas.py"] + [A + x for x in ("jagged.py", "table.py", "masked.py", "chunked.py")],
     [("__array__, _checktonumpy, _checkiter", A + "base.py"), ("topandas", "awkward0/pandas.py")],
     ["numpy.array(a)", "awkward0.topandas", "allow_tonumpy", "allow_iter", "repr"],
     "values compared; exceptions required when switched off")

prop("C26", "Unions hold each element under its own alternative",
     "A union array built from tags and index (or tags alone) gives at each position the element of the tagged alternative, whatever the order, repetition and gaps of the index: in iteration, integers, slices, masks, integer arrays and their compositions, indexes continued into the alternatives, two-dimensional tags, column selection, element-wise operations with scalars, arrays and other unions, conversion to Numpy, astype, pad, fillna, boolmask, counts (-1 where not a list) and concatenation. Reducers combine all elements of numeric alternatives, or of each list of list alternatives, and refuse mixtures. Invalid tags, indexes or contents raise instead of returning other elements; what is assigned to tags, index or contents is what is used.",
     ["inputs", "configurations"], "every tag sequence over 1..4 alternatives with unordered, shared and gapped indexes",
     "tests use three or four elements in order",
     [A + "union.py"],
     [("UnionArray.__getitem__, fromtags, _ufunc", A + "union.py")],
     ["UnionArray.fromtags", "a[...]", "a.simplify_numeric", "ufuncs"],
     "list of tagged values")

prop("C27", "Reassigned attributes are what an array uses; invalid ones are refused",
     "The attributes an array is described by (starts, stops, offsets, counts and parents of lists, masks, tags, index, content, length and default, generator, args and kwargs, starts, stops and encoding, chunks, chunksizes and chunkshape, rowname, rowstart and contents, and of virtual arrays also cache, type, nbytes and persistentkey) may be reassigned in any order, with reads in between, and what was last assigned is what every later read, selection and type uses, nothing of the earlier values surviving; a single argument that is not a tuple is the only argument. Copies keep the values they had. Values that are invalid by themselves are refused with TypeError or ValueError (LookupError for an unknown encoding) and leave the array as it was; an index that does not fit the content raises ValueError or IndexError when the array is read and makes valid() False.",
     ["inputs", "histories"], "every sequence of assignments, refused assignments, reads and copies on the jagged, masked, union, indexed, sparse, object, string, chunked, appendable, virtual and table classes",
     "the classes cache what they derive from these attributes and validate them lazily; the tests construct arrays once and assign hardly any attribute",
     [A + x for x in ("indexed.py", "objects.py", "chunked.py", "virtual.py", "table.py")],
     [("the property setters and _valid methods", "awkward0/array/*.py"), ("SparseArray._inverse cache", A + "indexed.py"), ("VirtualArray.array", A + "virtual.py")],
     ["a.index = ...", "a.generator = ...", "a.encoding = ...", "a.chunks = ...", "a.valid()"],
     "a model of the attributes, from which the elements are computed anew at every read")


prop("C28", "The width of the integers that describe an array never matters",
     "Starts, stops, offsets, counts, parents, mask indexes, indexes and tags may be given as integers of any width, signed or unsigned, native or foreign-endian, as may the integers and integer arrays an array is indexed with: as long as the values themselves fit, every operation (selection, flattening, reduction, sorting, counting, pairs, crosses and choices, padding, concatenation, comparison, conversion, storage) gives what it gives with 64-bit integers, or raises where that raises. No result that is derived from them (the length of a list times that of another, an index plus the length, a position in a chunk plus its offset) wraps around, and none becomes a floating-point number.",
     ["inputs", "configurations"], "the same array described twice, once in a narrow, unsigned or foreign-endian type whose limit the values come close to, for every class and every operation; and arrays of 130 to 300 elements indexed by such integers",
     "the tests use default integers; wrap-around needs lists or arrays longer than the narrow type can count",
     [A + x for x in ("jagged.py", "chunked.py", "indexed.py", "masked.py", "union.py", "table.py", "base.py")],
     [("_util_toindex", A + "base.py"), ("JaggedArray.counts, argpairs, argchoose, argcross, argsort", A + "jagged.py"), ("global2local, local2global", A + "chunked.py"), ("Table._newslice", A + "table.py")],
     ["JaggedArray(starts, stops, content)", "JaggedArray.fromcounts", "IndexedArray", "UnionArray", "a[numpy.int8 array]"],
     "the same array described by 64-bit integers; Python lists")

prop("C29", "Sparse arrays are the dense arrays they stand for",
     "A SparseArray of any content is the array that has content[j] at each index[j] (the first j, if an index is repeated) and the default everywhere else: for every length, sorted index (of any integer type, with repetitions, beyond the length, or empty), content (flat, multidimensional, jagged, strings, tables, masked or wrapped) and default (the implied one, which is the zero, empty list, empty string, missing value or record of those that the content's type calls for, or an explicit number, list, record or missing value), len, iteration, tolist, integer, slice, mask, fancy and tuple selections, column selection, ufuncs, counts, dense, boolmask, inverse, copies, serialized and pickled forms and assignments of columns agree with that dense array, on first use and on any later one.",
     ["inputs", "histories"], "sparse arrays of up to 12 elements, index to content and default of every kind; selections of every kind, in sequence and nested; copies and stored forms",
     "the tests cover a handful of sparse arrays of numbers with the default zero",
     [A + "indexed.py"],
     [("SparseArray.__getitem__, _getitem_tail, __iter__, _getinverse, dense, boolmask, default, _util_zero, counts", A + "indexed.py"), ("SparseArray.__awkward_serialize__", A + "indexed.py")],
     ["SparseArray(length, index, content, default)", "a[...]", "a.dense", "a.boolmask()", "a.counts", "a.copy()"],
     "a Python list of the elements")

prop("C30", "Operations compose",
     "For every array, whatever its type and layout, and every sequence of operations on it, each one on the result of the one before (selections of every kind, jagged masks and indexes, columns and sets of columns taken and assigned, arithmetic, comparisons, flattening, padding, filling, counts, reducers, positions of extremes, combinations, concatenation, copies, serialized forms, conversion to and from Python objects, and putting the result into new jagged, indexed, chunked, masked, sparse, virtual, union and table structures), the elements after each step are those that the same step gives on nested Python lists: no operation's result is an array that other operations then get wrong, and no operation changes the array it was applied to.",
     ["inputs", "histories"], "histories of 2 to 9 operations out of 25 kinds, starting from arrays of any type and layout",
     "the tests apply one or two operations to arrays as their constructors make them; what operations return (views, unions of parts, partly filled chunks, contents longer than needed, wrapped wrappers) is rarely operated on again",
     [A + x for x in ("jagged.py", "chunked.py", "indexed.py", "masked.py", "union.py", "table.py", "virtual.py", "objects.py", "base.py")],
     [("__getitem__ of every class", A + "*.py"), ("concatenate, _util_*", A + "base.py"), ("_reduce, _prepare of every class", A + "*.py")],
     ["a[...]", "a.flatten()", "a.pad()", "a.pairs()", "awkward0.concatenate", "awkward0.fromiter", "a.copy()"],
     "nested Python lists, dicts and tuples, stepped along with the array")
