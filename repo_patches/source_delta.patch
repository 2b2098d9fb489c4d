From a4902e146ceafcc0c254c414bf911301518ee589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 001/103] fix: JaggedArray with stops longer than starts, as
 documented, in validation, indexing and compaction

---
 awkward0/array/jagged.py | 64 ++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ff7bf52..3b0085f 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -291,7 +291,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self._stops[-1]], "JaggedArray.content"),
+                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
@@ -355,11 +355,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             self._valid()
             if self.offsetsaliased(self._starts, self._stops):
                 self._offsets = self._starts.base
-            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self._stops[:-1]):
-                if len(self._stops) == 0:
+            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]):
+                if len(self._starts) == 0:
                     return self.numpy.array([0], dtype=self.INDEXTYPE)
                 else:
-                    self._offsets = self.numpy.append(self._starts, self._stops[-1])
+                    self._offsets = self.numpy.append(self._starts, self.stops[-1])
             else:
                 raise ValueError("starts and stops are not compatible with a single offsets array")
         return self._offsets
@@ -412,7 +412,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._canuseoffset():
                 self._parents = self.offsets2parents(self.offsets)
             else:
-                self._parents = self.startsstops2parents(self._starts, self._stops)
+                self._parents = self.startsstops2parents(self._starts, self.stops)
         return self._parents
 
     @parents.setter
@@ -479,12 +479,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 if self.check_whole_valid:
                     self._validstartsstops(self._starts, self._stops)
-                nonempty = (self._starts != self._stops)
+                nonempty = (self._starts != self.stops)
                 starts = self._starts[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(starts) != 0 and starts.reshape(-1).max() >= len(self._content):
                         raise ValueError("maximum start ({0}) is at or beyond the length of the content ({1})".format(starts.reshape(-1).max(), len(self._content)))
-                stops = self._stops[nonempty].reshape(-1)
+                stops = self.stops[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
                         raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(self._stops.reshape(-1).max(), len(self._content)))
@@ -568,9 +568,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     offsets = self.counts2offsets(self.counts.reshape(-1))
                     thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
                     thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._stops.shape
+                    thyself._stops.shape = self._starts.shape
 
-                head = head._tojagged(thyself._starts, thyself._stops, copy=False)
+                head = head._tojagged(thyself._starts, thyself.stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
                 intheadsum = inthead.sum()
 
@@ -598,7 +598,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         else:
             starts = self._starts[head]
-            stops = self._stops[head]
+            stops = self.stops[head]
             if len(starts.shape) == len(stops.shape) == 0:
                 return self._content[starts:stops][tail]
             else:
@@ -883,9 +883,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _tojagged(self, starts=None, stops=None, copy=True):
         if starts is None and stops is None:
             if copy:
-                starts, stops = self._util_deepcopy(self._starts), self._util_deepcopy(self._stops)
+                starts, stops = self._util_deepcopy(self._starts), self._util_deepcopy(self.stops)
             else:
-                starts, stops = self._starts, self._stops
+                starts, stops = self._starts, self.stops
 
         elif stops is None:
             starts = self._util_toarray(starts, self.INDEXTYPE)
@@ -913,10 +913,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         self._validstartsstops(starts, stops)
 
-        if not copy and starts is self._starts and stops is self._stops:
+        if not copy and starts is self._starts and stops is self.stops:
             return self
 
-        elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self._stops or self.numpy.array_equal(stops, self._stops)):
+        elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self.stops or self.numpy.array_equal(stops, self.stops)):
             return self.copy(starts=starts, stops=stops, content=(self._util_deepcopy(self._content) if copy else self._content))
 
         else:
@@ -989,7 +989,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         for jaggedarray in inputs:
             if isinstance(jaggedarray, JaggedArray):
-                starts, stops, parents, good = jaggedarray._starts, jaggedarray._stops, None, None
+                starts, stops, parents, good = jaggedarray._starts, jaggedarray.stops, None, None
                 break
         else:
             assert False
@@ -1059,7 +1059,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_regular(self._content)
 
         if self._canuseoffset():
-            out = content[self._starts[0]:self._stops[-1]]
+            out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
@@ -1419,13 +1419,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self) == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self._stops[-1]]
+                return self._content[self._starts[0]:self.stops[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
                     out = self
                 else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
+                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
                 return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
 
     def structure1d(self, levellimit=None):
@@ -1446,9 +1446,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
             offsets = self.numpy.arange(0, (length + 1)*last, last)
             outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out._stops.shape[:-2] + (-1,))
+            outerstops = offsets[1:].reshape(out.stops.shape[:-2] + (-1,))
             innerstarts = out._starts.reshape(-1)
-            innerstops = out._stops.reshape(-1)
+            innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
 
         return out
@@ -1503,7 +1503,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if len(thyself._starts.shape) > 1:
             thyself._starts = thyself._starts.reshape(-1)
-            thyself._stops = thyself._stops.reshape(-1)
+            thyself._stops = thyself.stops.reshape(-1)
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
@@ -1633,7 +1633,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x._stops for x in arrays])
+        stops = cls.numpy.concatenate([x.stops for x in arrays])
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
@@ -1746,7 +1746,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         first = None
         def ready(x):
-            starts, stops = x._starts.reshape(-1), x._stops.reshape(-1)
+            starts, stops = x._starts.reshape(-1), x.stops.reshape(-1)
             if (x._canuseoffset() and len(starts) != 0 and starts[0] == 0) or (len(starts) != 0 and len(stops) != 0 and len(stops) >= len(starts) and starts[0] == 0 and stops[len(starts) - 1] >= starts[len(starts) - 1] and (starts[1:] == stops[:-1]).all()):
                 return x
             else:
@@ -1766,7 +1766,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     if first is None:
                         columns1[n] = first = ready(x)
                     else:
-                        columns1[n] = x._tojagged(first._starts, first._stops, copy=False)
+                        columns1[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         columns2 = list(columns2)
         for i in range(len(columns2)):
@@ -1775,7 +1775,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns2[i] = first = ready(x)
                 else:
-                    columns2[i] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns2[i] = x._tojagged(first._starts, first.stops, copy=False)
 
         for n in columns3:
             x = columns3[n]
@@ -1783,7 +1783,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns3[n] = first = ready(x)
                 else:
-                    columns3[n] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns3[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         if first is None:
             raise TypeError("at least one argument in JaggedArray.zip must be a JaggedArray")
@@ -1803,13 +1803,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1820,7 +1820,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns2[i] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1831,7 +1831,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns3[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1840,13 +1840,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 table = cls.Table.fget(None)(columns1, *columns2, **columns3)
             else:
                 table = cls.Table.fget(None).named("tuple", columns1, *columns2)
-            return cls.JaggedArray.fget(None)(first._starts, first._stops, table)
+            return cls.JaggedArray.fget(None)(first._starts, first.stops, table)
         else:
             if isinstance(columns1, dict) or len(columns3) > 0:
                 table = first.Table(columns1, *columns2, **columns3)
             else:
                 table = first.Table.named("tuple", columns1, *columns2)
-            return first.JaggedArray(first._starts, first._stops, table)
+            return first.JaggedArray(first._starts, first.stops, table)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
-- 
2.43.0


From ae2754fdaef73b513ba56e74ba87d57bd246c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 002/103] fix: IndexedArray with an empty selection keeps the
 content's type

---
 awkward0/array/indexed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6c7b3ba..b553977 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -156,10 +156,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
         head = self._index[head]
-        if len(head.shape) != 0 and len(head) == 0:
-            return self.numpy.empty(0, dtype=self._content.dtype)[tail]
-        else:
-            return self._content[(head,) + tail]
+        return self._content[(head,) + tail]
 
     def _invert(self, what):
         if self._inverse is None:
-- 
2.43.0


From fb3b60c7eaf79f1ade5430384b55ca6b9309db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 003/103] fix: off-by-one in the validity check of IndexedArray
 and IndexedMaskedArray

---
 awkward0/array/indexed.py | 2 +-
 awkward0/array/masked.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index b553977..9ac3084 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -126,7 +126,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._index) != 0 and self._index.reshape(-1).max() > len(self._content):
+                if len(self._index) != 0 and self._index.reshape(-1).max() >= len(self._content):
                     raise ValueError("maximum index ({0}) is beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
 
                 self._isvalid = True
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 38cfaf0..7dfcf20 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -770,7 +770,7 @@ class IndexedMaskedArray(MaskedArray):
         if self.check_whole_valid:
             if not self._isvalid:
                 if len(self._mask) != 0:
-                    if self._mask.max() > len(self._content):
+                    if self._mask.max() >= len(self._content):
                         raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
                     if (self._mask[self._mask != self._maskedwhen] < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
-- 
2.43.0


From 7ecba4af7d9e63a5a9a63e5cba04a5e20c48a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 004/103] fix: len of a VirtualArray whose array has no Numpy
 dtype

---
 awkward0/array/virtual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae2da96..4ed6501 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -264,7 +264,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._nbytes = value
 
     def __len__(self):
-        return self.shape[0]
+        if self._type is None or self.ismaterialized:
+            return len(self.array)
+        else:
+            return self._type.takes
 
     def _valid(self):
         if self.check_whole_valid:
-- 
2.43.0


From 35c5ded817303b3ee281f232a172d38a196f3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 005/103] fix: deleting a column of a VirtualArray forgot all
 assigned columns, and a later assignment stayed deleted

---
 awkward0/array/virtual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 4ed6501..764cd7b 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -378,13 +378,15 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if self._setitem is None:
             self._setitem = OrderedDict()
         self._setitem[where] = what
+        if self._delitem is not None and where in self._delitem:
+            self._delitem.remove(where)
 
     def __delitem__(self, where):
         del self.array[where]
         if self._type is not None:
             self._type = awkward0.type.fromarray(self.array)
         if self._setitem is not None and where in self._setitem:
-            del self._setitem
+            del self._setitem[where]
         if self._delitem is None:
             self._delitem = []
         if where not in self._delitem:
-- 
2.43.0


From 88cb75dcb37b5dd776754b4e180f3911436359a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 006/103] fix: VirtualArray.ismaterialized after adding a cache
 to a materialized array

---
 awkward0/array/virtual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 764cd7b..128bdde 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -323,7 +323,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if self._cache is None:
             return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
         else:
-            return self._array is not None and self._array in self._cache
+            if isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+                return self._array in self._cache
+            else:
+                return self._array is not None
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
-- 
2.43.0


From a3d74791a3bd961554377d4b11592277b97d2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 007/103] fix: copies of a VirtualArray shared a TransientKey,
 which could go stale

---
 awkward0/array/virtual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 128bdde..f8de7df 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -55,7 +55,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         out._type = self._type
         out._nbytes = self._nbytes
         out._persistvirtual = self._persistvirtual
-        out._array = self._array
+        if isinstance(self._array, VirtualArray.TransientKey):
+            out._array = out.key     # a TransientKey belongs to exactly one VirtualArray
+        else:
+            out._array = self._array
         if self._setitem is None:
             out._setitem = None
         else:
-- 
2.43.0


From 9184b5252bbbd0959a8decaf11c98271d37cf765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 008/103] fix: deepcopy of a VirtualArray with a cache

---
 awkward0/array/virtual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index f8de7df..ae49f6b 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -87,7 +87,12 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         out = self.copy(generator=generator, args=args, kwargs=kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
-        out._array = self._util_deepcopy(out._array)
+        if isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            if cache is None:
+                out._cache = None
+            out._array = self._util_deepcopy(self.array) if self.ismaterialized else None
+        else:
+            out._array = self._util_deepcopy(out._array)
         if out._setitem is not None:
             for n in list(out._setitem):
                 out._setitem[n] = self._util_deepcopy(out._setitem[n])
-- 
2.43.0


From 6ad4094e522316ab4113cbc10a5341a0e6530263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 009/103] fix: UnionType equality compared a union with itself

---
 awkward0/type.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index b0b1c3d..5dc4fb5 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -514,11 +514,15 @@ class UnionType(Type):
         else:
             seen.add(id(self))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
-                for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
-                    if not self._eq2(x, y, seen, ignoremask=ignoremask):
+                remaining = list(other._possibilities)
+                for x in self._possibilities:
+                    for i, y in enumerate(remaining):
+                        if self._eq2(x, y, set(seen), ignoremask=ignoremask):
+                            del remaining[i]
+                            break
+                    else:
                         return False
-                else:
-                    return True    # nothing failed in the loop over possibilities
+                return True            # every possibility found its counterpart (in any order)
             else:
                 return False
 
-- 
2.43.0


From 54e99ff71fa0666f6c0fef7e2d65fa5a21a9f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 010/103] fix: equality of types that contain the same type
 object more than once

---
 awkward0/type.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 5dc4fb5..895c4fc 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -331,10 +331,10 @@ class ArrayType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True        # already being compared (recursive type) or found equal (shared type)
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, ArrayType) and self._takes == other._takes:
                 return self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
             else:
@@ -424,10 +424,10 @@ class TableType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True        # already being compared (recursive type) or found equal (shared type)
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields):
                 for n in self._fields:
                     if not self._eq2(self._fields[n], other._fields[n], seen, ignoremask=ignoremask):
@@ -509,10 +509,10 @@ class UnionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True        # already being compared (recursive type) or found equal (shared type)
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
                 remaining = list(other._possibilities)
                 for x in self._possibilities:
@@ -595,10 +595,10 @@ class OptionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True        # already being compared (recursive type) or found equal (shared type)
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, OptionType):
                 if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
                     return True
-- 
2.43.0


From 4d78d2c4b01740e7b1d5461fafc217dd1a377243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 011/103] fix: SparseArray with an empty fancy index or mask

---
 awkward0/array/indexed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 9ac3084..6d844ba 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -605,6 +605,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
+                if len(head) == 0:
+                    return self._content[head][tail]
+
                 match = self.numpy.searchsorted(self._index, head, side="left")
                 match[match >= len(self._index)] = len(self._index) - 1
                 explicit = (self._index[match] == head)
-- 
2.43.0


From a3f75c191bc9721c6ee3a5bede40feb866caf000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 012/103] fix: isnumpy, dtype and hascolumn of types whose
 items are not Numpy (such as strings)

---
 awkward0/type.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 895c4fc..db743fb 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -293,8 +293,10 @@ class ArrayType(Type):
             return False
         elif isinstance(self._to, numpy.dtype):
             return True
-        else:
+        elif isinstance(self._to, Type):
             return self._to._isnumpy(seen)
+        else:
+            return False
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
@@ -357,7 +359,7 @@ class TableType(Type):
     def dtype(self):
         out = []
         for n, x in self._fields.items():
-            if x.shape != ():
+            if not isinstance(x, (Type, numpy.dtype)) or x.shape != ():
                 raise TypeError("Table with non-primitive fields has no Numpy dtype")
             elif isinstance(x, numpy.dtype):
                 out.append((n, x))
@@ -376,7 +378,7 @@ class TableType(Type):
         for x in self._fields.values():
             if isinstance(x, numpy.dtype):
                 return True
-            elif not isinstance(x, OptionType) and x._isnumpy(seen):
+            elif isinstance(x, Type) and not isinstance(x, OptionType) and x._isnumpy(seen):
                 return x.shape != ()
             else:
                 return False
@@ -571,14 +573,16 @@ class OptionType(Type):
         seen.add(id(self))
         if isinstance(self._type, numpy.dtype):
             return True
-        else:
+        elif isinstance(self._type, Type):
             return self._type._isnumpy(seen)
+        else:
+            return False
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
             return False
         seen.add(id(self))
-        return self._type._hascolumn(name, seen)
+        return isinstance(self._type, Type) and self._type._hascolumn(name, seen)
 
     def _subrepr(self, labeled, seen):
         return "OptionType({0})".format(self._type._repr(labeled, seen) if isinstance(self._type, Type) else repr(self._type))
-- 
2.43.0


From 02145957ca6d86e797793783795a476dbf2a1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 013/103] fix: ChunkedArray with an all-False mask keeps its
 type

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38a5572..653908a 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -491,6 +491,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         if len(x) > 0:
                             chunks.append(x)
 
+                if len(chunks) == 0 and len(self._chunks) > 0:
+                    chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that masked.type == self.type
+
                 return self.copy(chunks=chunks)
 
             else:
-- 
2.43.0


From fa864853e8b4ce7fefc8618ea9de13ff3f4d19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 014/103] fix: ChunkedArray dropped the rest of a
 multidimensional index with a sorted fancy index

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 653908a..8d4c4c4 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -456,7 +456,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
                         localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][localindex])
+                        chunks.append(self._chunks[cid][(localindex,) + tail])
                     return self.copy(chunks=chunks)
 
                 elif self._util_isnumpy(self.type):
-- 
2.43.0


From 3703e2dfa159d9573ac898535323db9c65703b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 015/103] fix: ChunkedArray global2local and local2global with
 arrays of indexes

---
 awkward0/array/chunked.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8d4c4c4..4d32573 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -180,7 +180,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_isinteger(index):
             return self._chunks[chunkid], index - self.offsets[chunkid]
         else:
-            return self.numpy.array(self._chunks, dtype=self.numpy.object)[chunkid], index - self.offsets[chunkid]
+            chunks = self.numpy.empty(len(self._chunks), dtype=self.numpy.object_)
+            for i, x in enumerate(self._chunks):
+                chunks[i] = x
+            return chunks[chunkid], index - self.offsets[chunkid]
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
@@ -203,11 +206,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 self.knowchunksizes(chunkid.max() + 1)
                 self._valid()
                 chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
-                mask = (index < 0)
-                index[mask] += chunksizes[mask]
+                chunksizes = chunksizes[chunkid]
+                index = self.numpy.where(index < 0, index + chunksizes, index)
                 if not ((0 <= index) & (index < chunksizes)).all():
                     raise IndexError("some local indexes are out of bounds")
-                return chunksizes[chunkid] + index
+                return self.offsets[chunkid] + index
 
             else:
                 raise TypeError("local2global requires index and chunkid to be integers or arrays of integers")
-- 
2.43.0


From fa682bfebf679ec1998cc595f29d0fa1c7f2b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 016/103] fix: AppendableArray type ignored the shape of its
 items

---
 awkward0/array/chunked.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 4d32573..b5a76a3 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -934,7 +934,10 @@ class AppendableArray(ChunkedArray):
         return self.JaggedArray.counts2offsets(self._chunksizes)
 
     def _gettype(self, seen):
-        return self._dtype
+        out = self._dtype
+        for x in self._chunkshape[:0:-1]:
+            out = awkward0.type.ArrayType(x, out)
+        return out
 
     def _util_layout(self, position, seen, lookup):
         positions = []
-- 
2.43.0


From 5cfa7a29a84a0907d2bf5c55945261f71bfea775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 017/103] fix: deepcopy of ChunkedArray, and chunk sizes in
 copies of AppendableArray

---
 awkward0/array/chunked.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index b5a76a3..19aff4f 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -31,7 +31,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
-        out._chunks = [self._util_deepcopy(out._chunks) for x in out._chunks]
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _mine(self, overrides):
@@ -828,7 +828,7 @@ class AppendableArray(ChunkedArray):
         self.dtype = dtype
         self.chunks = chunks
 
-    def copy(self, chunkshape=None, dtype=None, chunks=None):
+    def copy(self, chunkshape=None, dtype=None, chunks=None, chunksizes=None):
         out = self.__class__.__new__(self.__class__)
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
@@ -837,10 +837,12 @@ class AppendableArray(ChunkedArray):
             out._chunkshape = chunkshape
         if dtype is not None:
             out._dtype = dtype
-        if chunks is not None:
-            out.chunks = chunks
         out._chunksizes = list(self._chunksizes)
         out._types = list(self._types)
+        if chunks is not None:
+            out.chunks = chunks
+        if chunksizes is not None:
+            out._chunksizes = list(chunksizes)
         return out
 
     def _mine(self, overrides):
@@ -989,7 +991,7 @@ class AppendableArray(ChunkedArray):
         chunks = []
         for chunk in self._chunks:
             chunks.append(chunk.astype(dtype))
-        return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks)
+        return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks, chunksizes=self._chunksizes)
 
     def fillna(self, value):
         chunks = []
-- 
2.43.0


From 9f47f522e2db299d19028488be3caff3ca4c25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 018/103] fix: slices and ufuncs of a partly filled
 AppendableArray exposed uninitialised items

---
 awkward0/array/chunked.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 19aff4f..15b5e5d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -554,7 +554,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             batch = []
             for x in inputs:
                 if isinstance(x, ChunkedArray):
-                    batch.append(x._chunks[i])
+                    batch.append(x._chunks[i][:x._chunksizes[i]])     # an AppendableArray's last chunk may be only partly filled
                 elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                     batch.append(x[slc])
                 else:
@@ -957,6 +957,9 @@ class AppendableArray(ChunkedArray):
         if self.check_whole_valid:
             pass
 
+    def __getitem__(self, where):
+        return self.ChunkedArray([x[:n] for x, n in zip(self._chunks, self._chunksizes)], chunksizes=self._chunksizes)[where]
+
     def __setitem__(self, where, what):
         raise TypeError("array has no Table, cannot assign columns")
 
-- 
2.43.0


From 425b2f5d6b7f2a388f98b8e3c83020d8704ed3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 019/103] fix: weighted moment, var and std (weights were
 raised to the power, var crashed)

---
 awkward0/array/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 477e5d0..0fea63c 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -219,7 +219,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             if weight is None:
                 return self.numpy.true_divide((self**n).sum(), self.count())
             else:
-                return self.numpy.true_divide(((self * weight)**n).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide(((self**n) * weight).sum(), (self * 0 + weight).sum())
 
     def mean(self, weight=None):
         with self.numpy.errstate(invalid="ignore"):
@@ -235,9 +235,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 one = self.numpy.true_divide(self.sum(), denom)
                 two = self.numpy.true_divide((self**2).sum(), denom)
             else:
-                denom (self * 0 + weight).sum()
+                denom = (self * 0 + weight).sum()
                 one = self.numpy.true_divide((self * weight).sum(), denom)
-                two = self.numpy.true_divide(((self * weight)**2).sum(), denom)
+                two = self.numpy.true_divide(((self**2) * weight).sum(), denom)
             if ddof != 0:
                 return (two - one**2) * denom / (denom - ddof)
             else:
-- 
2.43.0


From 114b2fff448b8efef0190d0261548b4a6706e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 020/103] fix: fillna overwrote the NaN values of its input

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 0fea63c..4e2e440 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -644,7 +644,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     @classmethod
     def _util_fillna(cls, array, value):
         if isinstance(array, cls.numpy.ndarray):
-            data = cls.numpy.ma.getdata(array)
+            data = cls.numpy.array(cls.numpy.ma.getdata(array))     # a copy, to leave the input as it is
             mask = cls.numpy.ma.getmask(array)
             if mask is not cls.numpy.ma.nomask:
                 data[mask] = value
-- 
2.43.0


From df8723f091cd856b6a47423556174c2c83fbb866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 021/103] fix: argmin and argmax of flat masked arrays

---
 awkward0/array/masked.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 7dfcf20..480298b 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -388,15 +388,15 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self.isunmasked()].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[unmasked].argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self.isunmasked()].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[unmasked].argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
@@ -897,15 +897,15 @@ class IndexedMaskedArray(MaskedArray):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[self._mask[unmasked]].argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.numpy.nonzero(self.isunmasked)[0]
+            return unmasked[self._content[self._mask[unmasked]].argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
-- 
2.43.0


From 0fd400f1c530c16becf66b1f42765c8d0c694c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 022/103] fix: BitMaskedArray with negative or out-of-range
 integer indexes

---
 awkward0/array/masked.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 480298b..ee17f79 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -613,7 +613,9 @@ class BitMaskedArray(MaskedArray):
 
     def _maskwhere(self, where):
         if self._util_isinteger(where):
-            bytepos, bitmask = self._maskat(where)
+            if not -len(self._content) <= where < len(self._content):
+                raise IndexError("index {0} is out of bounds for size {1}".format(where, len(self._content)))
+            bytepos, bitmask = self._maskat(where % len(self._content))
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
         elif isinstance(where, slice):
@@ -623,7 +625,9 @@ class BitMaskedArray(MaskedArray):
         else:
             where = self.numpy.array(where, copy=False)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
-                byteposes, bitmasks = self._maskat(where)
+                if ((where < -len(self._content)) | (where >= len(self._content))).any():
+                    raise IndexError("indexes out of bounds for size {0}".format(len(self._content)))
+                byteposes, bitmasks = self._maskat(self.numpy.where(where < 0, where + len(self._content), where).astype(self.INDEXTYPE))
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
                 return bitmasks.astype(self.numpy.bool_)
 
-- 
2.43.0


From f3f165a93e2ba3dac628c537d04e2e601b48dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 023/103] fix: BitMaskedArray.fromcontent with maskedwhen=False
 masked most items

---
 awkward0/array/masked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index ee17f79..7479e05 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -441,7 +441,7 @@ class BitMaskedArray(MaskedArray):
         if maskedwhen:
             mask = cls.numpy.zeros(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
         else:
-            mask = cls.numpy.ones(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
+            mask = cls.numpy.full(cls._ceildiv8(len(content)), 255, dtype=cls.BITMASKTYPE)
         return cls(mask, content, maskedwhen=maskedwhen, lsborder=lsborder)
 
     @classmethod
-- 
2.43.0


From 5186e0353500dba01c98aaafa2c9cba1a9db5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 024/103] fix: IndexedMaskedArray dropped the rest of a
 multidimensional index

---
 awkward0/array/masked.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 7479e05..2ff5461 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -831,6 +831,8 @@ class IndexedMaskedArray(MaskedArray):
             maskindex = self._mask[head]
             if tail != () and (maskindex == self._maskedwhen).any():
                 raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
+            elif tail != ():
+                return self.fromcontent(self._content[(maskindex,) + tail])
             else:
                 return self.copy(mask=maskindex)
 
-- 
2.43.0


From f08f2a941a1da7a2765cc24bc1c43198e17af2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 025/103] fix: counts and regular of masked arrays (missing
 attribute, content longer than mask)

---
 awkward0/array/masked.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 2ff5461..8348ef3 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -255,8 +255,8 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     @property
     def counts(self):
         self._valid()
-        content = self._util_counts(self._content)
-        out = self.numpy.full(self.shape, -1, dtype=content.dtype)
+        content = self._util_counts(self._content[:len(self)])
+        out = self.numpy.full(len(self), -1, dtype=content.dtype)
         mask = self.boolmask(maskedwhen=False)
         out[mask] = content[mask]
         return out
@@ -307,7 +307,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)
+        out = self._util_regular(self._content[:len(self)]).astype(self.numpy.float64)
         out[self.boolmask(maskedwhen=True)] = float("nan")
         return out
 
@@ -839,8 +839,9 @@ class IndexedMaskedArray(MaskedArray):
     @property
     def counts(self):
         self._valid()
-        out = self._util_counts(self._content)[self._index]
-        out[self.boolmask(maskedwhen=True)] = -1
+        out = self.numpy.full(len(self), -1, dtype=self.INDEXTYPE)
+        mask = self.boolmask(maskedwhen=False)
+        out[mask] = self._util_counts(self._content)[self._mask[mask]]
         return out
 
     def flatten(self, axis=0):
@@ -859,8 +860,10 @@ class IndexedMaskedArray(MaskedArray):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)[self._index]
-        out[self.boolmask(maskedwhen=True)] = float("nan")
+        content = self._util_regular(self._content)
+        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"), dtype=self.numpy.float64)
+        mask = self.boolmask(maskedwhen=False)
+        out[mask] = content[self._mask[mask]]
         return out
 
     def indexed(self):
-- 
2.43.0


From 201e635f25c814412f5b0aa916f5eab10cde3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 026/103] fix: flatten, ufuncs and fillna of a MaskedArray
 whose content is longer than its mask

---
 awkward0/array/masked.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 8348ef3..0c10962 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -226,7 +226,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], IndexedMaskedArray):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
-                inputs[i] = inputs[i]._content[tokeep]
+                inputs[i] = inputs[i]._content[:len(inputs[i])][tokeep]
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 inputs[i] = inputs[i][tokeep]
             else:
@@ -290,7 +290,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[mask]
+        goodcontent = self._content[:len(self)][mask]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -399,7 +399,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return unmasked[self._content[unmasked].argmax()]
 
     def fillna(self, value):
-        out = self._util_fillna(self._content, value)
+        out = self._util_fillna(self._content[:len(self)], value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
         out[self.boolmask(maskedwhen=True)] = value
@@ -846,7 +846,7 @@ class IndexedMaskedArray(MaskedArray):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[self._mask[self._mask >= 0]]
+        goodcontent = self._content[self._mask[mask]]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
-- 
2.43.0


From feb55f60560dd62af08b6c5230df3ce3ee2078e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 027/103] fix: concatenate of IndexedMaskedArrays (missing
 attribute)

---
 awkward0/array/masked.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 0c10962..d5357c7 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -935,12 +935,10 @@ class IndexedMaskedArray(MaskedArray):
         indexes = []
         offset = 0
         for x in arrays:
-            tmp = x._index.copy()
-            tmp[tmp >= 0] += offset
-            indexes.append(tmp)
+            indexes.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, x._mask + offset))
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
         content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays], axis=0)
 
-        return cls(index, content, maskedwhen=maskedwhen)
+        return cls(index, content, maskedwhen=-1)
-- 
2.43.0


From bd3f60dd0cd65c159334c01fa1b9664e6d6392e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 028/103] fix: ChunkedArray copies with new chunks kept stale
 offsets

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 15b5e5d..18da6d4 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -25,6 +25,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if chunks is not None:
             out.chunks = chunks
             out._chunksizes = []
+            out._offsets = None
         if chunksizes is not None:
             out.chunksizes = chunksizes
         return out
-- 
2.43.0


From aa0f5b006c8c6f1545a3c395c0ab3f4cecca45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 029/103] fix: SparseArray indexing with out-of-range ints,
 negative fancy indexes, sparse masks and no explicit items

---
 awkward0/array/indexed.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6d844ba..828508e 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -524,7 +524,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if head < 0:
                 head += self._length
             if not 0 <= head < self._length:
-                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, length))
+                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, self._length))
 
             match = self.numpy.searchsorted(self._index, head, side="left")
 
@@ -560,7 +560,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 mask[remainder != 0] = False
 
             index = index[mask]
-            content = self._content[mask]
+            content = self._content[:len(mask)][mask]
             if step < 0:
                 index = index[::-1]
                 content = content[::-1]
@@ -572,23 +572,15 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._length != head._length:
                 raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(self._length, head._length))
 
-            # the new index is a cumsum (starting at zero) of the boolean values
-            index = self.numpy.cumsum(head._content)
-            length = index[-1]
-            index[1:] = index[:-1]
-            index[0] = 0
+            mask = head.dense
+            where = self.numpy.cumsum(mask) - 1       # new position of each item that passes the mask
+            keep = mask[self._index]
 
-            # find my sparse elements in the mask's sparse elements
-            match1 = self.numpy.searchsorted(head._index, self._index, side="left")
-            match1[match1 >= len(head._index)] = len(head._index) - 1
-            content = self._content[self.numpy.logical_and(head._index[match1] == self._index, head._content[match1])]
+            length = self.numpy.count_nonzero(mask)
+            index = where[self._index[keep]]
+            content = self._content[:len(keep)][keep]
 
-            # find the mask's sparse elements in my sparse elements
-            match2 = self.numpy.searchsorted(self._index, head._index, side="left")
-            match2[match2 >= len(head._index)] = len(head._index) - 1
-            index = index[self.numpy.logical_and(self._index[match2] == head._index, head._content)]
-
-            return self.copy(length=length, index=index, content=content)
+            return self.copy(length=length, index=index, content=content)[tail]
 
         else:
             head = self._util_toarray(head, self.INDEXTYPE)
@@ -601,7 +593,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 mask = (head < 0)
                 if mask.any():
-                    head[mask] += self._length
+                    head = self.numpy.where(mask, head + self._length, head)
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
@@ -609,8 +601,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                     return self._content[head][tail]
 
                 match = self.numpy.searchsorted(self._index, head, side="left")
-                match[match >= len(self._index)] = len(self._index) - 1
-                explicit = (self._index[match] == head)
+                explicit = (match < len(self._index))
+                explicit[explicit] = (self._index[match[explicit]] == head[explicit])
 
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
-- 
2.43.0


From 3b65a7589f84b058083553dc11167e71c9559593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 030/103] fix: SparseArray empty_like, zeros_like and ones_like

---
 awkward0/array/indexed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 828508e..6ad834d 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -351,8 +351,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def empty_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.empty_like(self._content), **mine)
         else:
@@ -360,8 +360,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def zeros_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.zeros_like(self._content), **mine)
         else:
@@ -369,8 +369,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def ones_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.ones_like(self._content), **mine)
         else:
-- 
2.43.0


From 15cbc24169f7e634209c75cce84501bd32e75f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 031/103] fix: SparseArray boolmask, counts, flatten, pad and
 regular

---
 awkward0/array/indexed.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6ad834d..6426a61 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -434,7 +434,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._default is None:
             if isinstance(self._content, awkward0.array.jagged.JaggedArray):
-                return self.JaggedArray([0], [0], self._content.content)
+                return self._content.content[0:0]
             elif self._content.shape[1:] == ():
                 return self._content.dtype.type(0)
             else:
@@ -641,7 +641,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if len(self._index) == 0:
-            return self.numpy.empty(0, dtype=self.numpy.bool_)
+            return self.numpy.full(self._length, not maskedwhen, dtype=self.numpy.bool_)
 
         if maskedwhen:
             return self._index[self._getinverse()] == self.numpy.arange(self._length, dtype=self.INDEXTYPE)
@@ -698,7 +698,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             defaultlen = len(self.default)
         except:
             defaultlen = -1
-        out = self.numpy.full(self.shape, defaultlen, dtype=content.dtype)
+        out = self.numpy.full(self._length, defaultlen, dtype=content.dtype)
         if len(self._index) != 0:
             mask = self.boolmask(maskedwhen=True)
             out[mask] = content[self._inverse[mask]]
@@ -709,25 +709,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         return self.copy(content=self._util_flattentuple(self._content))
 
     def flatten(self, axis=0):
-        self._valid()
-        out = self._util_flatten(self._content, axis)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_flatten(self.dense, axis)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self._util_pad(self._content.dense, length, maskedwhen, clip, axis)
+        return self._util_pad(self.dense, length, maskedwhen, clip, axis)
 
     def regular(self):
-        self._valid()
-        content = self._util_regular(self._content)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_regular(self.dense)
 
     def _reduce(self, ufunc, identity, dtype):
         if self._util_hasjagged(self._content):
-- 
2.43.0


From 0252e2e3912b24297b20e97d9833324366272d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 032/103] fix: ChunkedArray of records or masked items with an
 unsorted fancy index, TableType.isnumpy looked only at its first field

---
 awkward0/array/chunked.py | 8 +++++++-
 awkward0/type.py          | 9 ++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 18da6d4..bd2857f 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -463,7 +463,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         chunks.append(self._chunks[cid][(localindex,) + tail])
                     return self.copy(chunks=chunks)
 
-                elif self._util_isnumpy(self.type):
+                elif self._util_isnumpy(self.type) and not self._hasrecordormask():
                     out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
                     self.knowchunksizes(chunkid.max() + 1)
                     offsets = self.offsets
@@ -503,6 +503,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _hasrecordormask(self):
+        to = self.type.to
+        while isinstance(to, awkward0.type.ArrayType):
+            to = to.to
+        return isinstance(to, (awkward0.type.TableType, awkward0.type.OptionType))
+
     def _aligned(self, what):
         self.knowchunksizes()
         what.knowchunksizes()
diff --git a/awkward0/type.py b/awkward0/type.py
index db743fb..19fa14c 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -376,12 +376,11 @@ class TableType(Type):
             return False
         seen.add(id(self))
         for x in self._fields.values():
-            if isinstance(x, numpy.dtype):
-                return True
-            elif isinstance(x, Type) and not isinstance(x, OptionType) and x._isnumpy(seen):
-                return x.shape != ()
-            else:
+            if isinstance(x, Type) and (isinstance(x, OptionType) or not x._isnumpy(seen)):
+                return False
+            elif not isinstance(x, (Type, numpy.dtype)) or x.shape != ():
                 return False
+        return True
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
-- 
2.43.0


From d6257a4c0c1bbd25bacea8b91412386448cfa6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 033/103] fix: ChunkedArray to Numpy with empty, nested or
 partly filled chunks

---
 awkward0/array/chunked.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index bd2857f..d6ccd50 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -294,14 +294,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __array__(self, *args, **kwargs):
         self._checktonumpy()
 
-        if isinstance(self.type.to, self.numpy.dtype):
-            if len(self) == 0:
-                return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
-            else:
-                out = self.numpy.empty(self.shape, dtype=self.dtype)
-                for chunk, slc in zip(self._chunks, self._slices()):
-                    out[slc] = chunk
-                return out
+        if self._util_isnumpy(self.type) and not self._hasrecordormask():
+            out = self.numpy.empty(self.type.shape, dtype=self.type.dtype)
+            for chunk, slc in zip(self._chunks, self._slices()):
+                if slc.stop > slc.start:
+                    out[slc] = chunk[:slc.stop - slc.start]
+            return out
         else:
             return super(ChunkedArray, self).__array__(*args, **kwargs)
 
-- 
2.43.0


From 548b2e9406609eac0373ed58ed31c49e760fa971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 034/103] fix: fromiter with dictencoding dropped trailing null
 characters

---
 awkward0/generate.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 890e979..1e747e8 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -138,6 +138,13 @@ class SimpleFillable(Fillable):
         else:
             return UnionFillable(self, self.awkwardlib).append(obj, tpe)
 
+    def dictencode(self):
+        # not numpy.unique, which would drop the trailing null characters of strings
+        dictionary = sorted(set(self.data))
+        lookup = {x: i for i, x in enumerate(dictionary)}
+        index = self.awkwardlib.numpy.array([lookup[x] for x in self.data], dtype=self.awkwardlib.IndexedArray.INDEXTYPE)
+        return dictionary, index
+
 class BoolFillable(SimpleFillable):
     def finalize(self, **options):
         return self.awkwardlib.numpy.array(self.data, dtype=self.awkwardlib.JaggedArray.BOOLTYPE)
@@ -150,7 +157,7 @@ class BytesFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.dictencode()
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding=None))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding=None)
@@ -159,7 +166,7 @@ class StringFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.dictencode()
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding="utf-8"))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding="utf-8")
-- 
2.43.0


From 20b56ff45aa4ea4a06d0ee5c0563c940b097f1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 035/103] fix: JaggedArray indexing with arrays, masks or
 nested jagged arrays in inner dimensions

---
 awkward0/array/jagged.py | 107 ++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 64 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3b0085f..9acacf9 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -536,7 +536,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             head = head[0]
 
             if isinstance(self._content, JaggedArray) and isinstance(head._content, JaggedArray):
-                return self.copy(content=self._content[head._content])
+                if not self.numpy.array_equal(self.counts, head.counts):
+                    raise ValueError("jagged array used as index has different counts from the jagged array it is selecting from")
+                offsets = self.counts2offsets(self.counts.reshape(-1))
+                starts, stops = offsets[:-1].reshape(self._starts.shape), offsets[1:].reshape(self._starts.shape)
+                return self.copy(starts=starts, stops=stops, content=self.flatten()[head.flatten()])
 
             elif self._util_isintegertype(head._content.dtype.type):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
@@ -607,8 +611,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         head = head[-1]
 
         nslices = 0
+        hasarray = not isinstance(head, slice)    # arrays iterate together with any previous arrays
         while isinstance(node, JaggedArray) and len(tail) > 0:
-            wasslice = isinstance(head, slice)
             head, tail = tail[0], tail[1:]
 
             original_head = head
@@ -708,78 +712,53 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
             else:
                 head = self.numpy.array(head, copy=False)
-                if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
-                    if wasslice:
-                        stack = []
-                        for x in range(nslices):
-                            stack.insert(0, node.counts)
-                            node = node.flatten()
-
-                        index = self.numpy.tile(head, len(node))
-                        mask = (index < 0)
-                        if mask.any():
-                            pluscounts = (index.reshape(-1, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
-                            index[mask] = pluscounts[mask]
-                        if (index < 0).any() or (index.reshape(-1, len(head)) >= node.counts.reshape(-1, 1)).any():
-                            raise IndexError("index in jagged subdimension is out of bounds")
-                        index = (index.reshape(-1, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
-                        node = node._content[index]
-                        if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
-                        elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
-                        else:
-                            raise NotImplementedError
-
-                        for oldcounts in stack:
-                            node = type(self).fromcounts(oldcounts, node)
+                ismask = issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_))
+                if len(head.shape) != 1 or not (ismask or self._util_isintegertype(head.dtype.type)):
+                    raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
-                    else:
-                        if len(node) != len(head):
-                            raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(len(node), len(head)))
-                        index = head.copy() if head is original_head else head
-                        mask = (index < 0)
-                        if mask.any():
-                            index[mask] += head.counts
-                        if (index < 0).any() or (index >= node.counts).any():
+                masklength = len(head)
+                if ismask:
+                    index = self.numpy.nonzero(head)[0]
+                else:
+                    index = head.astype(self.INDEXTYPE)
+
+                if not hasarray:
+                    stack = []
+                    for x in range(nslices):
+                        stack.insert(0, node.counts)
+                        node = node.flatten()
+
+                    if isinstance(node, JaggedArray):
+                        if ismask and not (node.counts == masklength).all():
+                            raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(masklength))
+                        counts = node.counts.reshape(-1, 1)
+                        index = self.numpy.where(index < 0, index + counts, index)
+                        if (index < 0).any() or (index >= counts).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
-                        index += node._starts
-                        node = node._content[index]
-
-                elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
-                    if wasslice:
-                        stack = []
-                        for x in range(nslices):
-                            stack.insert(0, node.counts)
-                            node = node.flatten()
-
-                        if len(node) != 0 and not (node.counts == len(head)).all():
-                            raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(len(head)))
-                        head = self.numpy.nonzero(head)[0]
-                        index = self.numpy.tile(head, len(node))
-                        index = (index.reshape(-1, len(node)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        shape = index.shape
+                        index = (index + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node._starts, node._stops = node._starts.reshape(shape), node.stops.reshape(shape)
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape(shape + node.shape[1:])
                         else:
                             raise NotImplementedError
-
-                        for oldcounts in stack:
-                            node = type(self).fromcounts(oldcounts, node)
-
                     else:
-                        index = self.numpy.nonzero(head)[0]
-                        if len(node) != len(index):
-                            raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(len(node), len(index)))
-                        index += node._starts
-                        node = node._content[index]
+                        node = node[:, head]
+
+                    for oldcounts in stack:
+                        node = type(self).fromcounts(oldcounts, node)
 
                 else:
-                    raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
+                    if len(node) != len(index):
+                        raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(len(node), len(index)))
+                    index = self.numpy.where(index < 0, index + node.counts, index)
+                    if (index < 0).any() or (index >= node.counts).any():
+                        raise IndexError("index in jagged subdimension is out of bounds")
+                    node = node._content[index + node._starts]
+
+                hasarray = True
 
             if isinstance(node, self.numpy.ndarray) and len(node.shape) < sum(0 if isinstance(x, slice) else 1 for x in tail):
                 raise IndexError("IndexError: too many indices for array")
-- 
2.43.0


From 3135983cda95316071d7588516d21686201b2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 036/103] fix: JaggedArray masks, slices and multidimensional
 selections with gaps, empty or shaped starts

---
 awkward0/array/jagged.py | 131 ++++++++++++++++-----------------------
 1 file changed, 55 insertions(+), 76 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 9acacf9..2bf4d82 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -563,39 +563,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
                 return self.copy(starts=head._starts, stops=head._stops, content=self._content[indexes])
 
-            elif len(head.shape) == 1 and issubclass(head._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
-                try:
-                    offsets = self.offsets
-                    thyself = self
-
-                except ValueError:
-                    offsets = self.counts2offsets(self.counts.reshape(-1))
-                    thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
-                    thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._starts.shape
-
-                head = head._tojagged(thyself._starts, thyself.stops, copy=False)
-                inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
-                intheadsum = inthead.sum()
-
-                offsets = self.counts2offsets(intheadsum)
-
-                headcontent = self.numpy.array(head._content, dtype=self.BOOLTYPE)
-
-                headcontent_indices_to_ignore = self.numpy.resize(head.parents < 0, headcontent.shape)
-                headcontent_indices_to_ignore[len(head.parents):] = True
-                headcontent[headcontent_indices_to_ignore] = False
-
-                original_headcontent_length = len(headcontent)
-                headcontent = self.numpy.resize(headcontent, thyself._content.shape)
-                headcontent[original_headcontent_length:] = False
-
-                return self.copy(starts=offsets[:-1].reshape(intheadsum.shape), stops=offsets[1:].reshape(intheadsum.shape), content=thyself._content[headcontent])
-
-            elif head.shape == self.shape and issubclass(head._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
-                index = self.localindex + self.starts
-                flatindex = index.flatten()[head.flatten()]
-                return type(self).fromcounts(head.sum(), self._content[flatindex])
+            elif issubclass(head._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
+                if not self.numpy.array_equal(self.counts, head.counts):
+                    raise ValueError("jagged array used as mask has different counts from the jagged array it is selecting from")
+                flathead = self.numpy.array(head.flatten(), dtype=self.BOOLTYPE)
+                parents = self.numpy.repeat(self.numpy.arange(self.counts.size), self.counts.reshape(-1))
+                counts = self.numpy.bincount(parents[flathead], minlength=self.counts.size)
+                offsets = self.counts2offsets(counts)
+                starts, stops = offsets[:-1].reshape(self._starts.shape), offsets[1:].reshape(self._starts.shape)
+                return self.copy(starts=starts, stops=stops, content=self.flatten()[flathead])
 
             else:
                 raise TypeError("jagged index must be boolean (mask) or integer (fancy indexing)")
@@ -628,7 +604,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         head = counts + head
                     if not self.numpy.bitwise_and(0 <= head, head < counts).all():
                         raise IndexError("index {0} is out of bounds for jagged min size {1}".format(original_head, counts.min()))
-                    node = node._content[node._starts + head]
+                    node = self._getitem_shaped(node._content, node._starts + head)
                 else:
                     node = node[:, head]
 
@@ -641,10 +617,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     raise NotImplementedError("this implementation cannot slice a JaggedArray in more than two dimensions")
 
                 # If we sliced down to an empty jagged array, take a shortcut
-                if len(node) == 0:
+                if node._starts.size == 0:
                     return node
 
-                counts = node.stops - node._starts
+                shape = node._starts.shape
+                counts = (node.stops - node._starts).reshape(-1)
                 step = 1 if head.step is None else head.step
 
                 if step == 0:
@@ -669,13 +646,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
                     start = starts.min()
                     stop = stops.max()
-                    indexes = self.numpy.empty((len(node), abs(stop - start)), dtype=self.INDEXTYPE)
+                    indexes = self.numpy.empty((len(counts), abs(stop - start)), dtype=self.INDEXTYPE)
                     indexes[:, :] = self.numpy.arange(start, stop)
 
-                    mask = indexes >= starts.reshape((len(node), 1))
-                    self.numpy.bitwise_and(mask, indexes < stops.reshape((len(node), 1)), out=mask)
+                    mask = indexes >= starts.reshape(-1, 1)
+                    self.numpy.bitwise_and(mask, indexes < stops.reshape(-1, 1), out=mask)
                     if step != 1:
-                        self.numpy.bitwise_and(mask, self.numpy.remainder(indexes - starts.reshape((len(node), 1)), step) == 0, out=mask)
+                        self.numpy.bitwise_and(mask, self.numpy.remainder(indexes - starts.reshape(-1, 1), step) == 0, out=mask)
 
                 else:
                     if head.start is None:
@@ -696,19 +673,19 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
                     start = starts.max()
                     stop = stops.min()
-                    indexes = self.numpy.empty((len(node), abs(stop - start)), dtype=self.INDEXTYPE)
+                    indexes = self.numpy.empty((len(counts), abs(stop - start)), dtype=self.INDEXTYPE)
                     indexes[:, :] = self.numpy.arange(start, stop, -1)
 
-                    mask = indexes <= starts.reshape((len(node), 1))
-                    self.numpy.bitwise_and(mask, indexes > stops.reshape((len(node), 1)), out=mask)
+                    mask = indexes <= starts.reshape(-1, 1)
+                    self.numpy.bitwise_and(mask, indexes > stops.reshape(-1, 1), out=mask)
                     if step != -1:
-                        self.numpy.bitwise_and(mask, self.numpy.remainder(indexes - starts.reshape((len(node), 1)), step) == 0, out=mask)
+                        self.numpy.bitwise_and(mask, self.numpy.remainder(indexes - starts.reshape(-1, 1), step) == 0, out=mask)
 
                 newcounts = self.numpy.count_nonzero(mask, axis=1)
                 newoffsets = self.counts2offsets(newcounts.reshape(-1))
-                newcontent = node._content[(indexes + node._starts.reshape((len(node), 1)))[mask]]
+                newcontent = node._content[(indexes + node._starts.reshape(-1, 1))[mask]]
 
-                node = node.copy(starts=newoffsets[:-1], stops=newoffsets[1:], content=newcontent)
+                node = node.copy(starts=newoffsets[:-1].reshape(shape), stops=newoffsets[1:].reshape(shape), content=newcontent)
 
             else:
                 head = self.numpy.array(head, copy=False)
@@ -722,41 +699,31 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 else:
                     index = head.astype(self.INDEXTYPE)
 
-                if not hasarray:
-                    stack = []
-                    for x in range(nslices):
-                        stack.insert(0, node.counts)
-                        node = node.flatten()
-
-                    if isinstance(node, JaggedArray):
-                        if ismask and not (node.counts == masklength).all():
-                            raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(masklength))
-                        counts = node.counts.reshape(-1, 1)
-                        index = self.numpy.where(index < 0, index + counts, index)
-                        if (index < 0).any() or (index >= counts).any():
-                            raise IndexError("index in jagged subdimension is out of bounds")
-                        shape = index.shape
-                        index = (index + node._starts.reshape(-1, 1)).reshape(-1)
-                        node = node._content[index]
-                        if isinstance(node, JaggedArray):
-                            node._starts, node._stops = node._starts.reshape(shape), node.stops.reshape(shape)
-                        elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(shape + node.shape[1:])
-                        else:
-                            raise NotImplementedError
-                    else:
-                        node = node[:, head]
-
-                    for oldcounts in stack:
-                        node = type(self).fromcounts(oldcounts, node)
+                stack = []
+                for x in range(nslices):
+                    stack.insert(0, node.counts)
+                    node = node.flatten()
 
+                if not isinstance(node, JaggedArray):
+                    node = node[:, head]
+                elif not hasarray:
+                    if ismask and not (node.counts == masklength).all():
+                        raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(masklength))
+                    index, counts = self.numpy.broadcast_arrays(index, node.counts.reshape(node._starts.shape + (1,)))
+                    index = self.numpy.where(index < 0, index + counts, index)
+                    if (index < 0).any() or (index >= counts).any():
+                        raise IndexError("index in jagged subdimension is out of bounds")
+                    node = self._getitem_shaped(node._content, index + node._starts.reshape(node._starts.shape + (1,)))
                 else:
-                    if len(node) != len(index):
-                        raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(len(node), len(index)))
+                    if node._starts.shape[-1] != len(index):
+                        raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(node._starts.shape[-1], len(index)))
                     index = self.numpy.where(index < 0, index + node.counts, index)
                     if (index < 0).any() or (index >= node.counts).any():
                         raise IndexError("index in jagged subdimension is out of bounds")
-                    node = node._content[index + node._starts]
+                    node = self._getitem_shaped(node._content, index + node._starts)
+
+                for oldcounts in stack:
+                    node = type(self).fromcounts(oldcounts, node)
 
                 hasarray = True
 
@@ -765,6 +732,18 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         return node[tail]
 
+    @classmethod
+    def _getitem_shaped(cls, content, index):
+        if len(index.shape) == 1:
+            return content[index]
+        out = content[index.reshape(-1)]
+        if isinstance(out, JaggedArray) and len(out._starts.shape) == 1:
+            return out.copy(starts=out._starts.reshape(index.shape), stops=out.stops.reshape(index.shape))
+        elif isinstance(out, cls.numpy.ndarray):
+            return out.reshape(index.shape + out.shape[1:])
+        else:
+            raise NotImplementedError("selecting from {0} with a {1}-dimensional index".format(type(content), len(index.shape)))
+
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
             self._content[where] = self.tojagged(what)._content
-- 
2.43.0


From c14cb9abc5bb2a2816aabd9fb237adebc9769767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 037/103] fix: flatten of JaggedArray with shaped starts taken
 from one offsets array

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 2bf4d82..3dc760c 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1374,10 +1374,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return type(self).fromcounts(counts, self._util_flatten(self._content, axis - 1))
 
         else:
-            if len(self) == 0:
+            if self._starts.size == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self.stops[-1]]
+                return self._content[self._starts.reshape(-1)[0]:self.stops.reshape(-1)[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
-- 
2.43.0


From d42fc97c0f1a3f2e1678e5c47a56b0bea27e3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 038/103] fix: empty Table views with a negative step selected
 the whole column

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 075c03c..e9dbdaf 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -460,6 +460,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         elif isinstance(self._view, tuple):
             start, step, length = self._view
+            if length == 0:
+                return slice(0, 0)
             stop = start + step*length
             if stop < 0:
                 stop = None
-- 
2.43.0


From 7ce91a24c8e0f6a3caa08cef7489c64922b2d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 039/103] fix: Table modified a negative fancy index in place

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index e9dbdaf..91e4a5f 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -529,7 +529,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 length = self._length()
                 negative = (head < 0)
                 if negative.any():
-                    head[negative] += length
+                    head = self.numpy.where(negative, head + length, head)
                 if not self.numpy.bitwise_and(0 <= head, head < length).all():
                     raise IndexError("some indexes out of bounds for length {0}".format(length))
 
-- 
2.43.0


From bcd62270f62f9d235fe192e7f464224dcf80e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 040/103] fix: JaggedArray with empty lists beyond the end of
 the content was rejected after its offsets were computed

---
 awkward0/array/jagged.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3dc760c..cb9c30a 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -473,7 +473,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if self.check_whole_valid:
                     if not (self._offsets[1:] >= self._offsets[:-1]).all():
                         raise ValueError("offsets must be monatonically increasing")
-                    if self._offsets.max() > len(self._content):
+                    nonempty = (self._offsets[1:] != self._offsets[:-1])
+                    if nonempty.any() and self._offsets[1:][nonempty].max() > len(self._content):
                         raise ValueError("maximum offset {0} is beyond the length of the content ({1})".format(self._offsets.max(), len(self._content)))
 
             else:
-- 
2.43.0


From 5cfe75edfce569531984abd7b198b228e3476289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 041/103] fix: element-wise operations of records, chunks,
 unions and masked arrays with other layouts, scalars of Numpy and empty
 operands

---
 awkward0/array/base.py    | 16 ++++++++++++++++
 awkward0/array/chunked.py | 33 ++++++++++++++++++++++++---------
 awkward0/array/jagged.py  | 15 +++++++++++++++
 awkward0/array/masked.py  | 12 +++---------
 awkward0/array/table.py   | 29 ++++++++++++++++++++---------
 awkward0/array/union.py   |  6 +++++-
 6 files changed, 83 insertions(+), 28 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 4e2e440..ba9cea1 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -632,6 +632,22 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return True
 
+    @classmethod
+    def _util_ufuncinputs(cls, inputs, length):
+        # scalars stay scalars (also 0-dimensional arrays) and everything else must have the given length
+        out = []
+        for x in inputs:
+            if isinstance(x, (list, tuple)):
+                x = cls.numpy.array(x, copy=False)
+            if isinstance(x, cls.numpy.ndarray) and len(x.shape) == 0:
+                x = x[()]
+            elif isinstance(x, cls.numpy.ndarray) and len(x) == 1 and length != 1:
+                x = x[0]
+            if isinstance(x, (cls.numpy.ndarray, AwkwardArray)) and len(x) != length:
+                raise ValueError("operands could not be broadcast together with lengths {0} and {1}".format(length, len(x)))
+            out.append(x)
+        return out
+
     @classmethod
     def _util_iscomparison(cls, ufunc):
         return (ufunc is cls.numpy.less or
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index d6ccd50..0c666c0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -531,6 +531,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
 
+    def _emptychunk(self):
+        if len(self._chunks) == 0:
+            return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
+        else:
+            return self._chunks[0][0:0]
+
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
@@ -539,26 +545,21 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             return NotImplemented
 
         first = None
-        rest = []
         for x in inputs:
             if isinstance(x, ChunkedArray):
                 x._valid()
                 if first is None:
                     first = x
-                else:
-                    rest.append(x)
 
         assert first is not None
-        if not all(first._aligned(x) for x in rest):
-            # FIXME: we may need to handle a more general case if ChunkedArrays are inside other Awkward types
-            # perhaps split at the largest possible slices such that all of them are one chunk each, and then unpack the single chunk after slicing
-            raise ValueError("ChunkedArrays can only be combined if they have the same chunk sizes")
+        inputs = self._util_ufuncinputs(inputs, len(first))
+        aligned = [isinstance(x, ChunkedArray) and first._aligned(x) for x in inputs]
 
         batches = []
         for i, slc in enumerate(first._slices()):
             batch = []
-            for x in inputs:
-                if isinstance(x, ChunkedArray):
+            for x, isaligned in zip(inputs, aligned):
+                if isaligned:
                     batch.append(x._chunks[i][:x._chunksizes[i]])     # an AppendableArray's last chunk may be only partly filled
                 elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                     batch.append(x[slc])
@@ -566,6 +567,17 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     batch.append(x)
             batches.append(batch)
 
+        if len(batches) == 0:
+            batch = []
+            for x in inputs:
+                if isinstance(x, ChunkedArray):
+                    batch.append(x._emptychunk())
+                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                    batch.append(x[0:0])
+                else:
+                    batch.append(x)
+            batches.append(batch)
+
         out = None
         chunks = {}
         types = {}
@@ -856,6 +868,9 @@ class AppendableArray(ChunkedArray):
         mine["dtype"] = overrides.pop("dtype", self._dtype)
         return mine
 
+    def _emptychunk(self):
+        return self.numpy.empty((0,) + self._chunkshape[1:], dtype=self._dtype)
+
     def __awkward_serialize__(self, serializer):
         self._valid()
 
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index cb9c30a..0041bc8 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -878,6 +878,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self.stops or self.numpy.array_equal(stops, self.stops)):
             return self.copy(starts=starts, stops=stops, content=(self._util_deepcopy(self._content) if copy else self._content))
 
+        elif len(self._content) == 0:
+            return self.copy(starts=starts, stops=stops)
+
         else:
             if self.offsetsaliased(starts, stops):
                 parents = self.offsets2parents(starts.base)
@@ -901,6 +904,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        import awkward0.array.chunked
+        import awkward0.array.indexed
+        import awkward0.array.masked
+        import awkward0.array.union
+        import awkward0.array.virtual
         import awkward0.array.objects
         import awkward0.array.table
 
@@ -910,6 +918,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        for x in inputs:
+            if isinstance(x, (awkward0.array.virtual.VirtualArray, awkward0.array.indexed.IndexedArray, awkward0.array.indexed.SparseArray, awkward0.array.chunked.ChunkedArray, awkward0.array.union.UnionArray, awkward0.array.masked.MaskedArray)):
+                return x.__array_ufunc__(ufunc, method, *inputs, **kwargs)
+
         starts, stops = None, None
         for i in range(len(inputs)):
             if isinstance(inputs[i], JaggedArray):
@@ -931,6 +943,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], JaggedArray):
                 inputs[i] = inputs[i]._tojagged(starts, stops, copy=False)
 
+            elif isinstance(inputs[i], self.numpy.ndarray) and len(inputs[i].shape) == 0:
+                inputs[i] = inputs[i][()]
+
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 pass
 
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index d5357c7..cb832a9 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -216,12 +216,14 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 x._valid()
                 if tokeep is None:
                     tokeep = x.boolmask(maskedwhen=False)
+                elif len(tokeep) != len(x):
+                    raise ValueError("operands could not be broadcast together with lengths {0} and {1}".format(len(tokeep), len(x)))
                 else:
                     tokeep = tokeep & x.boolmask(maskedwhen=False)
 
         assert tokeep is not None
 
-        inputs = list(inputs)
+        inputs = self._util_ufuncinputs(inputs, len(tokeep))
         for i in range(len(inputs)):
             if isinstance(inputs[i], IndexedMaskedArray):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
@@ -229,14 +231,6 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 inputs[i] = inputs[i]._content[:len(inputs[i])][tokeep]
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 inputs[i] = inputs[i][tokeep]
-            else:
-                try:
-                    for first in inputs[i]:
-                        break
-                except TypeError:
-                    pass
-                else:
-                    inputs[i] = self.numpy.array(inputs[i], copy=False)[tokeep]
 
         # compute only the non-masked elements
         result = getattr(ufunc, method)(*inputs, **kwargs)
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 91e4a5f..7b627d9 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -674,6 +674,16 @@ class Table(awkward0.array.base.AwkwardArray):
         if method != "__call__":
             return NotImplemented
 
+        import awkward0.array.chunked
+        import awkward0.array.indexed
+        import awkward0.array.masked
+        import awkward0.array.union
+        import awkward0.array.virtual
+
+        for x in inputs:
+            if isinstance(x, (awkward0.array.virtual.VirtualArray, awkward0.array.indexed.IndexedArray, awkward0.array.chunked.ChunkedArray, awkward0.array.union.UnionArray, awkward0.array.masked.MaskedArray)):
+                return x.__array_ufunc__(ufunc, method, *inputs, **kwargs)
+
         inputsdict = None
         for x in inputs:
             if isinstance(x, Table):
@@ -700,12 +710,10 @@ class Table(awkward0.array.base.AwkwardArray):
         for n, x in inputsdict.items():
             newcolumns[n] = getattr(ufunc, method)(*x, **kwargs)
 
+            thislen = len(newcolumns[n]) if isinstance(newcolumns[n], tuple) else False
             if tuplelen is None:
-                if isinstance(x, tuple):
-                    tuplelen = len(x)
-                else:
-                    tuplelen = False
-            elif isinstance(x, tuple) != tuplelen:
+                tuplelen = thislen
+            elif tuplelen != thislen:
                 raise AssertionError("ufuncs return tuples of different lengths or some tuples and some non-tuples")
 
         assert len(newcolumns) != 0
@@ -714,12 +722,15 @@ class Table(awkward0.array.base.AwkwardArray):
         if self._util_iscomparison(ufunc):
             out = None
             for x in newcolumns.values():
-                assert isinstance(x, self.numpy.ndarray)
-                assert issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool))
+                x = self.numpy.array(x, dtype=(self.BOOLTYPE if len(x) == 0 else None), copy=False)
+                if not issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)) or len(x.shape) != 1:
+                    raise TypeError("records can only be compared if all of their columns are flat and have no missing values")
                 if out is None:
                     out = x
+                elif ufunc is self.numpy.not_equal:
+                    out = self.numpy.bitwise_or(out, x)
                 else:
-                    out = self.numpy.bitwise_and(out, x, out=out)
+                    out = self.numpy.bitwise_and(out, x)
             assert out is not None
             return out
 
@@ -736,7 +747,7 @@ class Table(awkward0.array.base.AwkwardArray):
             out = [table.empty_like() for i in range(tuplelen)]
             for n in inputsdict:
                 for i in range(tuplelen):
-                    out[i][n] = newcolumns[n]
+                    out[i][n] = newcolumns[n][i]
             return tuple(out)
 
     @property
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9a47d67..14b8130 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -373,6 +373,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if any(x.shape != tags[0].shape for x in tags[1:]):
             raise ValueError("cannot {0} UnionArrays because tag shapes differ".format(ufunc))
 
+        inputs = self._util_ufuncinputs(inputs, len(tags[0]))
+        if len(tags[0]) == 0:
+            return getattr(ufunc, method)(*[x._contents[0][0:0] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+
         combos = self.numpy.stack(tags, axis=-1).view([(str(i), x.dtype) for i, x in enumerate(tags)]).reshape(tags[0].shape)
 
         outtags = self.numpy.empty(tags[0].shape, dtype=self.TAGTYPE)
@@ -386,7 +390,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             outtags[mask] = outtag
             outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
 
-            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) else x for x in inputs], **kwargs)
 
             if isinstance(result, tuple):
                 if out is None:
-- 
2.43.0


From 9df0fdd4d03d233e23ddf0fa7ae7a34b4145cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 042/103] fix: unsorted fancy index of a ChunkedArray was an
 IndexedArray that could not be operated on

---
 awkward0/array/chunked.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 0c666c0..61bebf4 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -449,11 +449,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
                 diff = (chunkid[1:] - chunkid[:-1])
-                if (diff >= 0).all():
+                if (diff >= 0).all() or not self._util_isnumpy(self.type) or self._hasrecordormask():
                     diff2 = self.numpy.empty(len(chunkid), dtype=self.INDEXTYPE)
                     diff2[0] = 1
                     diff2[1:] = diff
-                    mask = (diff2 > 0)
+                    mask = (diff2 != 0)
                     offsets = list(self.numpy.nonzero(mask)[0]) + [len(chunkid)]
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
@@ -461,7 +461,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         chunks.append(self._chunks[cid][(localindex,) + tail])
                     return self.copy(chunks=chunks)
 
-                elif self._util_isnumpy(self.type) and not self._hasrecordormask():
+                else:
                     out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
                     self.knowchunksizes(chunkid.max() + 1)
                     offsets = self.offsets
@@ -475,12 +475,6 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     else:
                         return out[(slice(None),) + tail]
 
-                elif tail == ():
-                    return self.IndexedArray(head, self)
-
-                else:
-                    raise NotImplementedError
-
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
                     raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
-- 
2.43.0


From 6257e0815e01118a78739077ef6aede8e3ad2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 043/103] fix: reducers of masked, indexed, chunked, union and
 record arrays, and of views, empty and custom reductions

---
 awkward0/array/base.py    |  98 ++++++++++++++++++++++++++++--------
 awkward0/array/chunked.py |  53 ++++++++------------
 awkward0/array/indexed.py |  40 ++-------------
 awkward0/array/jagged.py  |  90 ++++++---------------------------
 awkward0/array/masked.py  | 102 +++++---------------------------------
 awkward0/array/table.py   |  66 ++++++++++++++----------
 awkward0/array/union.py   |  36 ++++----------
 awkward0/array/virtual.py |  11 +---
 8 files changed, 181 insertions(+), 315 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index ba9cea1..1426baf 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -217,27 +217,27 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     def moment(self, n, weight=None):
         with self.numpy.errstate(invalid="ignore"):
             if weight is None:
-                return self.numpy.true_divide((self**n).sum(), self.count())
+                return self.numpy.true_divide(self._util_sum(self**n), self.count())
             else:
-                return self.numpy.true_divide(((self**n) * weight).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide(self._util_sum((self**n) * weight), self._util_sum(self * 0 + weight))
 
     def mean(self, weight=None):
         with self.numpy.errstate(invalid="ignore"):
             if weight is None:
                 return self.numpy.true_divide(self.sum(), self.count())
             else:
-                return self.numpy.true_divide((self * weight).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide(self._util_sum(self * weight), self._util_sum(self * 0 + weight))
 
     def var(self, weight=None, ddof=0):
         with self.numpy.errstate(invalid="ignore"):
             if weight is None:
                 denom = self.count()
                 one = self.numpy.true_divide(self.sum(), denom)
-                two = self.numpy.true_divide((self**2).sum(), denom)
+                two = self.numpy.true_divide(self._util_sum(self**2), denom)
             else:
-                denom = (self * 0 + weight).sum()
-                one = self.numpy.true_divide((self * weight).sum(), denom)
-                two = self.numpy.true_divide(((self**2) * weight).sum(), denom)
+                denom = self._util_sum(self * 0 + weight)
+                one = self.numpy.true_divide(self._util_sum(self * weight), denom)
+                two = self.numpy.true_divide(self._util_sum((self**2) * weight), denom)
             if ddof != 0:
                 return (two - one**2) * denom / (denom - ddof)
             else:
@@ -539,23 +539,79 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     def _util_reduce(cls, array, ufunc, identity, dtype):
         if isinstance(array, AwkwardArray):
             return array._reduce(ufunc, identity, dtype)
+        else:
+            return cls._util_reduceprepared(cls._util_prepare(array, ufunc, identity, dtype), ufunc, identity)
+
+    @classmethod
+    def _util_reduceprepared(cls, prepared, ufunc, identity):
+        if isinstance(prepared, AwkwardArray):
+            return prepared._reduceprepared(ufunc, identity)
+        if ufunc is None or ufunc is cls.numpy.count_nonzero:
+            ufunc = cls.numpy.add
+        if len(prepared) == 0:
+            prepared = cls.numpy.full((1,) + prepared.shape[1:], cls._util_identity(identity, prepared.dtype), dtype=prepared.dtype)
+        return ufunc.reduce(prepared, axis=None)
+
+    @classmethod
+    def _util_sum(cls, array):
+        return cls._util_reduce(array, cls.numpy.add, 0, None)      # skips NaN, even if array has become a Numpy array
 
-        elif len(array) == 0:
-            if dtype is None:
-                dtype = array.dtype
-            return ufunc.reduce(cls.numpy.full((1,) + array.shape[1:], identity, dtype=dtype), axis=-1)
+    @classmethod
+    def _util_identity(cls, identity, dtype):
+        if identity == cls.numpy.inf:
+            if issubclass(dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                return True
+            elif cls._util_isintegertype(dtype.type):
+                return cls.numpy.iinfo(dtype.type).max
+
+        elif identity == -cls.numpy.inf:
+            if issubclass(dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                return False
+            elif cls._util_isintegertype(dtype.type):
+                return cls.numpy.iinfo(dtype.type).min
 
+        return identity
+
+    @classmethod
+    def _util_prepare(cls, array, ufunc, identity, dtype):
+        # returns a Numpy array (or a Table of them) in which everything that a reducer skips has been replaced by its identity;
+        # count and count_nonzero become sums of 0 and 1
+        if isinstance(array, AwkwardArray):
+            return array._prepare(ufunc, identity, dtype)
+
+        nan = None
+        if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
+            nan = cls.numpy.isnan(array)
+
+        if ufunc is None:
+            if nan is None:
+                return cls.numpy.ones(array.shape, dtype=cls.INDEXTYPE)
+            else:
+                return (~nan).astype(cls.INDEXTYPE)
+
+        elif ufunc is cls.numpy.count_nonzero:
+            nonzero = (array != 0)
+            if nan is not None:
+                nonzero &= ~nan
+            return nonzero.astype(cls.INDEXTYPE)
+
+        if nan is not None and nan.any():
+            array = array.copy()
+            array[nan] = identity
+        if dtype is None and issubclass(array.dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+            dtype = cls.numpy.dtype(type(identity))
+        if dtype is not None:
+            array = array.astype(dtype)
+        return array
+
+    @classmethod
+    def _util_skip(cls, prepared, mask, identity):
+        if isinstance(prepared, AwkwardArray):
+            return prepared._skip(mask, identity)
         else:
-            original = array
-            if dtype is not None:
-                array = cls.numpy.array(array, dtype=dtype, copy=False)
-            if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
-                mask = cls.numpy.isnan(array)
-                if mask.any():
-                    if array is original or not array.flags.owndata:
-                        array = array.copy()
-                    array[mask] = identity
-            return ufunc.reduce(array, axis=None)
+            prepared = prepared.copy()
+            prepared[mask] = cls._util_identity(identity, prepared.dtype)
+            return prepared
 
     @classmethod
     def _util_concatenate(cls, arrays):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 61bebf4..e3645b0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -695,19 +695,14 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if self._chunksizes[chunkid] > 0:
                 return self._util_hasjagged(self._chunks[chunkid])
         else:
-            return False
+            return any(self._util_hasjagged(chunk) for chunk in self._chunks)
 
     def _reduce(self, ufunc, identity, dtype):
         self.knowchunksizes()
         self._valid()
 
         if self._util_hasjagged(self):
-            chunks = []
-            for chunkid, chunk in enumerate(self._chunks):
-                this = chunk._reduce(ufunc, identity, dtype)
-                if len(this) > 0:
-                    chunks.append(this)
-            return self.copy(chunks=chunks)
+            return self.copy(chunks=[chunk._reduce(ufunc, identity, dtype) for chunk in self._chunks if self._util_hasjagged(chunk)])
 
         out = None
         for chunkid, chunk in enumerate(self._chunks):
@@ -715,14 +710,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 this = self._util_reduce(chunk[:self._chunksizes[chunkid]], ufunc, identity, dtype)
                 if out is None:
                     out = this
+                elif ufunc is None or ufunc is self.numpy.count_nonzero:
+                    out = self.numpy.add(out, this)
                 else:
                     out = ufunc(out, this)
 
         if out is None:
-            if dtype is None:
-                return identity
-            else:
-                return dtype.type(identity)
+            return self._util_reduceprepared(self._prepare(ufunc, identity, dtype), ufunc, identity)
         else:
             return out
 
@@ -745,29 +739,22 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             return self.offsets[chunkid] + indexes[chunkid]
 
     def _prepare(self, ufunc, identity, dtype):
-        self.knowchunksizes()
-        out = None
-        pos = 0
-        for chunkid, chunk in enumerate(self._chunks):
-            if self._chunksizes[chunkid] > 0:
-                this = chunk[:self._chunksizes[chunkid]]
-                if out is None:
-                    if dtype is None and issubclass(this.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                        dtype = self.numpy.dtype(type(identity))
-                    if dtype is None:
-                        dtype = this.dtype
-                    out = self.numpy.empty((sum(self._chunksizes),) + this.shape[1:], dtype=dtype)
-
-                newpos = pos + this.shape[0]
-                out[pos:newpos] = this
-                pos = newpos
+        def concatenate(chunks):
+            if isinstance(chunks[0], awkward0.array.base.AwkwardArray):
+                out = chunks[0].empty_like()
+                for n in chunks[0].columns:
+                    out[n] = concatenate([x[n] for x in chunks])
+                return out
+            else:
+                return self.numpy.concatenate(chunks)
 
-        if out is None:
-            if dtype is None:
-                dtype = self.DEFAULTTYPE
-            return self.numpy.array([identity], dtype=dtype)
-        else:
-            return out
+        self.knowchunksizes()
+        chunks = [chunk[:chunksize] for chunk, chunksize in zip(self._chunks, self._chunksizes) if chunksize > 0]
+        if len(chunks) == 0:
+            chunks = [chunk[:0] for chunk in self._chunks[:1]]
+        if len(chunks) == 0:
+            chunks = [self.numpy.empty(0, dtype=self.DEFAULTTYPE)]
+        return concatenate([self._util_prepare(chunk, ufunc, identity, dtype) for chunk in chunks])
 
     def _util_columns(self, seen):
         if id(self) in seen:
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6426a61..5c429de 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -255,27 +255,11 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
-        elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
-
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduceprepared(self._prepare(ufunc, identity, dtype), ufunc, identity)
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, self.numpy.ndarray):
-            return self._content[self._index]
-        else:
-            return self._content._prepare(ufunc, identity, dtype)[self._index]
+        return self._util_prepare(self._content, ufunc, identity, dtype)[self._index]
 
     def argmin(self):
         return self._content[self._index].argmin()
@@ -721,27 +705,11 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
-        elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
-
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduceprepared(self._prepare(ufunc, identity, dtype), ufunc, identity)
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, self.numpy.ndarray):
-            return self.dense
-        else:
-            return self.copy(content=self._content._prepare(ufunc, identity, dtype)).dense
+        return self._util_prepare(self.dense, ufunc, identity, dtype)
 
     def argmin(self):
         return self.dense.argmin()
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0041bc8..f61e3be 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1431,103 +1431,43 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return True
 
     def _reduce(self, ufunc, identity, dtype):
-        import awkward0.array.table
         self._valid()
 
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
+        else:
+            return self._reduceprepared(self._util_prepare(self._content, ufunc, identity, dtype), ufunc, identity)
 
-        elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents=[])
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
-
-        elif isinstance(self._content, awkward0.array.base.AwkwardArray):
-            thyself = self.copy(content=self._content._prepare(ufunc, identity, dtype))
-
-        elif len(self._content.shape) > 1:
-            if ufunc is None:
-                ufunc = self.numpy.add
-                if issubclass(self._content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                    content = 1 - self.numpy.isnan(self._content).astype(self.INDEXTYPE)
-                else:
-                    content = self.numpy.ones(self._content.shape, dtype=self.INDEXTYPE)
-
-            elif ufunc is self.numpy.count_nonzero:
-                ufunc = self.numpy.add
-                content = 1 - (self._content == 0).astype(self.INDEXTYPE)
+    def _reduceprepared(self, content, ufunc, identity):
+        import awkward0.array.table
 
-            else:
-                content = self._content
+        if isinstance(content, awkward0.array.table.Table):
+            out = content.empty_like()
+            for n in content.columns:
+                out[n] = self._reduceprepared(content[n], ufunc, identity)
+            return out
 
-            if dtype is not None:
-                content = content.astype(dtype)
+        if ufunc is None or ufunc is self.numpy.count_nonzero:
+            ufunc = self.numpy.add
 
+        if len(content.shape) > 1:
             return self.copy(content=ufunc.reduce(content, axis=-1))
 
-        else:
-            thyself = self.copy()
-
-        if isinstance(thyself._content, awkward0.array.table.Table):
-            out = thyself._content.copy(contents=[])
-            for n, x in thyself._content._contents.items():
-                out[n] = thyself.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
-
-        if len(thyself._starts.shape) > 1:
-            thyself._starts = thyself._starts.reshape(-1)
-            thyself._stops = thyself.stops.reshape(-1)
+        thyself = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), content)
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
             thyself = thyself._tojagged(offsets[:-1], offsets[1:], copy=False)
 
         content = thyself._content
-        if ufunc is None:
-            ufunc = self.numpy.add
-            if issubclass(content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                content = 1 - self.numpy.isnan(content).astype(self.INDEXTYPE)
-            else:
-                content = self.numpy.ones(content.shape, dtype=self.INDEXTYPE)
-
-        elif ufunc is self.numpy.count_nonzero:
-            ufunc = self.numpy.add
-            content = 1 - (content == 0).astype(self.INDEXTYPE)
-
-        elif issubclass(content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-            mask = self.numpy.isnan(content)
-            if mask.any():
-                content = content.copy()
-                content[mask] = identity
-
-        if dtype is None and issubclass(content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-            dtype = self.numpy.dtype(type(identity))
-        if dtype is None:
-            dtype = content.dtype
-        else:
-            content = content.astype(dtype)
-
-        if identity == self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = True
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).max
-
-        elif identity == -self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = False
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).min
+        dtype = content.dtype
+        identity = self._util_identity(identity, dtype)
 
         out = self.numpy.empty(thyself._starts.shape[:1], dtype=dtype)
 
         if len(out) != 0:
             nonterminal = thyself.offsets[thyself.offsets < len(content)]
 
-            for axis in range(1, len(content.shape)):
-                content = ufunc.reduce(content, axis=axis)
-
             out = ufunc.reduceat(content, awkward0.util.windows_safe(nonterminal))[:len(out)]
             if len(out) < len(thyself):
                 tmp = self.numpy.empty((len(thyself),) + out.shape[1:], dtype=out.dtype)
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index cb832a9..b6f7a7e 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -314,69 +314,12 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
-        elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
-
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduceprepared(self._prepare(ufunc, identity, dtype), ufunc, identity)
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
-
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if ufunc is None:
-                content = self.numpy.zeros(self._content.shape, dtype=self.numpy.float32)
-                content[self.numpy.isnan(self._content)] = self.numpy.nan
-            elif ufunc is self.numpy.count_nonzero:
-                content = self.numpy.ones(self._content.shape, dtype=self.numpy.int8)
-                content[self.numpy.isnan(self._content)] = 0
-                content[self._content == 0] = 0
-            elif dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
-        else:
-            content = self._content._prepare(ufunc, identity, dtype)
-
-        if content is self._content or not content.flags.owndata:
-            content = content.copy()
-
-        if ufunc is None:
-            content[self.ismasked] = self.numpy.nan
-
-        else:
-            dtype = content.dtype
-
-            if identity == self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = True
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).max
-            elif identity == -self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = False
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).min
-
-            content[self.ismasked] = identity
-
-        return content
+        prepared = self._util_prepare(self._content[:len(self)], ufunc, identity, dtype)
+        return self._util_skip(prepared, self.boolmask(maskedwhen=True), identity)
 
     def argmin(self):
         if self._util_hasjagged(self):
@@ -864,37 +807,18 @@ class IndexedMaskedArray(MaskedArray):
         return self
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
+        def place(content):
+            if isinstance(content, awkward0.array.base.AwkwardArray):
+                out = content.empty_like()
+                for n in content.columns:
+                    out[n] = place(content[n])
+            else:
+                out = self.numpy.full(self._mask.shape + content.shape[1:], self._util_identity(identity, content.dtype), dtype=content.dtype)
+                out[isunmasked] = content[self._mask[isunmasked]]
             return out
 
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
-        else:
-            content = self._content._prepare(ufunc, identity, dtype)
-
-        if identity == self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = True
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).max
-
-        elif identity == -self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = False
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).min
-
-        out = self.numpy.full(self._mask.shape + content.shape[1:], identity, dtype=content.dtype)
-        out[self.isunmasked] = content[self.mask[self.mask >= 0]]
-        return out
+        isunmasked = self.isunmasked
+        return place(self._util_prepare(self._content, ufunc, identity, dtype))
 
     def argmin(self):
         if self._util_hasjagged(self):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 7b627d9..bcf0a4e 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -843,39 +843,55 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def _reduce(self, ufunc, identity, dtype):
         if self._hasjagged():
-            out = self.copy(contents={})
-            for n, x in self._contents.items():
-                out[n] = self._util_reduce(x, ufunc, identity, dtype)
+            out = self.empty_like()
+            for n in self._contents:
+                out[n] = self._util_reduce(self._contents[n][self._index()], ufunc, identity, dtype)
             return out
 
         else:
-            out = self.Table.named({
-                self.numpy.bitwise_or: "any",
-                self.numpy.bitwise_and: "all",
-                None: "count",
-                self.numpy.count_nonzero: "count_nonzero",
-                self.numpy.add: "sum",
-                self.numpy.multiply: "prod",
-                self.numpy.minimum: "min",
-                self.numpy.maximum: "max"
-                }[ufunc])
-            out._showdict = True
+            out = self._reducerow(ufunc)
             for n in self._contents:
                 x = self._contents[n][self._index()]
-                out[n] = self.numpy.array([self._util_reduce(x, ufunc, identity, dtype)])
+                out[n] = self._reducecolumn(self._util_reduce(x, ufunc, identity, dtype))
             return out.Row(out, 0)
 
+    def _reduceprepared(self, ufunc, identity):
+        out = self._reducerow(ufunc)
+        for n in self._contents:
+            x = self._contents[n][self._index()]
+            out[n] = self._reducecolumn(self._util_reduceprepared(x, ufunc, identity))
+        return out.Row(out, 0)
+
+    def _reducerow(self, ufunc):
+        out = self.Table.named({
+            self.numpy.bitwise_or: "any",
+            self.numpy.bitwise_and: "all",
+            None: "count",
+            self.numpy.count_nonzero: "count_nonzero",
+            self.numpy.add: "sum",
+            self.numpy.multiply: "prod",
+            self.numpy.minimum: "min",
+            self.numpy.maximum: "max"
+            }.get(ufunc, "reduce"))
+        out._showdict = True
+        return out
+
+    def _reducecolumn(self, reduced):
+        if isinstance(reduced, Table.Row):
+            return reduced._table
+        else:
+            return self.numpy.array([reduced])
+
     def _prepare(self, ufunc, identity, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                if dtype is None and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    dtype = self.numpy.dtype(type(identity))
-                if dtype is not None:
-                    x = x.astype(dtype)
-            else:
-                x = x._prepare(ufunc, identity, dtype)
-            out[n] = x
+        out = self.empty_like()
+        for n in self._contents:
+            out[n] = self._util_prepare(self._contents[n][self._index()], ufunc, identity, dtype)
+        return out
+
+    def _skip(self, mask, identity):
+        out = self.empty_like()
+        for n in self._contents:
+            out[n] = self._util_skip(self._contents[n][self._index()], mask, identity)
         return out
 
     def argmin(self):
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 14b8130..24cefbe 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -495,37 +495,21 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             raise ValueError("some UnionArray possibilities are jagged and others are not")
 
     def _reduce(self, ufunc, identity, dtype):
-        prepared = self._prepare(ufunc, identity, dtype)
-        if ufunc is None:
-            return (1 - self.numpy.isnan(prepared)).sum()
-        elif ufunc is self.numpy.count_nonzero:
-            return (1 - (prepared == 0)).sum()
-        if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-            prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-        return ufunc.reduce(prepared)
+        if self._hasjagged():
+            return self.copy(contents=[x._reduce(ufunc, identity, dtype) for x in self._contents])
+        else:
+            return self._util_reduceprepared(self._prepare(ufunc, identity, dtype), ufunc, identity)
 
     def _prepare(self, ufunc, identity, dtype):
-        if dtype is None and issubclass(self.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-            dtype = self.numpy.dtype(type(identity))
-        if dtype is None:
-            dtype = self.dtype
+        contents = [self._util_prepare(x, ufunc, identity, dtype) for x in self._contents]
+        if not all(isinstance(x, self.numpy.ndarray) for x in contents):
+            raise TypeError("cannot reduce a UnionArray of non-primitive type")
 
-        out = None
         index = self._index[:len(self._tags)]
-        for tag, content in enumerate(self._contents):
-            if not isinstance(content, self.numpy.ndarray):
-                content = content._prepare(ufunc, identity, dtype)
-
-            if not isinstance(content, self.numpy.ndarray):
-                raise TypeError("cannot reduce a UnionArray of non-primitive type")
-
+        out = self.numpy.empty(self._tags.shape[:1] + contents[0].shape[1:], dtype=self.uniondtype(contents))
+        for tag, content in enumerate(contents):
             mask = (self._tags == tag)
-            c = content[index[mask]]
-
-            if out is None:
-                out = self.numpy.full(self._tags.shape[:1] + c.shape[1:], identity, dtype=dtype)
-            out[mask] = c
-
+            out[mask] = content[index[mask]]
         return out
 
     def argmin(self):
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae49f6b..ca8a5fa 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -468,16 +468,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self._util_reduce(self.array, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
-        array = self.array
-        if isinstance(array, self.numpy.ndarray):
-            if dtype is None and issubclass(array.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
-                return array
-            else:
-                return array.astype(dtype)
-        else:
-            return array._prepare(ufunc, identity, dtype)
+        return self._util_prepare(self.array, ufunc, identity, dtype)
 
     def argmin(self):
         return self.array.argmin()
-- 
2.43.0


From 34566bf05a10641f60544df3e6ddcafbd70e1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 044/103] fix: std must not be NaN where rounding makes the
 variance negative

---
 awkward0/array/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 1426baf..4671798 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -238,10 +238,11 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 denom = self._util_sum(self * 0 + weight)
                 one = self.numpy.true_divide(self._util_sum(self * weight), denom)
                 two = self.numpy.true_divide(self._util_sum((self**2) * weight), denom)
+            out = self.numpy.maximum(two - one**2, 0)      # rounding must not make it negative
             if ddof != 0:
-                return (two - one**2) * denom / (denom - ddof)
+                return out * denom / (denom - ddof)
             else:
-                return two - one**2
+                return out
 
     def std(self, weight=None, ddof=0):
         with self.numpy.errstate(invalid="ignore"):
-- 
2.43.0


From eb838ad19705ea69cc0e0a2b8979286fe6fabafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 045/103] fix: flatten, pad, regular, fillna, counts and
 compact of masked, shaped, gapped, chunked, union, table and multidimensional
 arrays

---
 awkward0/array/base.py    | 62 ++++++++++++++++-----------------------
 awkward0/array/chunked.py | 43 +++++++++++++++------------
 awkward0/array/jagged.py  | 50 ++++++++++++++-----------------
 awkward0/array/masked.py  | 43 ++++++++++++++-------------
 awkward0/array/table.py   | 21 ++++++-------
 awkward0/array/union.py   |  6 ++--
 6 files changed, 106 insertions(+), 119 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 4671798..3f82e8f 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -483,8 +483,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, AwkwardArray):
             return array.flatten(axis=axis)
         else:
-            axis = min(axis, len(array.shape) - 1)
-            return array.reshape(array.shape[:axis] + (-1,) + array.shape[axis + 2:])
+            if axis + 1 >= len(array.shape):
+                return array
+            return array.reshape(array.shape[:axis] + (array.shape[axis]*array.shape[axis + 1],) + array.shape[axis + 2:])
 
     @classmethod
     def _util_pad(cls, array, length, maskedwhen, clip, axis):
@@ -494,40 +495,11 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         elif len(array.shape) == 1:
             raise ValueError("pad cannot be applied to scalars")
 
-        elif length == 0 and clip:
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.numpy.ma.array([]))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.MaskedArray.fget(None)([], []))
-
-        elif array.shape[1] > length and clip:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = array[(slice(None), slice(length)) + array.shape[2:]]
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:])))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
-
-        elif array.shape[1] >= length:
-            offsets = cls.numpy.arange(0, array.shape[1]*(len(array) + 1), array.shape[1], dtype=cls.INDEXTYPE)
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(array.reshape((-1,) + array.shape[2:])))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(array.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
-
         else:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = cls.numpy.empty(array.shape[:1] + (length,) + array.shape[2:], dtype=array.dtype)
-            content[:, :array.shape[1]] = array
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                mask = cls.numpy.ones(len(array), dtype=cls.MASKTYPE)
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:]), mask=mask))
-            if maskedwhen:
-                mask = cls.numpy.ones((len(array), length), dtype=cls.MASKTYPE)
-            else:
-                mask = cls.numpy.zeros((len(array), length), dtype=cls.MASKTYPE)
-            mask[:, :array.shape[1]] = not maskedwhen
-            return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None)(mask.reshape((-1,) + array.shape[2:]), content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
+            count = array.shape[1]
+            offsets = count*cls.numpy.arange(len(array) + 1, dtype=cls.INDEXTYPE)
+            content = array.reshape((len(array)*count,) + array.shape[2:])
+            return cls.JaggedArray.fget(None).fromoffsets(offsets, content).pad(length, maskedwhen=maskedwhen, clip=clip, axis=axis)
 
     @classmethod
     def _util_regular(cls, array):
@@ -720,12 +692,28 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             data = cls.numpy.array(cls.numpy.ma.getdata(array))     # a copy, to leave the input as it is
             mask = cls.numpy.ma.getmask(array)
             if mask is not cls.numpy.ma.nomask:
-                data[mask] = value
-            data[cls.numpy.isnan(data)] = value
+                data = cls._util_place(data, mask, value)
+            if data.dtype.kind in "fc":
+                data[cls.numpy.isnan(data)] = value
             return data
         else:
             return array.fillna(value)
 
+    @classmethod
+    def _util_place(cls, array, mask, value):
+        """a Numpy array of the elements of array, with value where the mask is True"""
+        if isinstance(array, AwkwardArray) and isinstance(array.type.to, cls.numpy.dtype) and array.type.to.kind in "biufc":
+            array = cls.numpy.array(array)
+        if isinstance(array, cls.numpy.ndarray):
+            dtype = cls.numpy.result_type(array, value) if array.dtype.kind in "biufc" else array.dtype
+            out = cls.numpy.array(array, dtype=dtype)
+        else:
+            out = cls.numpy.empty(len(array), dtype=cls.numpy.dtype(object))
+            for i in range(len(array)):
+                out[i] = array[i]
+        out[mask] = value
+        return out
+
     @classmethod
     def _util_columns_descend(cls, array, seen):
         if isinstance(array, cls.numpy.ndarray):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index e3645b0..8a30f48 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -611,10 +611,24 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     @property
     def counts(self):
-        return self.numpy.concatenate([self._util_counts(x) for x in self._chunks])
+        return self._joinchunks(self._util_counts, self.INDEXTYPE)
+
+    def _filledchunks(self):
+        self.knowchunksizes()
+        return [x[:size] for x, size in zip(self._chunks, self._chunksizes)]
+
+    def _joinchunks(self, function, dtype):
+        """a Numpy array of function applied to each non-empty chunk"""
+        arrays = [function(x) for x in self._filledchunks() if len(x) != 0]
+        return self.numpy.concatenate(arrays) if len(arrays) != 0 else self.numpy.empty(0, dtype=dtype)
+
+    def _mapchunks(self, function):
+        """a ChunkedArray of function applied to each chunk"""
+        chunks = [function(x) for x in self._filledchunks()]
+        return self.copy(chunks=chunks, chunksizes=[len(x) for x in chunks])
 
     def boolmask(self, maskedwhen=True):
-        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._chunks])
+        return self._joinchunks(lambda x: self._util_boolmask(x, maskedwhen), self.MASKTYPE)
 
     def choose(self, n):
         out = self.copy(chunks=[x.choose(n) for x in self._chunks])
@@ -678,16 +692,14 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         return self.copy(chunks=[self._util_flattentuple(x) for x in self._chunks], chunksizes=self._chunksizes)
 
     def flatten(self, axis=0):
-        out = self.copy(chunks=[self._util_flatten(x, axis) for x in self._chunks])
-        out.knowchunksizes()
-        return out
+        return self._mapchunks(lambda x: self._util_flatten(x, axis))
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self.copy(chunks=[self._util_pad(x, length, maskedwhen, clip, axis) for x in self._chunks], chunksizes=self.chunksizes)
+        return self._mapchunks(lambda x: self._util_pad(x, length, maskedwhen, clip, axis) if len(x) != 0 else x)
 
     def regular(self):
         self._valid()
-        return self.numpy.concatenate([self._util_regular(x) for x in self._chunks])
+        return self._joinchunks(self._util_regular, self.DEFAULTTYPE)
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
@@ -785,14 +797,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         return self.copy(chunks=chunks, chunksizes=chunksizes)
 
     def fillna(self, value):
-        chunks = []
-        chunksizes = []
-        for i, chunk in enumerate(self._chunks):
-            if i >= len(self._chunksizes):
-                self._chunksizes.append(len(chunk))
-            chunks.append(self._util_fillna(chunk, value))
-            chunksizes.append(self._chunksizes[i])
-        return self.copy(chunks=chunks, chunksizes=chunksizes)
+        return self._mapchunks(lambda x: self._util_fillna(x, value))
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
@@ -991,6 +996,9 @@ class AppendableArray(ChunkedArray):
     def _hasjagged(self):
         return False
 
+    def _mapchunks(self, function):
+        return self.ChunkedArray([function(x) for x in self._filledchunks()])
+
     def astype(self, dtype):
         chunks = []
         for chunk in self._chunks:
@@ -998,7 +1006,4 @@ class AppendableArray(ChunkedArray):
         return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks, chunksizes=self._chunksizes)
 
     def fillna(self, value):
-        chunks = []
-        for chunk in self._chunks:
-            chunks.append(self._util_fillna(chunk, value))
-        return self.copy(chunks=chunks)
+        return self._mapchunks(lambda x: self._util_fillna(x, value))
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f61e3be..474ce92 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1027,19 +1027,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def regular(self):
         self._valid()
 
-        if len(self) > 0 and not (self.counts.reshape(-1)[0] == self.counts).all():
+        counts = self.counts.reshape(-1)
+        if (counts != counts[:1]).any():
             raise ValueError("jagged array is not regular: different elements have different counts")
-        count = self.counts.reshape(-1)[0]
-        content = self._util_regular(self._content)
-
-        if self._canuseoffset():
-            out = content[self._starts[0]:self.stops[-1]]
-            return out.reshape(self._starts.shape + (count,) + content.shape[1:])
-
-        else:
-            indexes = self.numpy.repeat(self._starts, awkward0.util.windows_safe(count)).reshape(self._starts.shape + (count,))
-            indexes += self.numpy.arange(count)
-            return content[indexes]
+        count = counts[0] if len(counts) != 0 else 0
+        content = self._util_regular(self.flatten())
+        return content.reshape(self._starts.shape + (count,) + content.shape[1:])
 
     def _argpairs(self):
         self._valid()
@@ -1367,9 +1360,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:                                                # no underscore!
                 tmp = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
             out = tmp._tojagged(offsets[:-1], offsets[1:], copy=False)
-            out.starts.shape = self._starts.shape
-            out.stops.shape = self._starts.shape  # intentional: self._stops can too long
-            return out
+            if len(self._starts.shape) == 1:
+                return out
+            else:
+                return self.copy(starts=offsets[:-1].reshape(self._starts.shape), stops=offsets[1:].reshape(self._starts.shape), content=out._content)
 
     def flattentuple(self):
         return self.copy(content=self._util_flattentuple(self._content))
@@ -1379,15 +1373,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("axis must be a non-negative integer (can't count from the end)")
 
         if axis > 1:
-            return self.copy(content=self._util_flatten(self._content, axis - 1))
+            return type(self).fromcounts(self.counts, self._util_flatten(self.flatten(), axis - 1))
 
         elif axis == 1:
-            self = self.compact()
-            innercounts = self._util_counts(self._content)
+            content = self.flatten()
+            innercounts = self._util_counts(content)
             if (innercounts < 0).any():
                 raise ValueError("cannot flatten an array containing scalar values")
             counts = self.JaggedArray.fromcounts(self.counts, innercounts).sum()
-            return type(self).fromcounts(counts, self._util_flatten(self._content, axis - 1))
+            return type(self).fromcounts(counts, self._util_flatten(content, axis - 1))
 
         else:
             if self._starts.size == 0:
@@ -1400,7 +1394,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     out = self
                 else:
                     out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
-                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
+                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content[:offsets[-1]]
 
     def structure1d(self, levellimit=None):
         if len(self._starts) > len(self._stops):
@@ -1418,9 +1412,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         while len(out._starts.shape) > 1:
             last = out._starts.shape[-1]
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
-            offsets = self.numpy.arange(0, (length + 1)*last, last)
-            outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out.stops.shape[:-2] + (-1,))
+            offsets = last*self.numpy.arange(length + 1, dtype=self.INDEXTYPE)
+            outerstarts = offsets[:-1].reshape(out._starts.shape[:-1])
+            outerstops = offsets[1:].reshape(out._starts.shape[:-1])
             innerstarts = out._starts.reshape(-1)
             innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
@@ -1767,12 +1761,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("axis must be a non-negative integer (can't count from the end)")
 
         if axis > 0:
-            return type(self).fromcounts(self.counts, self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
+            return self.copy(content=self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
 
         flatstarts = self._starts.reshape(-1)
 
         if len(self._content) == 0:
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length)
+            offsets = length*self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)
             starts, stops = offsets[:-1], offsets[1:]
             content = self.IndexedMaskedArray(self.numpy.full(length*len(flatstarts), -1, dtype=self.INDEXTYPE), self._content, maskedwhen=-1)
             return self.copy(starts=starts.reshape(self._starts.shape), stops=stops.reshape(self._starts.shape), content=content)
@@ -1783,7 +1777,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             localindex = index - almostflat
             index = index.reshape(-1)
             comparator = self.counts.reshape(-1, 1)
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length, dtype=self.INDEXTYPE)
+            offsets = length*self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)
 
         else:
             counts = self.numpy.maximum(self.counts.reshape(-1), length)
@@ -1805,8 +1799,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         index[index >= len(self._content)] = -1
         content = self._content[index]
 
-        starts = offsets[:-1].reshape((-1,) + self._starts.shape[1:])
-        stops = offsets[1:].reshape((-1,) + self._starts.shape[1:])
+        starts = offsets[:-1].reshape(self._starts.shape)
+        stops = offsets[1:].reshape(self._starts.shape)
 
         if isinstance(maskedwhen, self.numpy.ma.core.MaskedConstant):
             return self.copy(starts=starts, stops=stops, content=self.numpy.ma.MaskedArray(content, mask))
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index b6f7a7e..9f5c982 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -285,6 +285,8 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
         goodcontent = self._content[:len(self)][mask]
+        if axis != 0:
+            return self._spread(mask, self._util_flatten(goodcontent, axis))
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -296,13 +298,20 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         index[~augmask] = -1
         return self.IndexedMaskedArray(index, content)
 
+    def _spread(self, mask, content):
+        index = self.numpy.cumsum(mask) - 1
+        index[~mask] = -1
+        return self.IndexedMaskedArray(index, content)
+
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
         return self.copy(content=self._util_pad(self._content, length, maskedwhen, clip, axis))
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content[:len(self)]).astype(self.numpy.float64)
-        out[self.boolmask(maskedwhen=True)] = float("nan")
+        mask = self.boolmask(maskedwhen=False)
+        content = self._util_regular(self._content[:len(self)][mask])
+        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"), dtype=self.numpy.float64)
+        out[mask] = content
         return out
 
     def indexed(self):
@@ -336,11 +345,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return unmasked[self._content[unmasked].argmax()]
 
     def fillna(self, value):
-        out = self._util_fillna(self._content[:len(self)], value)
-        if not isinstance(out, self.numpy.ndarray):
-            out = self.numpy.array(out)
-        out[self.boolmask(maskedwhen=True)] = value
-        return out
+        return self._util_place(self._util_fillna(self._content[:len(self)], value), self.boolmask(maskedwhen=True), value)
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
@@ -784,6 +789,8 @@ class IndexedMaskedArray(MaskedArray):
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
         goodcontent = self._content[self._mask[mask]]
+        if axis != 0:
+            return self._spread(mask, self._util_flatten(goodcontent, axis))
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -797,10 +804,10 @@ class IndexedMaskedArray(MaskedArray):
 
     def regular(self):
         self._valid()
-        content = self._util_regular(self._content)
-        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"), dtype=self.numpy.float64)
         mask = self.boolmask(maskedwhen=False)
-        out[mask] = content[self._mask[mask]]
+        content = self._util_regular(self._content[self._mask[mask]])
+        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"), dtype=self.numpy.float64)
+        out[mask] = content
         return out
 
     def indexed(self):
@@ -835,16 +842,12 @@ class IndexedMaskedArray(MaskedArray):
             return unmasked[self._content[self._mask[unmasked]].argmax()]
 
     def fillna(self, value):
-        out = self._util_fillna(self._content, value)
-        if not isinstance(out, self.numpy.ndarray):
-            out = self.numpy.array(out)
-        out = self.numpy.append(out, value)
-        if (self.mask < -1).any():
-            mask = self.mask.copy()
-            mask[mask < -1] = -1
-        else:
-            mask = self.mask
-        return out[mask]
+        mask = self.boolmask(maskedwhen=True)
+        if len(self._content) == 0:
+            dtype = self._content.dtype if isinstance(self._content, self.numpy.ndarray) else self.DEFAULTTYPE
+            return self._util_place(self.numpy.empty(len(self), dtype=dtype), mask, value)
+        index = self.numpy.where(mask, 0, self._mask)
+        return self._util_place(self._util_fillna(self._content, value)[index], mask, value)
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index bcf0a4e..e5f429d 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -788,14 +788,17 @@ class Table(awkward0.array.base.AwkwardArray):
         raise ValueError("cannot flatten through a Table")
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_pad(x, length, maskedwhen, clip, axis)
+        return self._mapcolumns(lambda x: self._util_pad(x, length, maskedwhen, clip, axis))
+
+    def _mapcolumns(self, function):
+        """a Table without a view, with function applied to each column as seen through the view"""
+        out = self.copy(contents=OrderedDict([(n, function(self[n])) for n in self._contents]))
+        out._view, out._base = None, None
         return out
 
     def regular(self):
         self._valid()
-        pairs = [(n, self._util_regular(x)) for n, x in self.items()]
+        pairs = [(n, self._util_regular(x)) for n, x in self._mapcolumns(lambda x: x[:len(self)])._contents.items()]
         out = self.numpy.empty(len(self), [(n, x.dtype, x.shape[1:]) for n, x in pairs])
         for n, x in pairs:
             out[n] = x
@@ -907,16 +910,10 @@ class Table(awkward0.array.base.AwkwardArray):
         return list(self._contents)
 
     def astype(self, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = x.astype(dtype)
-        return out
+        return self._mapcolumns(lambda x: x.astype(dtype))
 
     def fillna(self, value):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_fillna(x, value)
-        return out
+        return self._mapcolumns(lambda x: self._util_fillna(x, value))
 
     @classmethod
     def _concatenate_axis0(cls, tables):
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 24cefbe..d75b44a 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -430,7 +430,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def boolmask(self, maskedwhen=True):
@@ -439,7 +439,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.MASKTYPE)
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def choose(self, n):
@@ -482,7 +482,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def _hasjagged(self):
-- 
2.43.0


From a0e9206d2771a88998f70c8b2f9dc86c9538106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 046/103] fix: ChunkedArrays of unions whose chunks hold
 different alternatives

---
 awkward0/array/chunked.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8a30f48..abc7285 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -294,7 +294,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __array__(self, *args, **kwargs):
         self._checktonumpy()
 
-        if self._util_isnumpy(self.type) and not self._hasrecordormask():
+        if self._likenumpy(self._chunks):
             out = self.numpy.empty(self.type.shape, dtype=self.type.dtype)
             for chunk, slc in zip(self._chunks, self._slices()):
                 if slc.stop > slc.start:
@@ -449,7 +449,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
                 diff = (chunkid[1:] - chunkid[:-1])
-                if (diff >= 0).all() or not self._util_isnumpy(self.type) or self._hasrecordormask():
+                if (diff >= 0).all() or not self._likenumpy([self._chunks[i] for i in self.numpy.unique(chunkid)]):
                     diff2 = self.numpy.empty(len(chunkid), dtype=self.INDEXTYPE)
                     diff2[0] = 1
                     diff2[1:] = diff
@@ -495,6 +495,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _likenumpy(self, chunks):
+        """whether the chunks can be copied into one Numpy array of self.type; slices of a UnionArray can have a different type in each chunk"""
+        if not self._util_isnumpy(self.type) or self._hasrecordormask():
+            return False
+        return all(len(x) == 0 or awkward0.type.fromarray(x).to == self.type.to for x in chunks)
+
     def _hasrecordormask(self):
         to = self.type.to
         while isinstance(to, awkward0.type.ArrayType):
-- 
2.43.0


From fb3e8798968d0d5f828c5ee6cb51470336fc22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 047/103] fix: tojagged, zip and cross of multidimensional,
 mismatched, overlapping and masked arrays

---
 awkward0/array/jagged.py | 47 +++++++++++++++++++++++++---------------
 awkward0/array/masked.py | 12 ++++++++--
 awkward0/array/table.py  | 14 +-----------
 3 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 474ce92..3502ddb 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -747,14 +747,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-            self._content[where] = self.tojagged(what)._content
+            self._content[where] = self._matchjagged(what)._content
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for x, y in zip(where, what):
-                self._content[x] = self.tojagged(y)._content
+                self._content[x] = self._matchjagged(y)._content
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
@@ -797,6 +797,19 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("invalid index for assigning to JaggedArray: {0}".format(where))
 
     def tojagged(self, data):
+        if len(self._starts.shape) == 1 and self._overlapping():
+            self = self.compact()
+        return self._matchjagged(data)
+
+    def _overlapping(self):
+        starts, stops = self._starts, self.stops
+        nonempty = (starts != stops)
+        starts, stops = starts[nonempty], stops[nonempty]
+        order = self.numpy.argsort(starts)
+        return bool((starts[order][1:] < stops[order][:-1]).any())
+
+    def _matchjagged(self, data):
+        """data with the same starts and stops as this array"""
         if isinstance(data, JaggedArray):
             selfcounts = self.stops - self._starts
             datacounts = data.stops - data._starts
@@ -804,14 +817,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 raise ValueError("cannot broadcast JaggedArray to match JaggedArray with a different counts")
             if len(self._starts) == 0:
                 return self.copy(content=data._content)
-
-            tmp = self.compact()
-            tmpparents = self.offsets2parents(tmp.offsets)
-
-            index = self.JaggedArray(tmp._starts, tmp._stops, (self.numpy.arange(tmp._stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
-
-            data = data.compact()
-            return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
+            return self.copy(content=data._tojagged(self._starts, self.stops, copy=False)._content)
 
         elif isinstance(data, awkward0.array.base.AwkwardArray):
             if len(self._starts) != len(data):
@@ -823,10 +829,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out
 
         elif isinstance(data, self.numpy.ndarray):
-            content = self.numpy.empty(len(self.parents), dtype=data.dtype)
             if len(data.shape) == 0 or (len(data.shape) == 1 and data.shape[0] == 1):
+                content = self.numpy.empty(len(self.parents), dtype=data.dtype)
                 content[:] = data
             else:
+                if len(data) != len(self._starts):
+                    raise ValueError("cannot broadcast Numpy array to match JaggedArray with a different length")
+                content = self.numpy.empty((len(self.parents),) + data.shape[1:], dtype=data.dtype)
                 good = (self.parents >= 0)
                 content[good] = data[self.parents[good]]
             out = self.copy(content=content)
@@ -834,10 +843,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out
 
         elif isinstance(data, Iterable):
-            return self.tojagged(self.numpy.array(data))
+            return self._matchjagged(self.numpy.array(data))
 
         else:
-            return self.tojagged(self.numpy.array([data]))
+            return self._matchjagged(self.numpy.array([data]))
 
     def _tojagged(self, starts=None, stops=None, copy=True):
         if starts is None and stops is None:
@@ -1668,6 +1677,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             columns1 = first = ready(columns1)
 
         if isinstance(columns1, dict):
+            columns1 = OrderedDict(columns1)
             for n in columns1:
                 x = columns1[n]
                 if isinstance(x, JaggedArray):
@@ -1701,6 +1711,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             numpy = first.numpy
 
+        def scalar(x):
+            return numpy.full(first.stops.max() if len(first) != 0 else 0, x, dtype=type(x))
+
         if isinstance(columns1, JaggedArray):
             columns1 = columns1._content
         elif isinstance(columns1, dict):
@@ -1711,13 +1724,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = scalar(x)
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = scalar(columns1)
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1728,7 +1741,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
+                columns2[i] = scalar(x)
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1739,7 +1752,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
+                columns3[n] = scalar(x)
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 9f5c982..3d98cc6 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -274,10 +274,12 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self.copy(content=self._content.argpairs(nested=nested))
 
     def cross(self, other, nested=False):
-        return self.copy(content=self._content.cross(other, nested=nested))
+        mask = self.boolmask(maskedwhen=False)
+        return self._spread(mask, self._unmasked(mask).cross(other[mask], nested=nested))
 
     def argcross(self, other, nested=False):
-        return self.copy(content=self._content.argcross(other, nested=nested))
+        mask = self.boolmask(maskedwhen=False)
+        return self._spread(mask, self._unmasked(mask).argcross(other[mask], nested=nested))
 
     def flattentuple(self):
         return self.copy(content=self._util_flattentuple(self._content))
@@ -298,6 +300,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         index[~augmask] = -1
         return self.IndexedMaskedArray(index, content)
 
+    def _unmasked(self, mask):
+        return self._content[:len(self)][mask]
+
     def _spread(self, mask, content):
         index = self.numpy.cumsum(mask) - 1
         index[~mask] = -1
@@ -802,6 +807,9 @@ class IndexedMaskedArray(MaskedArray):
         index[~augmask] = -1
         return self.IndexedMaskedArray(index, content)
 
+    def _unmasked(self, mask):
+        return self._content[self._mask[mask]]
+
     def regular(self):
         self._valid()
         mask = self.boolmask(maskedwhen=False)
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index e5f429d..f629b92 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -812,19 +812,7 @@ class Table(awkward0.array.base.AwkwardArray):
             contents = OrderedDict()
             for n, x in out._contents.items():
                 if isinstance(x, Table) and x.istuple:
-                    if x._view is None:
-                        view = slice(x._length())
-
-                    elif isinstance(x._view, tuple):
-                        start, step, length = x._view
-                        stop = start + step*length
-                        if stop < 0:
-                            stop = None
-                        view = slice(start, stop, step)
-
-                    else:
-                        view = x._view
-
+                    view = x._index()
                     for y in x._contents.values():
                         contents[str(len(contents))] = y[view]
 
-- 
2.43.0


From c7d8208d902f7d1128069eff536883e46a12bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 048/103] fix: argmin and argmax of chunked arrays with empty
 or unfilled chunks

---
 awkward0/array/chunked.py | 24 ++++++++++++++++--------
 awkward0/array/jagged.py  |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index abc7285..04cc09e 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -742,19 +742,27 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmin() for x in self._chunks]
-            chunkid = self.numpy.argmin([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            return self._argminmax("argmin")
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmax() for x in self._chunks]
-            chunkid = self.numpy.argmax([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            return self._argminmax("argmax")
+
+    def _argminmax(self, name):
+        self.knowchunksizes()
+        indexes, values = [], []
+        for offset, size, chunk in zip(self.offsets, self._chunksizes, self._chunks):
+            unmasked = self.numpy.nonzero(~self._util_boolmask(chunk[:size], True))[0]
+            if len(unmasked) > 0:
+                selected = chunk[unmasked]
+                i = getattr(selected, name)()
+                indexes.append(offset + unmasked[i])
+                values.append(selected[i])
+        if len(values) == 0:
+            raise ValueError("attempt to get {0} of an empty sequence".format(name))
+        return indexes[getattr(self.numpy, name)(values)]
 
     def _prepare(self, ufunc, identity, dtype):
         def concatenate(chunks):
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3502ddb..f1bd7cf 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1502,7 +1502,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(self._content.shape) != 1:
             raise ValueError("cannot compute arg{0} because content is not one-dimensional".format("min" if ismin else "max"))
 
-        if len(self._content) == 0:
+        if len(self._content) == 0 or not self.counts.any():
             return self.copy(content=self.numpy.array([], dtype=self.INDEXTYPE))
 
         if ismin:
-- 
2.43.0


From 88ceea08c287fc4b3b56cc46ce63a4b851016df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 049/103] fix: JaggedArray structure descriptions: parents
 length, empty parents and uniques, uint64, invalid offsets and localindex

---
 awkward0/array/jagged.py | 67 +++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f1bd7cf..01cb8f4 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -33,12 +33,20 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             stops_base = cls._util_toarray(stops.base, cls.INDEXTYPE)
         return (isinstance(starts, cls.numpy.ndarray) and isinstance(stops, cls.numpy.ndarray) and
+                len(starts.shape) == len(stops.shape) == 1 and
                 starts_base is not None and stops_base is not None and starts_base is stops_base and
                 starts.ctypes.data == starts_base.ctypes.data and
                 stops.ctypes.data == stops_base.ctypes.data + stops.dtype.itemsize and
                 len(starts) == len(starts_base) - 1 and
                 len(stops) == len(stops_base) - 1)
 
+    @classmethod
+    def _toindex(cls, value):
+        value = cls._util_toarray(value, cls.INDEXTYPE, cls.numpy.ndarray)
+        if value.dtype == cls.numpy.dtype(cls.numpy.uint64):
+            value = value.astype(cls.INDEXTYPE)    # because Numpy combines uint64 and int64 as float64
+        return value
+
     @classmethod
     def counts2offsets(cls, counts):
         offsets = cls.numpy.empty(len(counts) + 1, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
@@ -49,6 +57,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def offsets2parents(cls, offsets):
         dtype = cls.JaggedArray.fget(None).INDEXTYPE
+        offsets = cls._toindex(offsets)
         counts = cls.numpy.diff(cls.numpy.r_[dtype.type(0), offsets])  # numpy >= 1.16: diff prepend
         indices = cls.numpy.arange(-1, len(offsets) - 1, dtype=dtype)
         return cls.numpy.repeat(indices, awkward0.util.windows_safe(counts))
@@ -56,10 +65,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def startsstops2parents(cls, starts, stops):
         assert starts.shape == stops.shape
-        starts = starts.reshape(-1)  # flatten in case multi-d jagged
-        stops = stops.reshape(-1)
+        starts = cls._toindex(starts).reshape(-1)  # flatten in case multi-d jagged
+        stops = cls._toindex(stops).reshape(-1)
         dtype = cls.JaggedArray.fget(None).INDEXTYPE
-        out = cls.numpy.full(stops.max(), -1, dtype=dtype)
+        out = cls.numpy.full(stops.max() if len(stops) != 0 else 0, -1, dtype=dtype)
         indices = cls.numpy.arange(len(starts), dtype=dtype)
         counts = stops - starts
         parents = cls.numpy.repeat(indices, awkward0.util.windows_safe(counts))
@@ -72,20 +81,22 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def parents2startsstops(cls, parents, length=None):
-        # FIXME for 1.0: use length to add empty lists at the end of the jagged array or truncate
         # assumes that children are contiguous, but not necessarily in order or fully covering (allows empty lists)
         tmp = cls.numpy.nonzero(parents[1:] != parents[:-1])[0] + 1
+        if len(parents) == 0:
+            parents = cls.numpy.array([-1], dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         changes = cls.numpy.empty(len(tmp) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         changes[0] = 0
         changes[-1] = len(parents)
         changes[1:-1] = tmp
 
-        length = parents.max() + 1 if len(parents) > 0 else 0
+        if length is None:
+            length = max(int(parents.max()) + 1, 0)
         starts = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         counts = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
 
         where = parents[changes[:-1]]
-        real = (where >= 0)
+        real = (where >= 0) & (where < length)
 
         starts[where[real]] = (changes[:-1])[real]
         counts[where[real]] = (changes[1:] - changes[:-1])[real]
@@ -96,6 +107,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def uniques2offsetsparents(cls, uniques):
         # assumes that children are contiguous, in order, and fully covering (can't have empty lists)
         # values are ignored, apart from uniqueness
+        if len(uniques) == 0:
+            return cls.numpy.zeros(1, dtype=cls.JaggedArray.fget(None).INDEXTYPE), cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+
         changes = cls.numpy.nonzero(uniques[1:] != uniques[:-1])[0] + 1
 
         offsets = cls.numpy.empty(len(changes) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
@@ -110,7 +124,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return offsets, parents
 
     def __init__(self, starts, stops, content):
-        if self.offsetsaliased(starts, stops):
+        if self.offsetsaliased(starts, stops) and starts.dtype != self.numpy.dtype(self.numpy.uint64):
             self.content = content
             self._starts, self._stops = starts, stops
             self._offsets = starts.base
@@ -141,7 +155,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def fromoffsets(cls, offsets, content):
-        offsets = cls._util_toarray(offsets, cls.INDEXTYPE, cls.numpy.ndarray)
+        offsets = cls._toindex(offsets)
+        if not cls._util_isintegertype(offsets.dtype.type):
+            raise TypeError("offsets must have integer dtype")
+        if len(offsets.shape) != 1 or (offsets < 0).any():
+            raise ValueError("offsets must be a one-dimensional, non-negative array")
+        if len(offsets) == 0:
+            raise ValueError("offsets must be non-empty")
         if hasattr(offsets.base, 'base') and type(offsets.base.base).__module__ == "pyarrow.lib" and type(offsets.base.base).__name__ == "Buffer":
             # special exception to prevent copy in awkward0.fromarrow
             pass
@@ -154,7 +174,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def fromcounts(cls, counts, content):
-        counts = cls._util_toarray(counts, cls.INDEXTYPE, cls.numpy.ndarray)
+        counts = cls._toindex(counts)
         if not cls._util_isintegertype(counts.dtype.type):
             raise TypeError("counts must have integer dtype")
         if (counts < 0).any():
@@ -167,14 +187,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def fromparents(cls, parents, content, length=None):
-        parents = cls._util_toarray(parents, cls.INDEXTYPE, cls.numpy.ndarray)
+        parents = cls._toindex(parents)
         if not cls._util_isintegertype(parents.dtype.type):
             raise TypeError("parents must have integer dtype")
         if len(parents.shape) != 1 or len(parents) != len(content):
             raise ValueError("parents array must be one-dimensional with the same length as content")
         starts, stops = cls.parents2startsstops(parents, length=length)
         out = cls(starts, stops, content)
-        out._parents = parents
+        out._parents = parents if length is None else cls.numpy.where(parents < length, parents, -1)
         return out
 
     @classmethod
@@ -191,7 +211,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def fromlocalindex(cls, index, content, validate=True):
-        index = cls._util_toarray(index, cls.INDEXTYPE, (cls.numpy.ndarray, JaggedArray))
+        index = index if isinstance(index, JaggedArray) else cls._toindex(index)
         original_counts = None
         if isinstance(index, JaggedArray):
             if validate:
@@ -204,7 +224,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("localindex array must be one-dimensional with the same length as content")
 
         if validate:
-            if not ((index[1:] - index[:-1])[(index != 0)[1:]] == 1).all():
+            if len(index) != 0 and (index[0] != 0 or not ((index[1:] - index[:-1])[(index != 0)[1:]] == 1).all()):
                 raise ValueError("every localindex that is not zero must be one greater than the previous")
 
         starts = cls.numpy.nonzero(index == 0)[0]
@@ -228,8 +248,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(shape) <= 1:
             raise ValueError("regular array must have more than one dimension")
         out = regular.reshape(-1)
-        for x in shape[:0:-1]:
-            out = cls.fromfolding(out, x)
+        for i in range(len(shape) - 1, 0, -1):
+            length = 1
+            for x in shape[:i]:
+                length *= x
+            out = cls.fromoffsets(cls.numpy.arange(length + 1, dtype=cls.INDEXTYPE) * shape[i], out)
         return out
 
     @classmethod
@@ -307,7 +330,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @starts.setter
     def starts(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("starts must have integer dtype")
@@ -328,7 +351,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @stops.setter
     def stops(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("stops must have integer dtype")
@@ -366,7 +389,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @offsets.setter
     def offsets(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("offsets must have integer dtype")
@@ -389,7 +412,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @counts.setter
     def counts(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("counts must have integer dtype")
@@ -417,7 +440,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @parents.setter
     def parents(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("parents must have integer dtype")
@@ -426,6 +449,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._starts, self._stops = self.parents2startsstops(value)
         self._offsets, self._counts = None, None
         self._parents = value
+        self._isvalid = False
 
     @property
     def localindex(self):
@@ -905,8 +929,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             good = (parents >= 0)
             increase = self.numpy.arange(len(parents), dtype=self.INDEXTYPE)
             increase[good] -= increase[starts[parents[good]]]
-            index = self._starts[parents]
-            index += increase
+            index = self._starts[parents] + increase
             index *= good
             out = self.copy(starts=starts, stops=stops, content=self._content[index])
             out._parents = parents
-- 
2.43.0


From 014b895c84cb8a9972de9aa9f95735f71f71a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 050/103] fix: operations, projections and repeated indexing of
 Table rows

---
 awkward0/array/table.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index f629b92..998d445 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -40,6 +40,8 @@ class Table(awkward0.array.base.AwkwardArray):
                 return "({0})".format(", ".join(str(self[n]) for n in self._table._contents))
             elif getattr(self._table, "_showdict", False):
                 return "<{0} {{{1}}}>".format(self._table._rowname, ", ".join("{0}: {1}".format(repr(n), str(self[n])) for n in self._table._contents))
+            elif isinstance(self._index, tuple):
+                return "<{0} {1}>".format(self._table._rowname, ", ".join(str(x) for x in (self._index[0] + self._table.rowstart,) + self._index[1:]))
             else:
                 return "<{0} {1}>".format(self._table._rowname, self._index + self._table.rowstart)
 
@@ -80,7 +82,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 except KeyError:
                     raise ValueError("no column named {0}".format(repr(where)))
 
-            elif self._util_isstringslice(where):
+            elif self._table._util_isstringslice(where):
                 contents = OrderedDict()
                 for n in where:
                     try:
@@ -96,7 +98,16 @@ class Table(awkward0.array.base.AwkwardArray):
                     index = (index,)
                 if not isinstance(where, tuple):
                     where = (where,)
-                return self._table.Row(table, index + where)
+                return self._table.Row(self._table, index + where)
+
+        def _tablerow(self):
+            if isinstance(self._index, tuple):
+                raise NotImplementedError("operations on a multidimensional selection from a Table")
+            out = self._table.copy()
+            out._view = int(self._index), 1, 1     # index is a position in the contents, not in the view
+            out._base = self._table
+            out._rowstart = None
+            return out
 
         def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
             if "out" in kwargs:
@@ -110,7 +121,7 @@ class Table(awkward0.array.base.AwkwardArray):
             inputs = list(inputs)
             for i in range(len(inputs)):
                 if isinstance(inputs[i], Table.Row):
-                    inputs[i] = inputs[i]._table[inputs[i]._index : inputs[i]._index + 1]
+                    inputs[i] = inputs[i]._tablerow()
 
             result = getattr(ufunc, method)(*inputs, **kwargs)
 
-- 
2.43.0


From 4176953c8945157c6b6b91307fa805ec93285b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:02 +0000
Subject: [PATCH 051/103] fix: validity of bit masks and index masks,
 concatenation of masked arrays with longer content

---
 awkward0/array/masked.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 3d98cc6..efa582e 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -100,6 +100,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._isvalid = False
 
     def boolmask(self, maskedwhen=None):
+        self._valid()
         if maskedwhen is None:
             maskedwhen = self._maskedwhen
         if maskedwhen == self._maskedwhen:
@@ -356,7 +357,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, MaskedArray) for x in arrays)
         mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
-        content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays])
+        content = awkward0.array.base.AwkwardArray.concatenate([x._content[:len(x)] for x in arrays])
         return cls(mask, content, maskedwhen=True)
 
     _topandas_name = "MaskedSeries"
@@ -472,6 +473,7 @@ class BitMaskedArray(MaskedArray):
         return cls.numpy.packbits(out)
 
     def boolmask(self, maskedwhen=None):
+        self._valid()
         if maskedwhen is None:
             maskedwhen = self._maskedwhen
         if maskedwhen == self._maskedwhen:
@@ -499,6 +501,9 @@ class BitMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
+                if len(self._mask) < self._ceildiv8(len(self._content)):
+                    raise ValueError("mask length in bytes ({0}) is too short for the content length ({1})".format(len(self._mask), len(self._content)))
+
                 self._isvalid = True
 
     def __iter__(self, checkiter=True):
@@ -705,6 +710,7 @@ class IndexedMaskedArray(MaskedArray):
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
             raise TypeError("maskedwhen must be True or False")
+        self._valid()
         if maskedwhen:
             return self._mask == self._maskedwhen
         else:
@@ -720,10 +726,11 @@ class IndexedMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._mask) != 0:
-                    if self._mask.max() >= len(self._content):
-                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
-                    if (self._mask[self._mask != self._maskedwhen] < 0).any():
+                unmasked = self._mask[self._mask != self._maskedwhen]
+                if len(unmasked) != 0:
+                    if unmasked.max() >= len(self._content):
+                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(unmasked.max(), len(self._content)))
+                    if (unmasked < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
 
                 self._isvalid = True
-- 
2.43.0


From d77e9b50d467302c70419a00385561bd0108bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 052/103] fix: appendable copies and self-extension, stale
 chunk types after deletion, argmin/argmax of sparse chunks, astype and fillna
 of sparse defaults

---
 awkward0/array/chunked.py | 13 ++++++++++++-
 awkward0/array/indexed.py | 12 ++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 04cc09e..3fbbebe 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -524,10 +524,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if isinstance(where, awkward0.util.string):
             for chunk in self._chunks:
                 del chunk[where]
+            self._types = [None] * len(self._chunks)
         elif self._util_isstringslice(where):
             for chunk in self._chunks:
                 for x in where:
                     del chunk[x]
+            self._types = [None] * len(self._chunks)
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
 
@@ -754,7 +756,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         indexes, values = [], []
         for offset, size, chunk in zip(self.offsets, self._chunksizes, self._chunks):
-            unmasked = self.numpy.nonzero(~self._util_boolmask(chunk[:size], True))[0]
+            chunk = chunk[:size]
+            while isinstance(chunk, awkward0.array.virtual.VirtualArray):
+                chunk = chunk.array
+            if isinstance(chunk, awkward0.array.indexed.SparseArray):
+                chunk = chunk.dense      # the boolmask of a SparseArray marks its explicit values, not missing ones
+            unmasked = self.numpy.nonzero(~self._util_boolmask(chunk, True))[0]
             if len(unmasked) > 0:
                 selected = chunk[unmasked]
                 i = getattr(selected, name)()
@@ -850,6 +857,8 @@ class AppendableArray(ChunkedArray):
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
         out._chunks = list(self._chunks)
+        if len(out._chunks) != 0:
+            out._chunks[-1] = out._chunks[-1][:self._chunksizes[-1]]       # the rest of the chunk can only be filled by one of the arrays
         if chunkshape is not None:
             out._chunkshape = chunkshape
         if dtype is not None:
@@ -996,6 +1005,8 @@ class AppendableArray(ChunkedArray):
         self._chunksizes[-1] += 1
 
     def extend(self, values):
+        if values is self:
+            values = values[:]
         while len(values) > 0:
             if len(self._chunks) == 0 or self._chunksizes[-1] == len(self._chunks[-1]):
                 self._types.append(None)
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 5c429de..e81b5c7 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -717,6 +717,18 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     def argmax(self):
         return self.dense.argmax()
 
+    def _mapcontent(self, function):
+        out = self.copy(content=function(self._content))
+        if self._default is not None:
+            out.default = function(self.numpy.array([self._default]))[0]
+        return out
+
+    def astype(self, dtype):
+        return self._mapcontent(lambda x: x.astype(dtype))
+
+    def fillna(self, value):
+        return self._mapcontent(lambda x: self._util_fillna(x, value))
+
     _topandas_name = "SparseSeries"
 
     def _topandas(self, seen):
-- 
2.43.0


From fcb79b4b51202a4174b3a56b26e8ac52557f44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:49 +0000
Subject: [PATCH 053/103] fix: column changes of virtual arrays with evicting
 caches, caches with only the required methods, and chunks next to a slice
 left alone

---
 awkward0/array/chunked.py |  4 ++--
 awkward0/array/virtual.py | 43 ++++++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3fbbebe..3e5f374 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -389,8 +389,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     # stop is at or beyond len(self), clamp it
                     stop = len(self)
                 if step > 0:
-                    # we want the chunkid at or to the right of stop (no -1)
-                    stop_chunkid = min(self.numpy.searchsorted(self.offsets, stop, "right"), len(self._chunks))
+                    # we want the first chunkid that starts at or to the right of stop (no -1)
+                    stop_chunkid = min(self.numpy.searchsorted(self.offsets, stop, "left"), len(self._chunks))
                 else:
                     # we want the chunkid to the left of stop
                     stop_chunkid = max(self.numpy.searchsorted(self.offsets, stop, "right") - 2, -1)
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ca8a5fa..ae0296e 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -95,7 +95,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             out._array = self._util_deepcopy(out._array)
         if out._setitem is not None:
             for n in list(out._setitem):
-                out._setitem[n] = self._util_deepcopy(out._setitem[n])
+                if isinstance(out._setitem[n], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                    out._setitem[n] = self._util_deepcopy(out._setitem[n])
         return out
 
     def empty_like(self, **overrides):
@@ -332,7 +333,12 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
         else:
             if isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
-                return self._array in self._cache
+                try:
+                    self._cache[self._array]
+                except KeyError:
+                    return False
+                else:
+                    return True
             else:
                 return self._array is not None
 
@@ -343,7 +349,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 array[n] = x
         if self._delitem is not None:
             for n in self._delitem:
-                del array[n]
+                if n in array.columns:
+                    del array[n]
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
@@ -383,25 +390,33 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self.array[where]
 
     def __setitem__(self, where, what):
-        self.array[where] = what
+        array = self.array        # only one reference to self.array, since the cache might evict it at any time
+        array[where] = what
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
+            self._type = awkward0.type.fromarray(array)
         if self._setitem is None:
             self._setitem = OrderedDict()
-        self._setitem[where] = what
-        if self._delitem is not None and where in self._delitem:
-            self._delitem.remove(where)
+        if isinstance(where, awkward0.util.string):
+            columns = [(where, what)]
+        else:
+            columns = list(zip(where, what.unzip()))
+        for n, x in columns:
+            self._setitem[n] = x
+            if self._delitem is not None and n in self._delitem:
+                self._delitem.remove(n)
 
     def __delitem__(self, where):
-        del self.array[where]
+        array = self.array
+        del array[where]
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
-        if self._setitem is not None and where in self._setitem:
-            del self._setitem[where]
+            self._type = awkward0.type.fromarray(array)
         if self._delitem is None:
             self._delitem = []
-        if where not in self._delitem:
-            self._delitem.append(where)
+        for n in ([where] if isinstance(where, awkward0.util.string) else where):
+            if self._setitem is not None and n in self._setitem:
+                del self._setitem[n]
+            if n not in self._delitem:
+                self._delitem.append(n)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From ebbc4be1d98889fddb8a5c33a961974086952fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 054/103] fix: string arrays: fromstr, pad, comparison with
 strings of any kind and encoding, characters from any buffer, characterwise
 ufuncs, mixed encodings

---
 awkward0/array/jagged.py  |   2 +-
 awkward0/array/objects.py | 157 +++++++++++++++++++++++++-------------
 2 files changed, 107 insertions(+), 52 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 01cb8f4..300eb65 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -978,7 +978,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif isinstance(inputs[i], self.numpy.ndarray) and len(inputs[i].shape) == 0:
                 inputs[i] = inputs[i][()]
 
-            elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray, awkward0.util.string, bytes)):
                 pass
 
             else:
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 826f410..2505133 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -192,7 +192,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(tail, tuple) and tail == ():
                 return self.generator(content, *self._args, **self._kwargs)
             else:
-                return self.generator(content, *self._args, **self._kwargs)[tail]
+                return self.generator(content, *self._args, **self._kwargs)[tail[0] if len(tail) == 1 else tail]
 
         elif isinstance(tail, tuple) and tail == ():
             return self.copy(content=content)
@@ -307,47 +307,45 @@ class StringMethods(object):
     """
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        import awkward0.array.jagged
+
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
         if method != "__call__":
-            raise NotImplemented
+            return NotImplemented
 
         if ufunc is self.numpy.equal or ufunc is self.numpy.not_equal:
             if len(inputs) < 2:
                 raise ValueError("invalid number of arguments")
-            left, right = inputs[0], inputs[1]
+            left, right = [self._util_tostringarray(x) for x in inputs]
 
-            if isinstance(left, (str, bytes)):
-                left = self.StringArray.fromstr(len(right), left)
-            elif isinstance(left, self.numpy.ndarray) and (left.dtype.kind == "U" or left.dtype.kind == "S"):
-                left = self.StringArray.fromnumpy(left)
-            elif isinstance(left, self.numpy.ndarray) and left.dtype == self.numpy.dtype(object):
-                left = self.StringArray.fromiter(left)
-            elif not isinstance(left, StringMethods):
-                return self.numpy.zeros(len(right), dtype=self.BOOLTYPE)
+            if left is None or right is None:
+                out = self.numpy.zeros(len(self), dtype=self.BOOLTYPE)
+
+            else:
+                if isinstance(left, (awkward0.util.string, bytes)):
+                    left = self.StringArray.fromstr(len(right), left)
+                if isinstance(right, (awkward0.util.string, bytes)):
+                    right = self.StringArray.fromstr(len(left), right)
+                if len(left) != len(right):
+                    raise ValueError("cannot compare StringArrays of different lengths: {0} and {1}".format(len(left), len(right)))
 
-            if isinstance(right, (str, bytes)):
-                right = self.StringArray.fromstr(len(left), right)
-            elif isinstance(right, self.numpy.ndarray) and (right.dtype.kind == "U" or right.dtype.kind == "S"):
-                right = self.StringArray.fromnumpy(right)
-            elif isinstance(right, self.numpy.ndarray) and right.dtype == self.numpy.dtype(object):
-                right = self.StringArray.fromiter(right)
-            elif not isinstance(right, StringMethods):
-                return self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
+                if left._encoding != right._encoding and left._encoding is not None and right._encoding is not None:
+                    left, right = left._recode("utf-8"), right._recode("utf-8")
 
-            left = self.JaggedArray(left.starts, left.stops, left.content)
-            right = self.JaggedArray(right.starts, right.stops, right.content)
+                left = self.JaggedArray(left.starts, left.stops, left.content)
+                right = self.JaggedArray(right.starts, right.stops, right.content)
 
-            maybeequal = (left.counts == right.counts)
+                maybeequal = (left.counts == right.counts)
 
-            leftmask = left[maybeequal]
-            rightmask = right[maybeequal]
+                leftmask = left[maybeequal]
+                rightmask = right[maybeequal]
 
-            reallyequal = (leftmask == rightmask).count_nonzero() == leftmask.counts
+                reallyequal = (leftmask == rightmask).count_nonzero() == leftmask.counts
 
-            out = self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
-            out[maybeequal] = reallyequal
+                out = self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
+                out[maybeequal] = reallyequal
 
             if ufunc is self.numpy.equal:
                 return out
@@ -355,7 +353,33 @@ class StringMethods(object):
                 return self.numpy.logical_not(out)
 
         else:
-            return super(StringMethods, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
+            def rewrap(result):
+                if isinstance(result, tuple):
+                    return tuple(rewrap(x) for x in result)
+                elif isinstance(result, awkward0.array.jagged.JaggedArray) and isinstance(result._content, self.numpy.ndarray) and result._content.dtype == self.numpy.dtype(self.CHARTYPE):
+                    return self.fromjagged(result, self._encoding)
+                else:
+                    return result
+
+            return rewrap(getattr(ufunc, method)(*[x._content if isinstance(x, ObjectArray) else x for x in inputs], **kwargs))
+
+    def _util_tostringarray(self, x):
+        if isinstance(x, StringMethods):
+            return x
+        elif isinstance(x, (awkward0.util.string, bytes)):
+            return x
+        elif isinstance(x, (list, tuple)):
+            x = self.numpy.array(x, dtype=object)
+        if isinstance(x, self.numpy.ndarray) and x.shape == () and x.dtype.kind in "USO":
+            return self._util_tostringarray(x[()])
+        elif isinstance(x, self.numpy.ndarray) and x.dtype.kind in "US":
+            return self.StringArray.fromnumpy(x)
+        elif isinstance(x, self.numpy.ndarray) and x.dtype == self.numpy.dtype(object) and all(isinstance(y, awkward0.util.string) for y in x):
+            return self.StringArray.fromiter(x)
+        elif isinstance(x, self.numpy.ndarray) and x.dtype == self.numpy.dtype(object) and all(isinstance(y, bytes) for y in x):
+            return self.StringArray.fromiter(x, encoding=None)
+        else:
+            return None
 
 def tostring(x, decoder):
     if decoder is None:
@@ -369,23 +393,36 @@ class StringArray(StringMethods, ObjectArray):
     """
 
     def __init__(self, starts, stops, content, encoding="utf-8"):
-        self._content = self.JaggedArray(starts, stops, content)
+        self._content = self.JaggedArray(starts, stops, self._util_tochars(content))
         self._generator = tostring
         self._kwargs = {}
         self.encoding = encoding
 
     @classmethod
-    def fromstr(cls, length, string, encoding="utf-8"):   # FIXME: infer encoding from string
-        if encoding is not None:
+    def fromstr(cls, length, string, encoding="utf-8"):
+        if isinstance(string, bytes) and not isinstance(string, str):
+            encoding = None
+        elif encoding is not None:
             encoder = codecs.getencoder(encoding)
             string = encoder(string)[0]
-        content = cls.numpy.empty(length * len(string), dtype=cls.CHARTYPE)
-        for i, x in string:
-            content[0::length] = ord(x)                   # FIXME: use numpy.tile!
-        counts = cls.numpy.empty(length, dtype=cls.INDEXTYPE)
-        counts[:] = length
+        content = cls.numpy.tile(cls._util_tochars(string), length)
+        counts = cls.numpy.full(length, len(string), dtype=cls.INDEXTYPE)
         return cls.fromcounts(counts, content, encoding)
 
+    @classmethod
+    def _util_tochars(cls, content):
+        if isinstance(content, (bytes, bytearray)):
+            return cls.numpy.frombuffer(content, dtype=cls.CHARTYPE)
+        elif isinstance(content, (list, tuple)):
+            return cls.numpy.array(content, dtype=cls.CHARTYPE)
+        elif isinstance(content, cls.numpy.ndarray) and content.dtype != cls.numpy.dtype(cls.CHARTYPE):
+            return cls.numpy.ascontiguousarray(content).view(cls.CHARTYPE)
+        else:
+            return content
+
+    def _recode(self, encoding):
+        return self.StringArray.fromiter(list(self), encoding)
+
     @classmethod
     def fromnumpy(cls, array):
         if array.dtype.kind == "S":
@@ -395,6 +432,8 @@ class StringArray(StringMethods, ObjectArray):
         else:
             raise TypeError("not a string array")
 
+        array = cls.numpy.ascontiguousarray(array, dtype=array.dtype.newbyteorder("<"))
+
         starts = cls.numpy.arange(                   0,  len(array)      * array.dtype.itemsize, array.dtype.itemsize)
         stops  = cls.numpy.arange(array.dtype.itemsize, (len(array) + 1) * array.dtype.itemsize, array.dtype.itemsize)
         content = array.view(cls.CHARTYPE)
@@ -426,7 +465,7 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromiter(cls, iterable, encoding="utf-8"):
         if encoding is None:
-            encoded = iterable
+            encoded = list(iterable)
         else:
             encoder = codecs.getencoder(encoding)
             encoded = [encoder(x)[0] for x in iterable]
@@ -441,7 +480,7 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromoffsets(cls, offsets, content, encoding="utf-8"):
         out = cls.__new__(cls)
-        out._content = cls.JaggedArray.fget(None).fromoffsets(offsets, content)
+        out._content = cls.JaggedArray.fget(None).fromoffsets(offsets, cls._util_tochars(content))
         out._generator = tostring
         out._kwargs = {}
         out.encoding = encoding
@@ -450,16 +489,16 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromcounts(cls, counts, content, encoding="utf-8"):
         out = cls.__new__(cls)
-        out._content = cls.JaggedArray.fget(None).fromcounts(counts, content)
+        out._content = cls.JaggedArray.fget(None).fromcounts(counts, cls._util_tochars(content))
         out._generator = tostring
         out._kwargs = {}
         out.encoding = encoding
         return out
 
     @classmethod
-    def fromparents(cls, parents, content, encoding="utf-8"):
+    def fromparents(cls, parents, content, encoding="utf-8", length=None):
         out = cls.__new__(cls)
-        out._content = cls.JaggedArray.fget(None).fromparents(parents, content)
+        out._content = cls.JaggedArray.fget(None).fromparents(parents, cls._util_tochars(content), length=length)
         out._generator = tostring
         out._kwargs = {}
         out.encoding = encoding
@@ -468,7 +507,7 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromuniques(cls, uniques, content, encoding="utf-8"):
         out = cls.__new__(cls)
-        out._content = cls.JaggedArray.fget(None).fromuniques(uniques, content)
+        out._content = cls.JaggedArray.fget(None).fromuniques(uniques, cls._util_tochars(content))
         out._generator = tostring
         out._kwargs = {}
         out.encoding = encoding
@@ -567,7 +606,7 @@ class StringArray(StringMethods, ObjectArray):
 
     @content.setter
     def content(self, value):
-        self._content.content = value
+        self._content.content = self._util_tochars(value)
 
     @property
     def args(self):
@@ -604,7 +643,7 @@ class StringArray(StringMethods, ObjectArray):
 
     @property
     def index(self):
-        return self._content.index
+        return self._content.localindex
 
     def _gettype(self, seen):
         if self._encoding is None:
@@ -633,6 +672,9 @@ class StringArray(StringMethods, ObjectArray):
             out = self._content[where]
             return self.__class__(out.starts, out.stops, out.content, self.encoding)
 
+    def flattentuple(self):
+        return self
+
     def regular(self):
         self._valid()
         return self.numpy.array(self)
@@ -650,7 +692,7 @@ class StringArray(StringMethods, ObjectArray):
         if isinstance(content, awkward0.array.jagged.JaggedArray):
             return self.fromjagged(content, self._encoding)
         else:
-            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content))
+            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content), self._encoding)
 
     def pad(self, length, maskedwhen=None, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
@@ -667,14 +709,13 @@ class StringArray(StringMethods, ObjectArray):
             maskedwhen = ord(maskedwhen)
         import awkward0.array.jagged
         import awkward0.array.masked
-        padded = self._util_pad(self._content, length, True, clip)
+        padded = self._util_pad(self._content, length, True, clip, axis)
         assert isinstance(padded, awkward0.array.jagged.JaggedArray)
         assert isinstance(padded.content, awkward0.array.masked.MaskedArray)
-        if padded.content.content is self._content.content:
-            chars = padded.content.content.copy()
-        else:
-            chars = padded.content.content
-        chars[padded.content.mask] = maskedwhen
+        good = self.numpy.logical_not(padded.content.boolmask(maskedwhen=True))
+        chars = self.numpy.full(len(good), maskedwhen, dtype=self.CHARTYPE)
+        if good.any():
+            chars[good] = padded.content[good]
         padded.content = chars
         return self.fromjagged(padded, self._encoding)
 
@@ -694,14 +735,28 @@ class StringArray(StringMethods, ObjectArray):
     #     jagged = self.JaggedArray.concatenate([x._content for x in arrays], axis=axis)
     #     return self.fromjagged(jagged, self.encoding)
 
+    @classmethod
+    def _util_sameencoding(cls, arrays):
+        if all(x._encoding == arrays[0]._encoding for x in arrays):
+            return arrays
+        else:
+            return [x._recode("utf-8") for x in arrays]
+
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
+        if any((x._encoding is None) != (arrays[0]._encoding is None) for x in arrays):
+            tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
+            return cls.UnionArray.fget(None).fromtags(tags, arrays)
+        arrays = cls._util_sameencoding(arrays)
         return cls.fromjagged(cls.JaggedArray.fget(None)._concatenate_axis0([x._content for x in arrays]), encoding=arrays[0]._encoding)
 
     @classmethod
     def _concatenate_axis1(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
+        if any((x._encoding is None) != (arrays[0]._encoding is None) for x in arrays):
+            raise TypeError("cannot concatenate str and bytes with axis=1")
+        arrays = cls._util_sameencoding(arrays)
         tmp = cls.JaggedArray.fget(None)._concatenate_axis1([x._content for x in arrays])
         tmp._content = tmp._content.astype(cls.CHARTYPE)
         return cls.fromjagged(tmp, encoding=arrays[0]._encoding)
-- 
2.43.0


From a2dc6191dffaa3eb8dccfa27f5101bb5c0b27379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 055/103] fix: UnionArray with empty tags, float tags, tuple
 and column selection of mixed elements, rowname, nbytes; decoding of strings
 with any codec and non-contiguous characters

---
 awkward0/array/base.py    |  2 +-
 awkward0/array/objects.py |  6 ++---
 awkward0/array/union.py   | 48 +++++++++++++++++++++++----------------
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 3f82e8f..4d9c50f 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -617,7 +617,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
         if not all(resolve(type(x)) == resolve(type(arrays[0])) for x in arrays):
             if axis == 0:
-                tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
+                tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.INDEXTYPE) for i, x in enumerate(arrays)])
                 return cls.UnionArray.fget(None).fromtags(tags, arrays)
             else:
                 raise NotImplementedError("axis > 0 for different types")
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 2505133..febe9fd 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -383,9 +383,9 @@ class StringMethods(object):
 
 def tostring(x, decoder):
     if decoder is None:
-        return x.tostring()
+        return x.tobytes()
     else:
-        return decoder(x, errors="replace")[0]
+        return decoder(x.tobytes(), "replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
@@ -746,7 +746,7 @@ class StringArray(StringMethods, ObjectArray):
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
         if any((x._encoding is None) != (arrays[0]._encoding is None) for x in arrays):
-            tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
+            tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.INDEXTYPE) for i, x in enumerate(arrays)])
             return cls.UnionArray.fget(None).fromtags(tags, arrays)
         arrays = cls._util_sameencoding(arrays)
         return cls.fromjagged(cls.JaggedArray.fget(None)._concatenate_axis0([x._content for x in arrays]), encoding=arrays[0]._encoding)
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index d75b44a..c73f7cf 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -103,7 +103,12 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @tags.setter
     def tags(self, value):
         value = self._util_toarray(value, self.TAGTYPE, self.numpy.ndarray)
-        tagsmax = value.max()
+        if self.check_prop_valid:
+            if not self._util_isintegertype(value.dtype.type):
+                raise TypeError("tags must have integer dtype")
+            if (value < 0).any():
+                raise ValueError("tags must be a non-negative array")
+        tagsmax = value.max() if value.size > 0 else 0
         if tagsmax <= self.numpy.iinfo(self.TAGTYPE).max:
             value = value.astype(self.TAGTYPE)
         elif tagsmax <= self.numpy.iinfo(self.numpy.uint8).max:
@@ -117,13 +122,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         else:
             raise ValueError("maximum tag must be at most {0}".format(self.numpy.iinfo(self.numpy.uint64).max))
 
-        if self.check_prop_valid:
-            if len(value) == 0:
-                raise ValueError("tags must be non-empty")
-            if not self._util_isintegertype(value.dtype.type):
-                raise TypeError("tags must have integer dtype")
-            if (value < 0).any():
-                raise ValueError("tags must be a non-negative array")
         self._tags = value
         self._isvalid = False
 
@@ -231,7 +229,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             return 0
         else:
             seen.add(id(self))
-            return sum(x.nbytes if isinstance(x, self.numpy.ndarray) else x._getnbytes(seen) for x in self._contents)
+            return self._tags.nbytes + self._index.nbytes + sum(x.nbytes if isinstance(x, self.numpy.ndarray) else x._getnbytes(seen) for x in self._contents)
 
     def __len__(self):
         return len(self._tags)
@@ -258,8 +256,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._tags.shape) > len(self._index.shape):
-                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags.shape), len(self._index.shape)))
+                if len(self._tags) > len(self._index):
+                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags), len(self._index)))
 
                 if self._tags.shape[1:] != self._index.shape[1:]:
                     raise ValueError("tags dimensionality ({0}) must be equal to index dimensionality ({1})".format(self._tags.shape[1:], self._index.shape[1:]))
@@ -295,13 +293,15 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if self._util_isstringslice(where):
             contents = []
-            for tag in self.numpy.unique(self._tags):
+            tags = self.numpy.zeros(self._tags.shape, dtype=self._tags.dtype)
+            for newtag, tag in enumerate(self.numpy.unique(self._tags)):
                 contents.append(self._contents[tag][where])
+                tags[self._tags == tag] = newtag
             # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
                 return self.copy(contents=[self._contents[0][where]])
             else:
-                return self.copy(contents=contents)
+                return self.copy(tags=tags, contents=contents)
 
         if isinstance(where, tuple) and len(where) == 0:
             return self
@@ -319,8 +319,18 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                 return self._contents[0][(index,) + tail]
             elif (tags == tags[0]).all():
                 return self._contents[tags[0]][(index,) + tail]
-            else:
+            elif tail == ():
                 return self.copy(tags=tags, index=index)
+            else:
+                outtags = self.numpy.empty_like(tags)
+                outindex = self.numpy.empty_like(index)
+                contents = []
+                for newtag, tag in enumerate(self.numpy.unique(tags)):
+                    mask = (tags == tag)
+                    outtags[mask] = newtag
+                    outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
+                    contents.append(self._contents[tag][(index[mask],) + tail])
+                return self.copy(tags=outtags, index=outindex, contents=contents)
 
     def __setitem__(self, where, what):
         if what.shape[:len(self._tags.shape)] != self._tags.shape:
@@ -541,10 +551,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = None
         for content in self._contents:
             tmp = self._util_rowname_descend(content, seen)
-        if out is None:
-            out = tmp
-        elif out != tmp:
-            raise TypeError("union of multiple Tables with different names, so there is no single rowname")
+            if out is None:
+                out = tmp
+            elif out != tmp:
+                raise TypeError("union of multiple Tables with different names, so there is no single rowname")
         if out is None:
             raise TypeError("not a Table, so there is no rowname")
         else:
@@ -559,7 +569,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, UnionArray) for x in arrays)
-        tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
+        tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.INDEXTYPE) for i, x in enumerate(arrays)])
         return cls.UnionArray.fget(None).fromtags(tags, arrays)
 
     _topandas_name = "UnionSeries"
-- 
2.43.0


From a15f323b3987becaa7b780b7249ad0ecf7550900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:19 +0000
Subject: [PATCH 056/103] fix: persistence of row names, tables with fancy
 views, changed virtual arrays, shared and non-virtual VirtualArrays, dtypes
 with offsets or without buffers, declared string types, and whitelists

---
 awkward0/array/jagged.py  | 16 +++++-----
 awkward0/array/table.py   | 17 ++++++++---
 awkward0/array/union.py   |  2 +-
 awkward0/array/virtual.py | 23 ++++++++++++--
 awkward0/persist.py       | 64 ++++++++++++++++++++++++++-------------
 5 files changed, 87 insertions(+), 35 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 300eb65..b6b2b65 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -24,14 +24,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def offsetsaliased(cls, starts, stops):
-        if not hasattr(starts, "base") or starts.base is None:
+        starts_base = getattr(starts, "base", None)
+        if not isinstance(starts_base, cls.numpy.ndarray):
             starts_base = None
-        else:
-            starts_base = cls._util_toarray(starts.base, cls.INDEXTYPE)
-        if not hasattr(stops, "base") or stops.base is None:
+        stops_base = getattr(stops, "base", None)
+        if not isinstance(stops_base, cls.numpy.ndarray):
             stops_base = None
-        else:
-            stops_base = cls._util_toarray(stops.base, cls.INDEXTYPE)
         return (isinstance(starts, cls.numpy.ndarray) and isinstance(stops, cls.numpy.ndarray) and
                 len(starts.shape) == len(stops.shape) == 1 and
                 starts_base is not None and stops_base is not None and starts_base is stops_base and
@@ -311,10 +309,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def __awkward_serialize__(self, serializer):
         if self._canuseoffset() and len(self) > 0:
+            first, last = self._starts[0], self.stops[-1]
+            content = self._content
+            if isinstance(content, self.numpy.ndarray) or 0 < last - first < len(content):
+                content = content[first:last]        # (an empty slice of a ChunkedArray would not have its type)
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
+                serializer(content, "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 998d445..42875be 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -300,11 +300,12 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     @classmethod
-    def frompairs(cls, pairs, rowstart=0):
+    def frompairs(cls, pairs, rowstart=0, rowname="Row"):
         out = cls()
         for n, x in pairs:
             out[n] = x
         out._rowstart = rowstart
+        out._rowname = rowname
         return out
 
     @classmethod
@@ -382,13 +383,21 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def __awkward_serialize__(self, serializer):
         self._valid()
+        # arguments must be encoded in the order in which they will be decoded
+        view = None
+        if isinstance(self._view, self.numpy.ndarray):
+            view = serializer(self._view, "Table.view")
+
+        args = [{"json": self.rowstart}]
+        if self._rowname != "Row":
+            args.append({"json": self._rowname})
         out = serializer.encode_call(
             ["awkward0", "Table", "frompairs"],
             {"pairs": [
                 [n, serializer(x, "Table.contents")]
                 for n, x in self._contents.items()
             ]},
-            {"json": self.rowstart}
+            *args
         )
         if isinstance(self._view, tuple):
             start, step, length = self._view
@@ -402,10 +411,10 @@ class Table(awkward0.array.base.AwkwardArray):
                 out,
             )
 
-        elif isinstance(self._view, self.numpy.ndarray):
+        elif view is not None:
             out = serializer.encode_call(
                 ["awkward0", "Table", "fromview"],
-                serializer(self._view, "Table.view"),
+                view,
                 out
             )
 
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index c73f7cf..89bd874 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -69,7 +69,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         self._valid()
         for tag in self.numpy.unique(self._tags):
             mask = self._tags == tag
-            if not self.numpy.array_equal(self._index[mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
+            if not self.numpy.array_equal(self._index[:len(self._tags)][mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
                 return False
         return True
 
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae0296e..f1f45c7 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -146,12 +146,31 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 others["type"]["whitelistable"] = True
             if others:
                 out["kwargs"] = others
+
+            if self._setitem or self._delitem:
+                out = serializer.encode_call(
+                    ["awkward0", "VirtualArray", "_withchanges"],
+                    out,
+                    {"pairs": [
+                        [n, serializer(x, "VirtualArray.setitem")]
+                        for n, x in (self._setitem or {}).items()
+                    ]},
+                    serializer.encode_json(list(self._delitem or [])),
+                )
         else:
-            out = serializer(self.array, "VirtualArray.array")
-            out.pop("id")
+            array = self.array
+            out = serializer(array, "VirtualArray.array")
+            if "ref" not in out and out.pop("id", None) is not None:
+                serializer.seen.alias(array, self)
 
         return out
 
+    @classmethod
+    def _withchanges(cls, array, setitem, delitem):
+        array._setitem = OrderedDict(setitem)
+        array._delitem = list(delitem)
+        return array
+
     @property
     def generator(self):
         return self._generator
diff --git a/awkward0/persist.py b/awkward0/persist.py
index e96ccca..35c9a3c 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -63,6 +63,8 @@ def topython(string):
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in whitelist:
+        if len(obj) < len(white):
+            continue
         for n, p in zip(obj, white):
             if not fnmatch.fnmatchcase(n, p):
                 break
@@ -92,6 +94,8 @@ def dtype2json(obj):
         dt, sh = obj.subdtype
         return (dtype2json(dt), sh)
     elif obj.names is not None:
+        if obj != numpy.dtype([(n, obj[n]) for n in obj.names]):
+            return {"names": list(obj.names), "formats": [dtype2json(obj[n]) for n in obj.names], "offsets": [obj.fields[n][1] for n in obj.names], "itemsize": obj.itemsize}
         return [(n, dtype2json(obj[n])) for n in obj.names]
     else:
         return str(obj)
@@ -102,6 +106,8 @@ def json2dtype(obj):
             return tuple(recurse(x) for x in obj)
         elif isinstance(obj, (list, tuple)):
             return [recurse(x) for x in obj]
+        elif isinstance(obj, dict):
+            return dict(obj, formats=[json2dtype(x) for x in obj["formats"]])
         else:
             return obj
     return numpy.dtype(recurse(obj))
@@ -211,6 +217,9 @@ def json2type(obj, whitelist=whitelist):
             return json2dtype(obj["dtype"])
 
         elif "function" in obj:
+            for x in (bytes, str, awkward0.util.unicode):
+                if obj["function"] == [x.__module__, x.__name__]:
+                    return x
             return spec2function(obj["function"], whitelist=whitelist)
 
         else:
@@ -270,6 +279,9 @@ class ObjRef(object):
         del self._r2o[self._i2r[id(obj)]]
         del self._i2r[id(obj)]
 
+    def alias(self, obj, other):
+        self._i2r[id(obj)] = self[other]
+
     def get(self, obj, default=None):
         return self[obj] if obj in self else default
 
@@ -345,7 +357,7 @@ class Serializer(object):
             except:
                 pass
 
-        if isinstance(obj, numpy.ndarray):
+        if isinstance(obj, numpy.ndarray) and not obj.dtype.hasobject:
             return self._encode_numpy(obj, context)
 
         if hasattr(obj, "__module__") and (hasattr(obj, "__qualname__") or hasattr(obj, "__name__")) and obj.__module__ != "__main__":
@@ -464,6 +476,8 @@ class BlobSerializer(Serializer):
             comp = [{"minsize": 0, "types": object, "contexts": "*", "pair": (zlib.compress, ("zlib", "decompress"))}]
         elif not isinstance(comp, (list, tuple)):
             comp = [comp]
+        elif len(comp) == 2 and callable(comp[0]) and isinstance(comp[1], tuple) and not any(callable(x) for x in comp[1]):
+            comp = [comp]     # a single (compress, decompress) pair
 
         return list(map(cls.CompressPolicy.parse, comp))
 
@@ -484,16 +498,28 @@ class BlobSerializer(Serializer):
         else:
             dtype = obj.dtype
 
+        if dtype.itemsize == 0:
+            return self.encode_call(["awkward0.persist", "_zerosize"], self(dtype), self(obj.shape[0]))
+
+        raw = obj.ravel()
+        try:
+            memoryview(raw)
+        except ValueError:
+            raw = raw.view(numpy.uint8)       # not all dtypes can be exported as buffers
+
         buf = None
         for policy in self._parse_compression(self.compression):
             if policy.test(obj, context):
-                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(obj.ravel()), ref=obj))
+                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(raw), ref=obj))
                 break
         else:
-            buf = self._put_raw(obj.ravel(), ref=obj)
+            buf = self._put_raw(raw, ref=obj)
 
         return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self(obj.shape[0]))
 
+def _zerosize(dtype, length):
+    return numpy.empty(length, dtype=dtype)
+
 def serialize(obj, storage, name="", delimiter="-", **kwargs):
     if delimiter is None:
         delimiter = ""
@@ -519,7 +545,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
         seen = ObjRef()
 
     if isinstance(whitelist, str):
-        whitelist = [whitelist]
+        whitelist = [[whitelist]]
     elif len(whitelist) > 0 and isinstance(whitelist[0], str):
         whitelist = [whitelist]
 
@@ -567,7 +593,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = schema["json"]
 
             elif "python" in schema:
-                out = topython(schema["python"])
+                out = spec2function(["awkward0.persist", "topython"], whitelist=whitelist)(schema["python"])
 
             elif "ref" in schema:
                 out = seen.obj(schema["ref"])
@@ -736,21 +762,18 @@ class Load(Mapping):
 
     def __iter__(self):
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
-                yield n[:-5]
+            if n.endswith(self.schemasuffix):
+                yield n[:len(n) - len(self.schemasuffix)]
 
     def __len__(self):
-        count = 0
-        for n in self._file.f.namelist():
-            if n.endswith(".json"):
-                count += 1
-        return count
+        return sum(1 for n in self)
 
     def __repr__(self):
         return "<awkward0.load ({0} members)>".format(len(self))
 
     def close(self):
-        self._file.f.close()
+        if hasattr(self, "_file"):
+            self._file.f.close()
 
     def __del__(self):
         self.close()
@@ -791,7 +814,11 @@ class hdf5(MutableMapping):
         if "cache" in options:
             del options["cache"]
         self._group.g.create_group(where)
-        serialize(what, self._group, name=where, **options)
+        try:
+            serialize(what, self._group, name=where, **options)
+        except Exception:
+            del self._group.g[where]
+            raise
 
     def __delitem__(self, where):
         for subname in keys(self._group, name=where + self.options["schemasuffix"]):
@@ -801,16 +828,11 @@ class hdf5(MutableMapping):
     def __iter__(self):
         schemaname = self.options["schemasuffix"].split("/")[-1]
         for subname in self._group.g:
-            if schemaname in self._group.g[subname]:
+            if hasattr(self._group.g[subname], "keys") and schemaname in self._group.g[subname]:
                 yield subname
 
     def __len__(self):
-        schemaname = self.options["schemasuffix"].split("/")[-1]
-        count = 0
-        for subname in self._group.g:
-            if schemaname in self._group.g[subname]:
-                count += 1
-        return count
+        return sum(1 for n in self)
 
     def __repr__(self):
         return "<awkward0.hdf5 {0} ({1} members)>".format(repr(self._group.g.name), len(self))
-- 
2.43.0


From 5cff98ec677a656e11cc90fd9d94be1fa0bfb7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 057/103] fix: Arrow conversions of sliced, nested, masked,
 union and chunked arrays, and types of Arrow schemas

---
 awkward0/arrow.py | 359 ++++++++++++++++++++--------------------------
 1 file changed, 159 insertions(+), 200 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3a7d08b..627c1bc 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -20,12 +20,30 @@ import awkward0.util
 
 ################################################################################ type conversions
 
+def _primitive(tpe):
+    # the Numpy dtype of a fixed-width Arrow type
+    import pyarrow.types
+    if pyarrow.types.is_timestamp(tpe):
+        return numpy.dtype("M8[{0}]".format(tpe.unit))
+    elif pyarrow.types.is_duration(tpe):
+        return numpy.dtype("m8[{0}]".format(tpe.unit))
+    elif pyarrow.types.is_date32(tpe):
+        return numpy.dtype("M8[D]")
+    elif pyarrow.types.is_date64(tpe):
+        return numpy.dtype("M8[ms]")
+    elif pyarrow.types.is_integer(tpe) or pyarrow.types.is_floating(tpe):
+        return numpy.dtype(tpe.to_pandas_dtype())
+    elif pyarrow.types.is_null(tpe):
+        return awkward0.array.base.AwkwardArray.DEFAULTTYPE
+    else:
+        raise NotImplementedError(repr(tpe))
+
 def schema2type(schema):
     import pyarrow
 
     def recurse(tpe, nullable):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
-            out = recurse(tpe.dictionary.type, nullable)
+            out = recurse(tpe.value_type, False)
             if nullable:
                 return awkward0.type.OptionType(out)
             else:
@@ -33,7 +51,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.StructType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(tpe.num_fields):
                 x = awkward0.type.ArrayType(tpe[i].name, recurse(tpe[i].type, tpe[i].nullable))
                 if out is None:
                     out = x
@@ -44,8 +62,8 @@ def schema2type(schema):
             else:
                 return out
 
-        elif isinstance(tpe, pyarrow.lib.ListType):
-            out = awkward0.type.ArrayType(float("inf"), recurse(tpe.value_type, nullable))
+        elif isinstance(tpe, (pyarrow.lib.ListType, pyarrow.lib.LargeListType)):
+            out = awkward0.type.ArrayType(float("inf"), recurse(tpe.value_type, tpe.value_field.nullable))
             if nullable:
                 return awkward0.type.OptionType(out)
             else:
@@ -53,7 +71,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.UnionType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(tpe.num_fields):
                 x = recurse(tpe[i].type, nullable)
                 if out is None:
                     out = x
@@ -64,13 +82,13 @@ def schema2type(schema):
             else:
                 return out
 
-        elif tpe == pyarrow.string():
+        elif tpe == pyarrow.string() or tpe == pyarrow.large_string():
             if nullable:
                 return awkward0.type.OptionType(str)
             else:
                 return str
 
-        elif tpe == pyarrow.binary():
+        elif tpe == pyarrow.binary() or tpe == pyarrow.large_binary():
             if nullable:
                 return awkward0.type.OptionType(bytes)
             else:
@@ -84,10 +102,11 @@ def schema2type(schema):
                 return out
 
         elif isinstance(tpe, pyarrow.lib.DataType):
+            out = _primitive(tpe)
             if nullable:
-                return awkward0.type.OptionType(tpe.to_pandas_dtype())
+                return awkward0.type.OptionType(out)
             else:
-                return tpe.to_pandas_dtype()
+                return out
 
         else:
             raise NotImplementedError(repr(tpe))
@@ -105,10 +124,44 @@ def schema2type(schema):
 
 ################################################################################ value conversions
 
+def _chunks(obj):
+    # the part of each chunk that belongs to a ChunkedArray (AppendableArrays have unused space), without the empty ones
+    empty = None
+    some = False
+    for i, chunk in enumerate(obj.chunks):
+        obj.knowchunksizes(i + 1)
+        if len(chunk) != obj.chunksizes[i]:
+            chunk = chunk[:obj.chunksizes[i]]
+        if len(chunk) != 0:
+            some = True
+            yield chunk
+        elif empty is None:
+            empty = chunk
+    if not some and empty is not None:
+        yield empty
+
 # we need an opt-out of the large indices in certain cases, otherwise use by default
 def toarrow(obj):
     import pyarrow
 
+    def unmasked(obj):
+        # content for each position of an IndexedMaskedArray, with anything at the masked ones
+        if len(obj.content) == 0:
+            return obj.numpy.zeros(len(obj.mask), dtype=obj.DEFAULTTYPE)
+        else:
+            return obj.content[obj.numpy.where(obj.mask == obj.maskedwhen, 0, obj.mask)]
+
+    def compact(obj):
+        # all of the content is used, in order
+        offsets = obj.counts2offsets(obj.counts)
+        obj = obj.compact()
+        start = obj.offsets[0]
+        return obj.fromoffsets(offsets, obj.content[start : start + offsets[-1]])
+
+    def columns(obj):
+        # a Table might be a view of its contents, and might have contents longer than the Table
+        return [obj[n][:len(obj)] for n in obj.columns]
+
     def recurse(obj, mask):
         if isinstance(obj, numpy.ndarray):
             return pyarrow.array(obj, mask=mask)
@@ -126,9 +179,9 @@ def toarrow(obj):
             return recurse(obj.dense, mask)
 
         elif isinstance(obj, awkward0.array.jagged.JaggedArray):
-            obj = obj.compact()
+            obj = compact(obj)
             if mask is not None:
-                mask = obj.tojagged(mask).flatten()
+                mask = obj.numpy.repeat(mask, obj.counts)
             arrow_type = pyarrow.ListArray
             # 64bit offsets not yet completely golden in arrow
             # if hasattr(pyarrow, 'LargeListArray') and obj.starts.itemsize > 4:
@@ -139,17 +192,13 @@ def toarrow(obj):
             thismask = obj.boolmask(maskedwhen=True)
             if mask is not None:
                 thismask = mask | thismask
-            if len(obj.content) == 0:
-                content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
-            else:
-                content = obj.content[obj.mask]
-            return recurse(content, thismask)
+            return recurse(unmasked(obj), thismask)
 
         elif isinstance(obj, awkward0.array.masked.MaskedArray):   # includes BitMaskedArray
             thismask = obj.boolmask(maskedwhen=True)
             if mask is not None:
                 thismask = mask | thismask
-            return recurse(obj.content, thismask)
+            return recurse(obj.content[:len(thismask)], thismask)
 
         elif isinstance(obj, awkward0.array.objects.StringArray):
             if obj.encoding is None and hasattr(pyarrow.BinaryArray, 'from_buffers'):
@@ -159,41 +208,48 @@ def toarrow(obj):
                 # if hasattr(pyarrow, 'LargeBinaryArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
-                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [None, offsets, content])
+                convert = lambda length, offsets, content, valid: arrow_type.from_buffers(arrow_offset_type, length, [valid, offsets, content])
             elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content)
+                convert = lambda length, offsets, content, valid: arrow_type.from_buffers(length, offsets, content, valid)
             else:
                 raise ValueError("only encoding=None or encoding='utf-8' can be converted to Arrow")
 
-            obj = obj.compact()
+            obj = compact(obj._content)
             offsets = obj.offsets
             if offsets.dtype != numpy.dtype(numpy.int32):
                 offsets = offsets.astype(numpy.int32)
 
-            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(obj.content))
+            valid = None
+            if mask is not None:
+                valid = pyarrow.py_buffer(awkward0.array.masked.BitMaskedArray.bool2bit(~mask, lsborder=True))
+
+            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(numpy.ascontiguousarray(obj.content)), valid)
 
         elif isinstance(obj, awkward0.array.objects.ObjectArray):
             # throw away Python object interpretation, which Arrow can't handle while being multilingual
             return recurse(obj.content, mask)
 
         elif isinstance(obj, awkward0.array.table.Table):
-            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in obj.contents.values()], list(obj.contents))
+            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in columns(obj)], obj.columns)
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
+            index = obj.numpy.empty(len(obj.tags), dtype=numpy.int32)
             contents = []
             for i, x in enumerate(obj.contents):
-                if mask is None:
-                    thismask = None
+                these = (obj.tags == i)
+                where = obj.index[:len(obj.tags)][these]
+                if mask is None and (where[1:] >= where[:-1]).all():
+                    index[these] = where
+                    contents.append(recurse(x, None))
                 else:
-                    thistags = (obj.tags == i)
-                    thismask = obj.numpy.empty(len(x), dtype=obj.MASKTYPE)
-                    thismask[obj.index[thistags]] = mask[thistags]    # hmm... obj.index could have repeats; the Arrow mask in that case would not be well-defined...
-                contents.append(recurse(x, thismask))
+                    # Arrow's offsets have to be in order and an element used more than once might be masked only once
+                    index[these] = obj.numpy.arange(len(where))
+                    contents.append(recurse(x[where], None if mask is None else mask[these]))
 
-            return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(obj.index.astype(numpy.int32)), contents)
+            return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(index), contents)
 
         elif isinstance(obj, awkward0.array.virtual.VirtualArray):
             return recurse(obj.array, mask)
@@ -201,30 +257,37 @@ def toarrow(obj):
         else:
             raise TypeError("cannot convert type {0} to Arrow".format(type(obj)))
 
+    while isinstance(obj, awkward0.array.virtual.VirtualArray):
+        obj = obj.array
+
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):   # includes AppendableArray
         batches = []
-        for chunk in obj.chunks:
+        schema = None
+        for chunk in _chunks(obj):
             arr = toarrow(chunk)
             if isinstance(arr, pyarrow.Table):
                 batches.extend(arr.to_batches())
             else:
                 batches.append(pyarrow.RecordBatch.from_arrays([arr], [""]))
-        return pyarrow.Table.from_batches(batches)
+                arr = batches[-1]
+            if schema is None:
+                schema = arr.schema
+        return pyarrow.Table.from_batches(batches, schema)
 
     elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
         mask = obj.boolmask(maskedwhen=True)
         if len(obj.content) == 0:
-            content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
-        else:
-            content = obj.content[obj.mask]
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+            return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj.numpy.zeros(len(mask), dtype=obj.DEFAULTTYPE), mask) for n in obj.content.columns], obj.content.columns)])
+        content = unmasked(obj)
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in columns(content)], content.columns)])
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
         mask = obj.boolmask(maskedwhen=True)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        content = obj.content[:len(mask)]
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in columns(content)], content.columns)])
 
     elif isinstance(obj, awkward0.array.table.Table):
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in obj.contents.values()], list(obj.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in columns(obj)], obj.columns)])
 
     else:
         return recurse(obj, None)
@@ -232,203 +295,94 @@ def toarrow(obj):
 def fromarrow(obj):
     import pyarrow
     awkwardlib = awkward0
-    ARROW_BITMASKTYPE = awkwardlib.numpy.uint8
     ARROW_INDEXTYPE = awkwardlib.numpy.int32
     ARROW_LARGEINDEXTYPE = awkwardlib.numpy.int64
     ARROW_TAGTYPE = awkwardlib.numpy.uint8
     ARROW_CHARTYPE = awkwardlib.numpy.uint8
 
-    def popbuffers(array, tpe, buffers, length):
+    def recurse(array):
+        tpe, length, offset = array.type, len(array), array.offset
+
         if isinstance(tpe, pyarrow.lib.DictionaryType):
-            index = popbuffers(None if array is None else array.indices, tpe.index_type, buffers, length)
-            if hasattr(tpe, "dictionary"):
-                content = fromarrow(tpe.dictionary)
-            elif array is not None:
-                content = fromarrow(array.dictionary)
-            else:
-                raise NotImplementedError("no way to access Arrow dictionary inside of UnionArray")
+            index = recurse(array.indices)
+            content = recurse(array.dictionary)
             if isinstance(index, awkwardlib.BitMaskedArray):
-                return awkwardlib.BitMaskedArray(index.mask, awkwardlib.IndexedArray(index.content, content), maskedwhen=index.maskedwhen, lsborder=index.lsborder)
+                missing = index.boolmask(maskedwhen=True)
+                if len(content) == 0:
+                    return awkwardlib.IndexedMaskedArray(awkwardlib.numpy.full(length, -1, dtype=ARROW_INDEXTYPE), content)
+                return awkwardlib.BitMaskedArray(index.mask, awkwardlib.IndexedArray(awkwardlib.numpy.where(missing, 0, index.content), content), maskedwhen=index.maskedwhen, lsborder=index.lsborder)
             else:
                 return awkwardlib.IndexedArray(index, content)
 
-        elif isinstance(tpe, pyarrow.lib.StructType):
-            assert getattr(tpe, "num_buffers", 1) == 1
-            mask = buffers.pop(0)
-            pairs = []
-            for i in range(tpe.num_children):
-                pairs.append((tpe[i].name, popbuffers(None if array is None else array.field(tpe[i].name), tpe[i].type, buffers, length)))
-            out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
-
-        elif isinstance(tpe, pyarrow.lib.ListType):
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = popbuffers(None if array is None else array.flatten(), tpe.value_type, buffers, offsets[-1])
-            out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
-
-        elif hasattr(pyarrow.lib, 'LargeListType') and isinstance(tpe, pyarrow.lib.LargeListType):
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = popbuffers(None if array is None else array.flatten(), tpe.value_type, buffers, offsets[-1])
-            out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
-
-        elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "sparse":
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
-            assert buffers.pop(0) is None
-            index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
-            contents = []
-            for i in range(tpe.num_children):
-                try:
-                    sublength = index[tags == i][-1] + 1
-                except IndexError:
-                    sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
-            for i in range(len(contents)):
-                these = index[tags == i]
-                if len(these) == 0:
-                    contents[i] = contents[i][0:0]
-                else:
-                    contents[i] = contents[i][: these[-1] + 1]
-            out = awkwardlib.UnionArray(tags, index, contents)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        buffers = array.buffers()
 
-        elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "dense":
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
-            index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
-            contents = []
-            for i in range(tpe.num_children):
-                try:
-                    sublength = index[tags == i].max() + 1
-                except ValueError:
-                    sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
-            for i in range(len(contents)):
-                these = index[tags == i]
-                if len(these) == 0:
-                    contents[i] = contents[i][0:0]
-                else:
-                    contents[i] = contents[i][: these.max() + 1]
-            out = awkwardlib.UnionArray(tags, index, contents)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        def values(which, dtype, length, offset=0):
+            dtype = awkwardlib.numpy.dtype(dtype)
+            if buffers[which] is None or length == 0:
+                return awkwardlib.numpy.zeros(length, dtype=dtype)
+            return awkwardlib.numpy.frombuffer(buffers[which], dtype=dtype, count=offset + length)[offset:]
 
-        elif tpe == pyarrow.string():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding="utf-8")
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
+        def masked(out):
+            if buffers[0] is None:
                 return out
+            mask = awkwardlib.numpy.frombuffer(buffers[0], dtype=awkwardlib.BitMaskedArray.BITMASKTYPE)
+            if offset != 0:
+                mask = awkwardlib.BitMaskedArray.bool2bit(awkwardlib.BitMaskedArray.bit2bool(mask, lsborder=True)[offset:offset + length], lsborder=True)
+            return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
 
-        elif tpe == pyarrow.large_string():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding="utf-8")
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        if isinstance(tpe, pyarrow.lib.StructType):
+            return masked(awkwardlib.Table.frompairs([(tpe[i].name, recurse(array.field(i))) for i in range(tpe.num_fields)], 0))   # FIXME: better rowstart
 
-        elif tpe == pyarrow.binary():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding=None)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        elif isinstance(tpe, (pyarrow.lib.ListType, pyarrow.lib.LargeListType)):
+            offsets = values(1, ARROW_INDEXTYPE if isinstance(tpe, pyarrow.lib.ListType) else ARROW_LARGEINDEXTYPE, length + 1, offset)
+            return masked(awkwardlib.JaggedArray.fromoffsets(offsets, recurse(array.values)))
 
-        elif tpe == pyarrow.large_binary():
-            assert getattr(tpe, "num_buffers", 3) == 3
-            mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
-            out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding=None)
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
+        elif isinstance(tpe, pyarrow.lib.UnionType):
+            tags = values(1, ARROW_TAGTYPE, length, offset)
+            if tpe.mode == "sparse":
+                index = awkwardlib.numpy.arange(length, dtype=ARROW_INDEXTYPE)
             else:
-                return out
+                index = values(2, ARROW_INDEXTYPE, length, offset)
+            if list(tpe.type_codes) != list(range(tpe.num_fields)):
+                codes, tags = tags, awkwardlib.numpy.empty_like(tags)
+                for i, code in enumerate(tpe.type_codes):
+                    tags[codes == code] = i
+            return masked(awkwardlib.UnionArray(tags, index, [recurse(array.field(i)) for i in range(tpe.num_fields)]))
+
+        elif tpe in (pyarrow.string(), pyarrow.large_string(), pyarrow.binary(), pyarrow.large_binary()):
+            offsets = values(1, ARROW_INDEXTYPE if tpe in (pyarrow.string(), pyarrow.binary()) else ARROW_LARGEINDEXTYPE, length + 1, offset)
+            content = values(2, ARROW_CHARTYPE, offsets[-1])
+            return masked(awkwardlib.StringArray.fromoffsets(offsets, content, encoding="utf-8" if tpe in (pyarrow.string(), pyarrow.large_string()) else None))
 
         elif tpe == pyarrow.bool_():
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            out = awkwardlib.numpy.unpackbits(awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)).view(awkwardlib.MaskedArray.BOOLTYPE)
-            out = out.reshape(-1, 8)[:,::-1].reshape(-1)[:length]    # lsborder=True
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+            out = awkwardlib.numpy.unpackbits(values(1, ARROW_CHARTYPE, (offset + length + 7) // 8)).view(awkwardlib.MaskedArray.BOOLTYPE)
+            return masked(out.reshape(-1, 8)[:,::-1].reshape(-1)[offset:offset + length])    # lsborder=True
 
-        elif isinstance(tpe, pyarrow.lib.DataType):
-            assert getattr(tpe, "num_buffers", 2) == 2
-            mask = buffers.pop(0)
-            out = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=tpe.to_pandas_dtype())[:length]
-            if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-                return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-            else:
-                return out
+        elif tpe == pyarrow.null():
+            return awkwardlib.MaskedArray(awkwardlib.numpy.ones(length, dtype=awkwardlib.MaskedArray.MASKTYPE), awkwardlib.numpy.zeros(length, dtype=_primitive(tpe)), maskedwhen=True)
+
+        elif tpe == pyarrow.date32():
+            return masked(values(1, awkwardlib.numpy.int32, length, offset).astype(_primitive(tpe)))
 
         else:
-            raise NotImplementedError(repr(tpe))
+            return masked(values(1, _primitive(tpe), length, offset))
 
     if isinstance(obj, pyarrow.lib.Array):
-        buffers = obj.buffers()
-        out = popbuffers(obj, obj.type, buffers, len(obj))
-        assert len(buffers) == 0
-        return out
+        return recurse(obj)
 
     elif isinstance(obj, pyarrow.lib.ChunkedArray):
         chunks = [x for x in obj.chunks if len(x) > 0]
         if len(chunks) == 1:
             return fromarrow(chunks[0])
+        elif len(chunks) == 0:
+            return fromarrow(pyarrow.nulls(0, type=obj.type))
         else:
             return awkwardlib.ChunkedArray([fromarrow(x) for x in chunks], chunksizes=[len(x) for x in chunks])
 
     elif isinstance(obj, pyarrow.lib.RecordBatch):
         out = awkwardlib.Table()
         for n, x in zip(obj.schema.names, obj.columns):
-            out[n] = fromarrow(x)
+            out[n] = recurse(x)
         return out
 
     elif isinstance(obj, pyarrow.lib.Table):
@@ -441,6 +395,8 @@ def fromarrow(obj):
                 chunksizes.append(len(chunk))
         if len(chunks) == 1:
             return chunks[0]
+        elif len(chunks) == 0:
+            return fromarrow(pyarrow.RecordBatch.from_arrays([pyarrow.nulls(0, type=x.type) for x in obj.schema], schema=obj.schema))
         else:
             return awkwardlib.ChunkedArray(chunks, chunksizes=chunksizes)
 
@@ -454,6 +410,9 @@ def toparquet(where, obj, **options):
 
     options["where"] = where
 
+    while isinstance(obj, awkward0.array.virtual.VirtualArray):
+        obj = obj.array
+
     def convert(obj, message):
         if isinstance(obj, (awkward0.array.base.AwkwardArray, numpy.ndarray)):
             out = toarrow(obj)
@@ -465,7 +424,7 @@ def toparquet(where, obj, **options):
             raise TypeError(message)
 
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):
-        obj = iter(obj.chunks)
+        obj = _chunks(obj)
         try:
             awkitem = next(obj)
         except StopIteration:
-- 
2.43.0


From 13111a940553c6bf3aba09c1911ab93084c9581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 058/103] fix: type equality of nested rewritten types and of
 dtypes with arrays of them, hashes agree with equality, printing an empty
 table type

---
 awkward0/type.py | 75 +++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 19fa14c..5500e54 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -138,7 +138,20 @@ class Type(object):
 
     @staticmethod
     def _canonical(x, seen):
-        if id(x) not in seen:
+        # modifies x (a copy) in place, innermost types first; seen keeps the types it replaces alive
+        if isinstance(x, Type) and id(x) not in seen:
+            seen[id(x)] = x
+            if isinstance(x, ArrayType):
+                Type._canonical(x._to, seen)
+            elif isinstance(x, TableType):
+                for y in x._fields.values():
+                    Type._canonical(y, seen)
+            elif isinstance(x, UnionType):
+                for y in x._possibilities:
+                    Type._canonical(y, seen)
+            elif isinstance(x, OptionType):
+                Type._canonical(x._type, seen)
+
             # apply string-integer commutation so that TableTypes are nested as deeply as possible
             if isinstance(x, TableType) and len(x._fields) > 0 and all(isinstance(y, ArrayType) for y in x._fields.values()):
                 newtable = TableType.__new__(TableType)
@@ -147,13 +160,13 @@ class Type(object):
                 for n, y in x._fields.items():
                     if first is None:
                         first = y._takes
-                    elif first != y._takes or math.isinf(y._takes):
+                    if first != y._takes or math.isinf(y._takes):
                         break
                     newtable._fields[n] = y._to
                 else:
-                    x = ArrayType.__new__(ArrayType)
+                    x.__class__ = ArrayType
                     x._takes = first
-                    x._to = newtable
+                    x._to = Type._canonical(newtable, seen)
 
             # apply union(X, union(Y)) == union(X, Y)
             if isinstance(x, UnionType) and any(isinstance(y, UnionType) for y in x._possibilities):
@@ -163,24 +176,11 @@ class Type(object):
                         possibilities.extend(y._possibilities)
                     else:
                         possibilities.append(y)
-                x = UnionType.__new__(UnionType)
                 x._possibilities = possibilities
 
             # apply optional(optional(X)) == optional(X)
             if isinstance(x, OptionType) and isinstance(x._type, OptionType):
-                x = x._type
-
-            seen.add(id(x))
-            if isinstance(x, ArrayType):
-                x._to = Type._canonical(x._to, seen)
-            elif isinstance(x, TableType):
-                for n in x._fields:
-                    x._fields[n] = Type._canonical(x._fields[n], seen)
-            elif isinstance(x, UnionType):
-                for i in range(len(x._possibilities)):
-                    x._possibilities[i] = Type._canonical(x._possibilities[i], seen)
-            elif isinstance(x, OptionType):
-                x._type = Type._canonical(x._type, seen)
+                x._type = x._type._type
 
         return x
 
@@ -188,17 +188,32 @@ class Type(object):
         if not isinstance(other, Type):
             return False
         else:
-            one = Type._canonical(Type._copy(self, {}), set())
-            two = Type._canonical(Type._copy(other, {}), set())
+            one = Type._canonical(Type._copy(self, {}), {})
+            two = Type._canonical(Type._copy(other, {}), {})
             return one._eq(two, set(), ignoremask=False)
 
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        # only to a limited depth, so that recursive types have a hash that doesn't depend on where they start to repeat
+        return Type._canonical(Type._copy(self, {}), {})._hash(5)
+
+    @staticmethod
+    def _hash2(x, depth):
+        if isinstance(x, Type):
+            return x._hash(depth - 1) if depth > 0 else 0
+        elif callable(x):
+            return 1
+        else:
+            return hash(x)
+
     @staticmethod
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
             return one._eq(two, seen, ignoremask=ignoremask)
+        elif isinstance(two, Type):
+            return False       # a dtype would be equal to anything with that dtype
         elif one == two:
             return True
         elif callable(one) and callable(two):
@@ -342,14 +357,14 @@ class ArrayType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((ArrayType, self._takes, self._to))
+    def _hash(self, depth):
+        return hash((ArrayType, self._takes, self._hash2(self._to, depth)))
 
 class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
         for n, x in fields.items():
-            self._fields[n] = x
+            self[n] = x
 
     @property
     def shape(self):
@@ -409,7 +424,7 @@ class TableType(Type):
         return "TableType({0})".format(", ".join("{0}={1}".format(n, x._repr(labeled, seen) if isinstance(x, Type) else repr(x)) for n, x in self._fields.items()))
 
     def _substr(self, labeled, seen, indent):
-        width = max(len(repr(n)) for n in self._fields.keys())
+        width = max([0] + [len(repr(n)) for n in self._fields.keys()])
         subindent = indent + (" " * width) + "    "
         out = []
         for n, x in self._fields.items():
@@ -438,8 +453,8 @@ class TableType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((TableType, tuple((n, self._fields[n]) for n in sorted(self._fields))))
+    def _hash(self, depth):
+        return hash((TableType, tuple((n, self._hash2(self._fields[n], depth)) for n in sorted(self._fields))))
 
 class UnionType(Type):
     def __init__(self, *possibilities):
@@ -527,8 +542,8 @@ class UnionType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((UnionType, tuple(self._possibilities)))
+    def _hash(self, depth):
+        return hash((UnionType, tuple(sorted(self._hash2(x, depth) for x in self._possibilities))))
 
 class OptionType(Type):
     def __init__(self, type):
@@ -610,8 +625,8 @@ class OptionType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((OptionType, self._type))
+    def _hash(self, depth):
+        return hash((OptionType, self._hash2(self._type, depth)))
 
 ###############################################################################
 
-- 
2.43.0


From e144e820e429614586007f68d3241b47b03a8e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 059/103] fix: assigning to sparse arrays hung, deep copies of
 strings and chunked arrays shared buffers

---
 awkward0/array/chunked.py | 1 +
 awkward0/array/indexed.py | 4 ++--
 awkward0/array/objects.py | 4 +---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3e5f374..8b5bfce 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -33,6 +33,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
         out._chunks = [self._util_deepcopy(x) for x in out._chunks]
+        out._offsets = None
         return out
 
     def _mine(self, overrides):
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index e81b5c7..d57baca 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -637,13 +637,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign array of length {0} to sparse table of length {1}".format(len(what), self._length))
 
         test = what[self.boolmask(maskedwhen=False)].any()
-        while not isinstance(test, bool):
+        while not isinstance(test, (bool, self.numpy.bool_)):
             test = test.any()
 
         if test:
             raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
 
-        return IndexedArray(self._inverse, what)
+        return what[self._index]
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index febe9fd..a4fafed 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -543,9 +543,7 @@ class StringArray(StringMethods, ObjectArray):
 
     def deepcopy(self, starts=None, stops=None, content=None, encoding=None):
         out = self.copy(starts=starts, stops=stops, content=content, encoding=encoding)
-        out._content._starts = self._util_deepcopy(out._content._starts)
-        out._content._stops = self._util_deepcopy(out._content._stops)
-        out._content._content = self._util_deepcopy(out._content._content)
+        out._content = self._util_deepcopy(out._content)
         return out
 
     def empty_like(self, **overrides):
-- 
2.43.0


From 315f25102b08956a66081a07f82e127bdef55d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 060/103] fix: concatenation of masked arrays of several kinds,
 views of tables, object arrays, narrow indexes, appendable arrays, and unlike
 contents along axis 1

---
 awkward0/array/base.py    |  2 +-
 awkward0/array/chunked.py |  9 +++++++--
 awkward0/array/indexed.py |  2 +-
 awkward0/array/jagged.py  | 21 +++++++++++++++------
 awkward0/array/masked.py  | 10 ++++++++--
 awkward0/array/objects.py |  9 +++++++--
 awkward0/array/table.py   | 11 +++--------
 7 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 4d9c50f..b9efaae 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -591,7 +591,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if all(isinstance(x, cls.numpy.ndarray) for x in arrays):
             return cls.numpy.concatenate(arrays)
         else:
-            return arrays[0].concatenate(arrays[1:])
+            return AwkwardArray.concatenate(arrays, axis=0)
 
     @bothmethod
     def concatenate(isclassmethod, cls_or_self, arrays, axis=0):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8b5bfce..87c3ba8 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -828,8 +828,13 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             chunksizes = [y for x in arrays for y in x._chunksizes]
         else:
             chunksizes = []
-        chunks = [y for x in arrays for y in x._chunks]
-        return cls(chunks, chunksizes)
+        chunks = []
+        for x in arrays:
+            if isinstance(x, AppendableArray):
+                chunks.extend(y[:n] for y, n in zip(x._chunks, x._chunksizes))   # the last chunk is not full
+            else:
+                chunks.extend(x._chunks)
+        return cls.ChunkedArray.fget(None)(chunks, chunksizes)
 
     _topandas_name = "ChunkedSeries"
 
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index d57baca..7c39aa3 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -274,7 +274,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         indexes = []
         offset = 0
         for x in arrays:
-            indexes.append(x._index + offset)
+            indexes.append(x._index.astype(cls.INDEXTYPE) + offset)
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index b6b2b65..0f22699 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1574,8 +1574,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-        starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x.stops for x in arrays])
+        starts = cls.numpy.concatenate([x._starts.astype(cls.INDEXTYPE) for x in arrays])
+        stops = cls.numpy.concatenate([x.stops[:len(x._starts)].astype(cls.INDEXTYPE) for x in arrays])
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
@@ -1610,7 +1610,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             results = {}
             for n in flatarrays[0].columns:
                 results[n] = cls._concatenate_axis1([a[n] for a in arrays])
-            return cls.zip(results)
+            out = cls.zip(results)
+            out._content._rowname = flatarrays[0]._rowname
+            return out
 
         # the first step is to get the starts and stops for the stacked structure
         counts = np.vstack([a.counts for a in arrays])
@@ -1619,7 +1621,6 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         starts, stops = offsets[:-1], offsets[1:]
 
         n_content = sum([len(a) for a in flatarrays])
-        content_type = type(flatarrays[0])
 
         # get masks for each of the arrays so we can fill the stacked content array at the right indices
         def get_mask(array_index):
@@ -1644,12 +1645,18 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             dtype = np.dtype(bool) if allbools else dtype
             return dtype
 
-        if content_type == np.ndarray:
+        def flatnumbers(x):
+            return isinstance(x, np.ndarray) and len(x.shape) == 1
+
+        def samegenerator(x, y):
+            return type(x) is type(y) and x._generator == y._generator and x._args == y._args and x._kwargs == y._kwargs
+
+        if all(flatnumbers(a) for a in flatarrays):
             content = np.zeros(n_content, dtype=get_dtype(flatarrays))
             for i in range(n_arrays):
                 content[get_mask(i)] = flatarrays[i]
 
-        elif issubclass(type(flatarrays[0]), awkward0.array.objects.ObjectArray) and isinstance(flatarrays[0]._content, awkward0.array.table.Table):
+        elif all(isinstance(a, awkward0.array.objects.ObjectArray) and isinstance(a._content, awkward0.array.table.Table) and samegenerator(a, flatarrays[0]) for a in flatarrays):
             tablecontent = OrderedDict()
             tables = [a._content for a in flatarrays]
 
@@ -1657,6 +1664,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             for i in range(len(tables) - 1):
                 if set(tables[i]._contents) != set(tables[i+1]._contents):
                     raise ValueError("cannot concatenate Tables with different fields")
+            if not all(flatnumbers(t[n]) for t in tables for n in t._contents):
+                raise NotImplementedError("concatenate with axis=1 is not implemented for these types")
 
             # create empty arrays  for each column with the most general dtype
             for n in tables[0]._contents:
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index efa582e..bbbba13 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -356,6 +356,8 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, MaskedArray) for x in arrays)
+        if any(isinstance(x, IndexedMaskedArray) for x in arrays):
+            return cls.IndexedMaskedArray.fget(None)._concatenate_axis0(arrays)
         mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
         content = awkward0.array.base.AwkwardArray.concatenate([x._content[:len(x)] for x in arrays])
         return cls(mask, content, maskedwhen=True)
@@ -866,12 +868,16 @@ class IndexedMaskedArray(MaskedArray):
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-        assert all(isinstance(x, IndexedMaskedArray) for x in arrays)
+        assert all(isinstance(x, MaskedArray) for x in arrays)
 
         indexes = []
         offset = 0
         for x in arrays:
-            indexes.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, x._mask + offset))
+            if isinstance(x, IndexedMaskedArray):
+                index = x._mask.astype(cls.INDEXTYPE)
+            else:
+                index = cls.numpy.arange(len(x), dtype=cls.INDEXTYPE)
+            indexes.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, index + offset))
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index a4fafed..801e00a 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -282,8 +282,13 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-        out = arrays[0].copy(content=[])
-        out._content = arrays[0]._content.__class__.concatenate([a._content for a in arrays])
+        assert all(isinstance(x, ObjectArray) for x in arrays)
+        first = arrays[0]
+        if any(x._generator != first._generator or x._args != first._args or x._kwargs != first._kwargs for x in arrays):
+            tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.INDEXTYPE) for i, x in enumerate(arrays)])
+            return cls.UnionArray.fget(None).fromtags(tags, arrays)
+        out = first.copy(content=[])
+        out._content = cls._util_concatenate([x._content for x in arrays])
         return out
 
     _topandas_name = "ObjectSeries"
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 42875be..4db82cd 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -929,16 +929,11 @@ class Table(awkward0.array.base.AwkwardArray):
             if set(tables[i]._contents) != set(tables[i+1]._contents):
                 raise ValueError("cannot concatenate Tables with different fields")
 
-        out = tables[0].deepcopy(contents=OrderedDict())
+        out = tables[0].copy(contents=OrderedDict())
+        out._view, out._base = None, None
 
         for n in tables[0]._contents:
-            content_type = type(tables[0]._contents[n])
-            if content_type == cls.numpy.ndarray:
-                concatenate = cls.numpy.concatenate
-            else:
-                concatenate = content_type.concatenate
-
-            out._contents[n] = concatenate([t[n] for t in tables], axis=0)
+            out._contents[n] = cls._util_concatenate([t[n][:len(t)] for t in tables])
 
         out._valid()
         return out
-- 
2.43.0


From ae61e0023680f7aa55b9dca615bbdde28d12e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 061/103] fix: *_like of appendable arrays and views of tables,
 astype of strings, deep copies of tables of unions

---
 awkward0/array/chunked.py | 6 +++---
 awkward0/array/objects.py | 3 +++
 awkward0/array/table.py   | 6 +++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 87c3ba8..1861908 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -43,19 +43,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def zeros_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def ones_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 801e00a..d74ff17 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -563,6 +563,9 @@ class StringArray(StringMethods, ObjectArray):
         jagged = self._content.zeros_like(**overrides)
         return self.copy(jagged.starts, jagged.stops, jagged.content, **mine)
 
+    def astype(self, dtype):
+        return self.copy()      # the characters of a string are not numbers
+
     def ones_like(self, **overrides):
         mine = {}
         mine["encoding"] = overrides.pop("encoding", self._encoding)
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 4db82cd..ba4e1d6 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -348,7 +348,7 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, contents=None):
         out = self.copy(contents=contents)
-        out._contents = OrderedDict([(n, self._util_deepcopy(x[out._index()])) for n, x in out._contents.items()])
+        out._contents = OrderedDict([(n, self._util_deepcopy(x if out._view is None else x[out._index()])) for n, x in out._contents.items()])
         out._view = None
         out._base = None
         out._rowstart = None
@@ -366,6 +366,8 @@ class Table(awkward0.array.base.AwkwardArray):
     def zeros_like(self, **overrides):
         out = self.empty_like(**overrides)
         for n, x in self._contents.items():
+            if self._view is not None:
+                x = x[self._index()]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.zeros_like(x)
             else:
@@ -375,6 +377,8 @@ class Table(awkward0.array.base.AwkwardArray):
     def ones_like(self, **overrides):
         out = self.empty_like(**overrides)
         for n, x in self._contents.items():
+            if self._view is not None:
+                x = x[self._index()]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.ones_like(x)
             else:
-- 
2.43.0


From 28dac181c6a7157f1cc4463ceb715fea03d97cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 062/103] fix: assigning columns through indexed, masked,
 union, sparse and gapped jagged arrays set wrong rows, and rejected
 assignments of several columns left some of them behind

---
 awkward0/array/base.py    | 140 ++++++++++++++++++++++++++++++++------
 awkward0/array/chunked.py |  39 +++++------
 awkward0/array/indexed.py |  78 +++++++++------------
 awkward0/array/jagged.py  |  65 +++++++++++++++---
 awkward0/array/masked.py  |  16 +++++
 awkward0/array/table.py   |  43 ++++--------
 awkward0/array/union.py   |  51 ++++++--------
 awkward0/array/virtual.py |  50 +++++++-------
 8 files changed, 300 insertions(+), 182 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index b9efaae..f786f3a 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import functools
 import types
 import numbers
 import re
@@ -747,36 +748,137 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         columns = self.columns
         return self.rowname == "tuple" and columns == [str(x) for x in range(len(columns))]
 
-    def unzip(self):
-        return tuple(self[column_name] for column_name in self._util_columns(set()))
-
-class AwkwardArrayWithContent(AwkwardArray):
-    """
-    AwkwardArrayWithContent: abstract base class
-    """
-
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-            self._content[where] = what
-
+            names, columns = [where], [what]
         elif self._util_isstringslice(where):
-            what = what.unzip()
-            if len(where) != len(what):
-                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
-                self._content[x] = y
-
+            names, columns = list(where), what.unzip()
+            if len(names) != len(columns):
+                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(names), len(columns)))
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
+        for assign in self._setcolumns(names, [self._util_column(x) for x in columns]):
+            assign()
 
     def __delitem__(self, where):
         if isinstance(where, awkward0.util.string):
-            del self._content[where]
+            names = [where]
         elif self._util_isstringslice(where):
-            for x in where:
-                del self._content[x]
+            names = list(where)
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
+        for remove in self._delcolumns(names):
+            remove()
+
+    # these check that all of the columns can be set or removed before any of them is; then the functions they return do it
+    # columns may be scalars (zero-dimensional) and they are for all of the items of this array or only for those at index
+    def _setcolumns(self, names, columns, index=None):
+        raise TypeError("array has no Table, cannot assign columns")
+
+    def _delcolumns(self, names):
+        raise TypeError("array has no Table, cannot remove columns")
+
+    @classmethod
+    def _util_setcolumns(cls, array, names, columns, index=None):
+        if isinstance(array, AwkwardArray):
+            return array._setcolumns(names, columns, index)
+        if array.dtype.names is None or not all(n in array.dtype.names for n in names):
+            raise ValueError("no columns named {0}".format(names))
+        if index is None:
+            index = slice(None)
+        columns = [cls.numpy.broadcast_to(x, array[names[0]][index].shape) for x in columns]
+        return [functools.partial(array[n].__setitem__, index, x) for n, x in zip(names, columns)]
+
+    @classmethod
+    def _util_delcolumns(cls, array, names):
+        if isinstance(array, AwkwardArray):
+            return array._delcolumns(names)
+        raise TypeError("array has no Table, cannot remove columns")
+
+    @classmethod
+    def _util_column(cls, what):
+        """what to assign as an array; scalars have zero dimensions"""
+        try:
+            assert not isinstance(what, (awkward0.util.string, bytes))
+            len(what)
+        except (AssertionError, TypeError):
+            return cls.numpy.array(what)
+        else:
+            return cls._util_toarray(what, cls.DEFAULTTYPE)
+
+    @classmethod
+    def _util_isscalar(cls, column):
+        return isinstance(column, cls.numpy.ndarray) and len(column.shape) == 0
+
+    @classmethod
+    def _util_unwrap(cls, array):
+        """the same items without the wrappers that only arrange them"""
+        import awkward0.array.chunked
+        import awkward0.array.indexed
+        import awkward0.array.masked
+        import awkward0.array.virtual
+
+        if isinstance(array, awkward0.array.virtual.VirtualArray):
+            return cls._util_unwrap(array.array)
+        elif isinstance(array, awkward0.array.indexed.IndexedArray):
+            return cls._util_unwrap(array[:])
+        elif isinstance(array, awkward0.array.masked.MaskedArray) and not array.boolmask(maskedwhen=True).any():
+            return cls._util_unwrap(array._unmasked(array.boolmask(maskedwhen=False)))
+        elif isinstance(array, awkward0.array.chunked.AppendableArray):
+            return cls._util_unwrap(array[:])
+        elif isinstance(array, awkward0.array.chunked.ChunkedArray):
+            return cls.ChunkedArray.fget(None)([cls._util_unwrap(x) for x in array.chunks])
+        else:
+            return cls._util_dense(array)
+
+    @classmethod
+    def _util_checkcolumns(cls, columns, length):
+        for x in columns:
+            if not cls._util_isscalar(x) and len(x) != length:
+                raise ValueError("cannot assign array of length {0} to array of length {1}".format(len(x), length))
+
+    @classmethod
+    def _util_select(cls, columns, index):
+        return [x if cls._util_isscalar(x) else cls._util_dense(x)[index] for x in columns]
+
+    @classmethod
+    def _util_dense(cls, array):
+        import awkward0.array.indexed
+        if isinstance(array, awkward0.array.indexed.SparseArray) and isinstance(array._content, cls.numpy.ndarray):
+            return array.dense     # because a selection from a SparseArray is a UnionArray
+        else:
+            return array
+
+    @classmethod
+    def _util_scatter(cls, column, index, length):
+        """an array of a given length with each item of column at its index; what it has elsewhere does not matter"""
+        if cls.numpy.array_equal(index, cls.numpy.arange(length)):
+            return column
+        column = cls._util_dense(column)
+        if len(index) == 0:
+            column = cls._util_unwrap(column)
+            if isinstance(column, cls.numpy.ndarray):
+                return cls.numpy.zeros((length,) + column.shape[1:], dtype=column.dtype)
+            else:
+                return cls.IndexedMaskedArray.fget(None)(cls.numpy.full(length, -1, dtype=cls.INDEXTYPE), column)
+        inverse = cls.numpy.zeros(length, dtype=cls.INDEXTYPE)
+        known = cls.IndexedArray.fget(None).invert(index)
+        inverse[:len(known)] = known
+        return cls.IndexedArray.fget(None)(inverse, column)
+
+    def unzip(self):
+        return tuple(self[column_name] for column_name in self._util_columns(set()))
+
+class AwkwardArrayWithContent(AwkwardArray):
+    """
+    AwkwardArrayWithContent: abstract base class
+    """
+
+    def _setcolumns(self, names, columns, index=None):
+        return self._util_setcolumns(self._content, names, columns, index)
+
+    def _delcolumns(self, names):
+        return self._util_delcolumns(self._content, names)
 
     def _hasjagged(self):
         return self._util_hasjagged(self._content)
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 1861908..5e72ad6 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import functools
 import awkward0.array.base
 import awkward0.persist
 import awkward0.type
@@ -513,26 +514,22 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         what.knowchunksizes()
         return self._chunksizes == what._chunksizes
 
-    def __setitem__(self, where, what):
-        if isinstance(what, ChunkedArray) and self._aligned(what):
-            for i, (mine, theirs) in enumerate(zip(self._chunks, what._chunks)):
-                mine[where] = theirs
-                self._types[i] = mine.type.to
-        else:
-            raise ValueError("only ChunkedArrays with the same chunk sizes can be assigned to columns of a ChunkedArray")
+    def _setcolumns(self, names, columns, index=None):
+        for what in columns:
+            if index is not None or not isinstance(what, ChunkedArray) or not self._aligned(what):
+                raise ValueError("only ChunkedArrays with the same chunk sizes can be assigned to columns of a ChunkedArray")
+        out = []
+        for i, mine in enumerate(self._chunks):
+            out.extend(self._util_setcolumns(mine, names, [what._chunks[i] for what in columns]))
+            out.append(functools.partial(self._types.__setitem__, i, None))
+        return out
 
-    def __delitem__(self, where):
-        if isinstance(where, awkward0.util.string):
-            for chunk in self._chunks:
-                del chunk[where]
-            self._types = [None] * len(self._chunks)
-        elif self._util_isstringslice(where):
-            for chunk in self._chunks:
-                for x in where:
-                    del chunk[x]
-            self._types = [None] * len(self._chunks)
-        else:
-            raise TypeError("invalid index for removing column from Table: {0}".format(where))
+    def _delcolumns(self, names):
+        out = []
+        for i, mine in enumerate(self._chunks):
+            out.extend(self._util_delcolumns(mine, names))
+            out.append(functools.partial(self._types.__setitem__, i, None))
+        return out
 
     def _emptychunk(self):
         if len(self._chunks) == 0:
@@ -995,10 +992,10 @@ class AppendableArray(ChunkedArray):
     def __getitem__(self, where):
         return self.ChunkedArray([x[:n] for x, n in zip(self._chunks, self._chunksizes)], chunksizes=self._chunksizes)[where]
 
-    def __setitem__(self, where, what):
+    def _setcolumns(self, names, columns, index=None):
         raise TypeError("array has no Table, cannot assign columns")
 
-    def __delitem__(self, where):
+    def _delcolumns(self, names):
         raise TypeError("array has no Table, cannot remove columns")
 
     def append(self, value):
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 7c39aa3..208cdb6 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -158,27 +158,20 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         head = self._index[head]
         return self._content[(head,) + tail]
 
-    def _invert(self, what):
-        if self._inverse is None:
-            self._inverse = self.invert(self._index)
-        return IndexedArray(self._inverse, what)
-
-    def __setitem__(self, where, what):
-        if what.shape[:len(self._index.shape)] != self._index.shape:
-            raise ValueError("array to assign does not have the same starting shape as index")
-
-        if isinstance(where, awkward0.util.string):
-            self._content[where] = self._invert(what)
-
-        elif self._util_isstringslice(where):
-            what = what.unzip()
-            if len(where) != len(what):
-                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
-                self._content[x] = self._invert(y)
-
+    def _setcolumns(self, names, columns, index=None):
+        self._valid()
+        if index is None:
+            where = self._index
+            self._util_checkcolumns(columns, len(where))
+            if len(where.shape) != 1:
+                for i, what in enumerate(columns):
+                    if not self._util_isscalar(what):
+                        if what.shape[:len(where.shape)] != where.shape:
+                            raise ValueError("array to assign does not have the same starting shape as index")
+                        columns = columns[:i] + [what.reshape((-1,) + what.shape[len(where.shape):])] + columns[i + 1:]
         else:
-            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
+            where = self._index[index]
+        return self._util_setcolumns(self._content, names, columns, where.reshape(-1))
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
@@ -632,32 +625,25 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             return self._index[self._getinverse()] != self.numpy.arange(self._length, dtype=self.INDEXTYPE)
 
-    def _invert(self, what):
-        if len(what) != self._length:
-            raise ValueError("cannot assign array of length {0} to sparse table of length {1}".format(len(what), self._length))
-
-        test = what[self.boolmask(maskedwhen=False)].any()
-        while not isinstance(test, (bool, self.numpy.bool_)):
-            test = test.any()
-
-        if test:
-            raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
-
-        return what[self._index]
-
-    def __setitem__(self, where, what):
-        if isinstance(where, awkward0.util.string):
-            self._content[where] = self._invert(what)
-
-        elif self._util_isstringslice(where):
-            what = what.unzip()
-            if len(where) != len(what):
-                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
-                self._content[x] = self._invert(y)
-
-        else:
-            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
+    def _setcolumns(self, names, columns, index=None):
+        self._valid()
+        if index is None:
+            index = self.numpy.arange(self._length, dtype=self.INDEXTYPE)
+        columns = [self.numpy.full(len(index), x) if self._util_isscalar(x) else x for x in columns]
+        self._util_checkcolumns(columns, len(index))
+
+        where = self.numpy.searchsorted(self._index, index, side="left")
+        defined = (where < len(self._index))
+        defined[defined] = (self._index[where[defined]] == index[defined])
+
+        for what in self._util_select(columns, ~defined):
+            test = what.any()
+            while not isinstance(test, (bool, self.numpy.bool_)):
+                test = test.any()
+            if test:
+                raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
+
+        return self._util_setcolumns(self._content, names, self._util_select(columns, defined), where[defined])
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0f22699..91a93f2 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -771,16 +771,63 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             raise NotImplementedError("selecting from {0} with a {1}-dimensional index".format(type(content), len(index.shape)))
 
+    def _setcolumns(self, names, columns, index=None):
+        import awkward0.array.chunked
+
+        self._valid()
+        starts, counts = self._starts, self.counts
+        if index is not None:
+            starts, counts = starts[index], counts[index]
+        counts = counts.reshape(-1)
+
+        offsets = self.counts2offsets(counts)
+        parents = self.offsets2parents(offsets)
+        where = starts.reshape(-1)[parents] + self.numpy.arange(offsets[-1], dtype=self.INDEXTYPE) - offsets[parents]
+        unique, first = self.numpy.unique(where[::-1], return_index=True)      # if lists overlap, the last one counts
+        first = offsets[-1] - 1 - first
+
+        out = []
+        for what in columns:
+            if self._util_isscalar(what):
+                out.append(what)
+                continue
+            what = self._util_unwrap(what)
+            if isinstance(what, JaggedArray) or (isinstance(what, awkward0.array.chunked.ChunkedArray) and self._util_islists(what.type.to)):
+                if not self.numpy.array_equal(counts, what.counts.reshape(-1)):
+                    raise ValueError("cannot broadcast JaggedArray to match JaggedArray with a different counts")
+                what = what.flatten(axis=len(starts.shape) - 1)
+            elif self._util_haslists(awkward0.type.fromarray(what).to):
+                raise ValueError("cannot broadcast {0} with lists in it to match JaggedArray".format(type(what).__name__))
+            elif isinstance(what, self.numpy.ndarray) and what.shape == (1,):
+                what = self.numpy.full(len(where), what[0], dtype=what.dtype)
+            elif len(what) != len(starts):
+                raise ValueError("cannot broadcast array to match JaggedArray with a different length")
+            else:
+                what = what[parents]
+            if len(unique) != len(where):
+                what = what[first]
+            out.append(what)
+
+        if len(unique) != len(where):
+            where = unique
+        return self._util_setcolumns(self._content, names, out, where)
+
+    @classmethod
+    def _util_islists(cls, t):
+        return isinstance(t, awkward0.type.ArrayType) and t.takes == cls.numpy.inf
+
+    @classmethod
+    def _util_haslists(cls, t):
+        if isinstance(t, awkward0.type.OptionType):
+            return cls._util_haslists(t.type)
+        elif isinstance(t, awkward0.type.UnionType):
+            return any(cls._util_haslists(x) for x in t._possibilities)
+        else:
+            return cls._util_islists(t)
+
     def __setitem__(self, where, what):
-        if isinstance(where, awkward0.util.string):
-            self._content[where] = self._matchjagged(what)._content
-
-        elif self._util_isstringslice(where):
-            what = what.unzip()
-            if len(where) != len(what):
-                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
-                self._content[x] = self._matchjagged(y)._content
+        if isinstance(where, awkward0.util.string) or self._util_isstringslice(where):
+            super(JaggedArray, self).__setitem__(where, what)
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index bbbba13..c487d1b 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -172,6 +172,19 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 yield content[i]
             i += 1
 
+    def _setcolumns(self, names, columns, index=None):
+        self._valid()
+        good, where = self.boolmask(maskedwhen=False), self._contentindex()
+        if index is not None:
+            good, where = good[index], where[index]
+        self._util_checkcolumns(columns, len(good))
+        columns = [x if self._util_isscalar(x) else self._util_unwrap(x) for x in self._util_select(columns, good)]
+        return self._util_setcolumns(self._content, names, columns, where[good])
+
+    def _contentindex(self):
+        """where each item is in the content"""
+        return self.numpy.arange(len(self), dtype=self.INDEXTYPE)
+
     def __getitem__(self, where):
         self._valid()
 
@@ -792,6 +805,9 @@ class IndexedMaskedArray(MaskedArray):
             else:
                 return self.copy(mask=maskindex)
 
+    def _contentindex(self):
+        return self._mask
+
     @property
     def counts(self):
         self._valid()
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index ba4e1d6..8f663cf 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import functools
 import numbers
 import re
 import types
@@ -654,42 +655,22 @@ class Table(awkward0.array.base.AwkwardArray):
             out._rowstart = None
             return out
 
-    def __setitem__(self, where, what):
+    def _setcolumns(self, names, columns, index=None):
         if self._view is not None:
             raise ValueError("new columns can only be attached to the original Table, not a view (try table.base['col'] = array)")
+        if index is not None:
+            self._util_checkcolumns(columns, len(index))
+            columns = [x if self._util_isscalar(x) else self._util_scatter(x, index, len(self)) for x in columns]
+        columns = [self.numpy.full(len(self), x) if self._util_isscalar(x) else x for x in columns]
+        return [functools.partial(self._contents.__setitem__, n, x) for n, x in zip(names, columns)]
 
-        if isinstance(where, awkward0.util.string):
-            try:
-                len(what)
-            except TypeError:
-                what = self.numpy.full(len(self), what)
-            self._contents[where] = self._util_toarray(what, self.DEFAULTTYPE)
-
-        elif self._util_isstringslice(where):
-            what = what.unzip()
-            if len(where) != len(what):
-                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
-                try:
-                    len(y)
-                except TypeError:
-                    y = self.numpy.full(len(self), y)
-                self._contents[x] = self._util_toarray(y, self.DEFAULTTYPE)
-
-        else:
-            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-
-    def __delitem__(self, where):
+    def _delcolumns(self, names):
         if self._view is not None:
             raise ValueError("columns can only be removed from the original Table, not a view (try del table.base['col'])")
-
-        if isinstance(where, awkward0.util.string):
-            del self._contents[where]
-        elif self._util_isstringslice(where):
-            for x in where:
-                del self._contents[x]
-        else:
-            raise TypeError("invalid index for removing column from Table: {0}".format(where))
+        for i, n in enumerate(names):
+            if n not in self._contents or n in names[:i]:
+                raise KeyError(n)
+        return [functools.partial(self._contents.__delitem__, n) for n in names]
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 89bd874..03baa27 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -332,39 +332,28 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                     contents.append(self._contents[tag][(index[mask],) + tail])
                 return self.copy(tags=outtags, index=outindex, contents=contents)
 
-    def __setitem__(self, where, what):
-        if what.shape[:len(self._tags.shape)] != self._tags.shape:
-            raise ValueError("array to assign does not have the same starting shape as tags")
-
-        if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                self._contents[tag][where] = self.IndexedArray(inverseindex, what)
-
-        elif self._util_isstringslice(where):
-            what = what.unzip()
-            if len(where) != len(what):
-                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                for x, y in zip(where, what):
-                    self._contents[tag][x] = self.IndexedArray(inverseindex, y)
-
+    def _setcolumns(self, names, columns, index=None):
+        self._valid()
+        tags, where = self._tags, self._index[:len(self._tags)]
+        if index is None:
+            self._util_checkcolumns(columns, len(tags))
+            if len(tags.shape) != 1:
+                for what in columns:
+                    if not self._util_isscalar(what) and what.shape[:len(tags.shape)] != tags.shape:
+                        raise ValueError("array to assign does not have the same starting shape as tags")
         else:
-            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-
-    def __delitem__(self, where):
-        if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                del self._contents[tag][where]
-
-        elif self._util_isstringslice(where):
-            for tag in self.numpy.unique(self._tags):
-                for x in where:
-                    del self._contents[tag][x]
+            tags, where = tags[index], where[index]
+        out = []
+        for tag in self.numpy.unique(tags):
+            mask = (tags == tag)
+            out.extend(self._util_setcolumns(self._contents[tag], names, self._util_select(columns, mask), where[mask]))
+        return out
 
-        else:
-            raise TypeError("invalid index for assigning column to Table: {0}".format(where))
+    def _delcolumns(self, names):
+        out = []
+        for tag in self.numpy.unique(self._tags):
+            out.extend(self._util_delcolumns(self._contents[tag], names))
+        return out
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index f1f45c7..1a3ecbb 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -408,34 +408,34 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __getitem__(self, where):
         return self.array[where]
 
-    def __setitem__(self, where, what):
+    def _setcolumns(self, names, columns, index=None):
         array = self.array        # only one reference to self.array, since the cache might evict it at any time
-        array[where] = what
-        if self._type is not None:
-            self._type = awkward0.type.fromarray(array)
-        if self._setitem is None:
-            self._setitem = OrderedDict()
-        if isinstance(where, awkward0.util.string):
-            columns = [(where, what)]
-        else:
-            columns = list(zip(where, what.unzip()))
-        for n, x in columns:
-            self._setitem[n] = x
-            if self._delitem is not None and n in self._delitem:
-                self._delitem.remove(n)
 
-    def __delitem__(self, where):
+        def remember():
+            if self._type is not None:
+                self._type = awkward0.type.fromarray(array)
+            if self._setitem is None:
+                self._setitem = OrderedDict()
+            for n, x in zip(names, columns):
+                self._setitem[n] = x if index is None else array[n]
+                if self._delitem is not None and n in self._delitem:
+                    self._delitem.remove(n)
+
+        return self._util_setcolumns(array, names, columns, index) + [remember]
+
+    def _delcolumns(self, names):
         array = self.array
-        del array[where]
-        if self._type is not None:
-            self._type = awkward0.type.fromarray(array)
-        if self._delitem is None:
-            self._delitem = []
-        for n in ([where] if isinstance(where, awkward0.util.string) else where):
-            if self._setitem is not None and n in self._setitem:
-                del self._setitem[n]
-            if n not in self._delitem:
-                self._delitem.append(n)
+
+        def remember():
+            if self._type is not None:
+                self._type = awkward0.type.fromarray(array)
+            if self._delitem is None:
+                self._delitem = []
+            for n in names:
+                if n not in self._delitem:
+                    self._delitem.append(n)      # after all in self._setitem, which might have made it removable
+
+        return self._util_delcolumns(array, names) + [remember]
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From fc56b35f5e3c278fc73225638064a91af59fcbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 063/103] fix: Numpy conversion of records, shaped and masked
 values, iteration inside str, columns of ragged tables in chunked and
 bit-masked arrays, and pandas conversion of chunked, virtual, indexed, union
 and masked arrays

---
 awkward0/array/base.py    |  41 ++++++++-
 awkward0/array/chunked.py |  22 +++--
 awkward0/array/indexed.py |  12 ++-
 awkward0/array/jagged.py  |   9 +-
 awkward0/array/masked.py  |   7 +-
 awkward0/array/objects.py |  12 ++-
 awkward0/array/table.py   |   5 +-
 awkward0/array/union.py   |   8 +-
 awkward0/array/virtual.py |  10 +-
 awkward0/pandas.py        |  80 ++++++++++++----
 awkward0/util.py          | 186 +++++++++++++++-----------------------
 11 files changed, 225 insertions(+), 167 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index f786f3a..fb82c81 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -65,14 +65,38 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     def __array__(self, dtype=None):
         self._checktonumpy()
 
+        items = list(self)
+        missing = [x is None or isinstance(x, self.numpy.ma.core.MaskedConstant) for x in items]
+        try:
+            shape = self.type.shape[1:]
+        except TypeError:
+            shape = ()                                           # unions have no shape
+
         if dtype is None:
-            dtype = self.dtype
+            try:
+                dtype = self.numpy.dtype(self._numpydtype())
+            except TypeError:
+                dtype = self.numpy.dtype(object)                 # neither a union nor a table with non-primitive fields has a dtype
+            if any(missing) and dtype.kind not in ("f", "c"):    # only these have a value (nan) to represent missing
+                dtype, shape = self.numpy.dtype(object), ()
+            elif dtype.names is not None:
+                columns = [(n, self.numpy.array(self[n])) for n in dtype.names]
+                out = self.numpy.empty(len(items), dtype=[(n, x.dtype, x.shape[1:]) for n, x in columns])
+                for n, x in columns:
+                    out[n] = x[:len(items)]                      # columns may be longer than the table
+                return out
 
-        out = self.numpy.empty(len(self), dtype=dtype)
-        for i, x in enumerate(self):
-            out[i] = x
+        out = self.numpy.empty((len(items),) + shape, dtype=dtype)
+        for i, x in enumerate(items):
+            if missing[i] and out.dtype.kind in ("f", "c"):
+                out[i] = self.numpy.nan
+            else:
+                out[i] = x
         return out
 
+    def _numpydtype(self):
+        return self.type.dtype
+
     def __getstate__(self):
         state = {}
         awkward0.persist.serialize(self, state)
@@ -107,7 +131,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             if isinstance(first, AwkwardArray):
                 first = first.__iter__(checkiter=False)
             last = self[-3:]
-            if isinstance(first, AwkwardArray):
+            if isinstance(last, AwkwardArray):
                 last = last.__iter__(checkiter=False)
 
             return "[{0} ... {1}]".format(" ".join(self._util_arraystr(x) for x in first), " ".join(self._util_arraystr(x) for x in last))
@@ -420,6 +444,13 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return repr(array)
 
+    @classmethod
+    def _util_iter(cls, array, checkiter):
+        if isinstance(array, AwkwardArray):
+            return array.__iter__(checkiter=checkiter)
+        else:
+            return iter(array)
+
     @classmethod
     def _util_isnumpy(cls, dtype):
         if isinstance(dtype, cls.numpy.dtype):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 5e72ad6..61968f0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -290,10 +290,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         for i, chunk in enumerate(self._chunks):
             if i >= len(self._chunksizes):
                 self._chunksizes.append(len(chunk))
-            for x in chunk[:self._chunksizes[i]]:
+            for x in self._util_iter(chunk[:self._chunksizes[i]], checkiter):
                 yield x
 
-    def __array__(self, *args, **kwargs):
+    def __array__(self, dtype=None):
         self._checktonumpy()
 
         if self._likenumpy(self._chunks):
@@ -303,7 +303,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     out[slc] = chunk[:slc.stop - slc.start]
             return out
         else:
-            return super(ChunkedArray, self).__array__(*args, **kwargs)
+            if dtype is None:
+                types = [awkward0.type.fromarray(x).to for x in self._filledchunks() if len(x) != 0]
+                if any(x != types[0] for x in types):
+                    dtype = self.numpy.dtype(object)       # slices of a UnionArray can have a different type in each chunk
+            return super(ChunkedArray, self).__array__(dtype)
 
     def __getitem__(self, where):
         import awkward0.array.virtual
@@ -314,8 +318,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             chunks = []
             chunksizes = []
             for chunk in self._chunks:
-                chunks.append(chunk[where])
-                chunksizes.append(len(chunks[-1]))
+                column = chunk[where]
+                if len(column) > len(chunk):         # columns may be longer than their table
+                    column = column[:len(chunk)]
+                chunks.append(column)
+                chunksizes.append(len(column))
             if len(chunks) == 0:
                 return self.copy(chunks=chunks, chunksizes=chunksizes)
             else:
@@ -838,9 +845,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             out._chunks = [x._topandas(seen) if isinstance(x, awkward0.array.base.AwkwardArray) else x for x in out._chunks]
             return out
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 208cdb6..341b65c 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -280,9 +280,10 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
                 out._content = out._content._topandas(seen)
@@ -605,7 +606,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if isinstance(self._content, self.numpy.ndarray):
-            out = self.numpy.full(self.shape, self.default, dtype=self.dtype)
+            out = self.numpy.full(self.type.shape, self.default, dtype=self.type.dtype)
             if len(self._index) != 0:
                 mask = self.boolmask(maskedwhen=True)
                 out[mask] = self._content[self._inverse[mask]]
@@ -720,9 +721,10 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
                 out._content = out._content._topandas(seen)
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 91a93f2..3fdd866 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -466,7 +466,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             offsets = self.counts2offsets(counts)
             out = self.numpy.arange(offsets[-1], dtype=self.INDEXTYPE)
             out -= self.numpy.repeat(offsets[:-1], awkward0.util.windows_safe(counts))
-            return self.JaggedArray(offsets[:-1].reshape(self.shape), offsets[1:].reshape(self.shape), out)
+            return self.JaggedArray(offsets[:-1].reshape(self._starts.shape), offsets[1:].reshape(self._starts.shape), out)
 
     def _getnbytes(self, seen):
         if id(self) in seen:
@@ -836,7 +836,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(where.shape) == 1:
                 if where._starts.shape != self._starts.shape:
                     raise ValueError("jagged array used as index has a different shape {0} from the jagged array it is selecting from {1}".format(where._starts.shape, self._starts.shape))
-            elif where.shape != self.shape:
+            elif where.shape != self._starts.shape:
                 raise ValueError("jagged array used as index has a different shape {0} from the jagged array it is selecting from {1}".format(where._starts.shape, self._starts.shape))
 
             if self._util_isintegertype(where._content.dtype.type):
@@ -1912,9 +1912,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
                 out._content = out._content._topandas(seen)
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index c487d1b..668a178 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -380,9 +380,10 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
                 out._content = out._content._topandas(seen)
@@ -617,6 +618,8 @@ class BitMaskedArray(MaskedArray):
 
         if self._util_isstringslice(where):
             content = self._content[where]
+            if len(content) > len(self._content):         # columns may be longer than their table
+                content = content[:len(self._content)]
             cls = awkward0.array.objects.Methods.maybemixin(type(content), self.BitMaskedArray)
             out = cls.__new__(cls)
             out.__dict__.update(self.__dict__)
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index d74ff17..1552325 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -174,7 +174,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
-        for x in self._content:
+        for x in self._util_iter(self._content, checkiter):
             yield self.generator(x, *self._args, **self._kwargs)
 
     def __getitem__(self, where):
@@ -296,9 +296,10 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
                 out._content = out._content._topandas(seen)
@@ -775,9 +776,10 @@ class StringArray(StringMethods, ObjectArray):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
                 out._content = out._content._topandas(seen)
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 8f663cf..5e529b4 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -928,9 +928,10 @@ class Table(awkward0.array.base.AwkwardArray):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             out._contents = OrderedDict((n, x._topandas(seen) if isinstance(x, awkward0.array.base.AwkwardArray) else x) for n, x in out._contents.items())
             return out
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 03baa27..7c23568 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -220,6 +220,9 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
     @property
     def dtype(self):
+        return self._numpydtype()
+
+    def _numpydtype(self):
         if self._dtype is None:
             self._dtype = self.uniondtype(self._contents)
         return self._dtype
@@ -566,9 +569,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.copy()
+            out = self.copy()
+            seen[id(self)] = self, out      # keeping self, so that its id is not given to another array
             out.__class__ = awkward0.pandas.mixin(type(self))
             out._contents = [x._topandas(seen) if isinstance(x, awkward0.array.base.AwkwardArray) else x for x in out._contents]
             return out
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 1a3ecbb..aa43a03 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -399,7 +399,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
-        return iter(self.array)
+        return self._util_iter(self.array, checkiter)
 
     def __array__(self, *args, **kwargs):
         self._checktonumpy()
@@ -540,15 +540,17 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @staticmethod
     def _topandas_doit(virtualarray):
-        return virtualarray.array._topandas()
+        array = virtualarray.array
+        return array._topandas({}) if isinstance(array, awkward0.array.base.AwkwardArray) else array
 
     _topandas_name = "VirtualSeries"
 
     def _topandas(self, seen):
         import awkward0.pandas
         if id(self) in seen:
-            return seen[id(self)]
+            return seen[id(self)][1]
         else:
-            out = seen[id(self)] = self.VirtualArray(self._topandas_doit, (self,), cache=self.cache, persistentkey=self.persistentkey, type=self.type, nbytes=self.nbytes, persistvirtual=self.persistvirtual)
+            out = self.VirtualArray(self._topandas_doit, (self,), cache=self.cache, type=self.type, nbytes=self.nbytes, persistvirtual=self.persistvirtual)
+            seen[id(self)] = self, out
             out.__class__ = awkward0.pandas.mixin(type(self))
             return out
diff --git a/awkward0/pandas.py b/awkward0/pandas.py
index c208f32..f8e27b5 100644
--- a/awkward0/pandas.py
+++ b/awkward0/pandas.py
@@ -82,20 +82,58 @@ class AwkwardSeries(object):
                         return out
         return None
 
-    def __array__(self, dtype=None):
-        cls = self._findclass(type(self))
+    @staticmethod
+    def _mixedin(self, name):
+        if self is None:              # called from a class method
+            return getattr(awkward0.array.base.AwkwardArray, name).fget(None)
+        else:
+            return mixin(getattr(AwkwardSeries._findclass(type(self)), name).fget(self))
+
+    @property
+    def shape(self):                  # Pandas extension arrays are one-dimensional
+        return (len(self),)
+
+    @property
+    def ndim(self):
+        return 1
 
-        if dtype is None:
-            dtype = cls.dtype.fget(self)
+    @property
+    def size(self):
+        return len(self)
 
-        return cls.__array__(self, dtype=dtype)
+    def __array__(self, dtype=None):
+        out = self._findclass(type(self)).__array__(self, dtype)
+        if dtype is None and (len(out.shape) != 1 or out.dtype.names is not None):
+            items, out = out, self.numpy.empty(len(out), dtype=object)      # Pandas can only show one-dimensional arrays without fields
+            for i, x in enumerate(items):
+                out[i] = x
+        return out
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        if any(isinstance(x, (pandas.Series, pandas.Index, pandas.DataFrame)) for x in inputs):
+            return NotImplemented
         out = self._findclass(type(self)).__array_ufunc__(self, ufunc, method, *inputs, **kwargs)
-        return out.pandas
+        if isinstance(out, awkward0.array.base.AwkwardArray) and not isinstance(out, AwkwardSeries):
+            out = out._topandas({})
+        return out
 
     def isna(self):
-        return self.numpy.zeros(self.shape, dtype=self.BOOLTYPE)
+        return self._util_boolmask(self, True)
+
+    def astype(self, dtype, copy=True):
+        if is_awkward_type(dtype):
+            return self.copy() if copy else self
+        else:
+            return self._findclass(type(self)).astype(self, dtype)
+
+    def take(self, indices, allow_fill=False, fill_value=None):
+        indices = self.numpy.array(indices, dtype=self.INDEXTYPE)
+        if allow_fill:
+            if (indices < -1).any():
+                raise ValueError("negative indices other than -1 (missing) are not allowed when allow_fill is True")
+            if (indices == -1).any():
+                return self.IndexedMaskedArray(indices, self, maskedwhen=-1)
+        return self[indices]
 
     @classmethod
     def _concat_same_type(cls, to_concat):
@@ -103,55 +141,57 @@ class AwkwardSeries(object):
 
     @property
     def ChunkedArray(self):
-        return mixin(self._findclass(type(self)).ChunkedArray.fget(self))
+        return AwkwardSeries._mixedin(self, "ChunkedArray")
 
     @property
     def AppendableArray(self):
-        return mixin(self._findclass(type(self)).AppendableArray.fget(self))
+        return AwkwardSeries._mixedin(self, "AppendableArray")
 
     @property
     def IndexedArray(self):
-        return mixin(self._findclass(type(self)).IndexedArray.fget(self))
+        return AwkwardSeries._mixedin(self, "IndexedArray")
 
     @property
     def SparseArray(self):
-        return mixin(self._findclass(type(self)).SparseArray.fget(self))
+        return AwkwardSeries._mixedin(self, "SparseArray")
 
     @property
     def JaggedArray(self):
-        return mixin(self._findclass(type(self)).JaggedArray.fget(self))
+        return AwkwardSeries._mixedin(self, "JaggedArray")
 
     @property
     def MaskedArray(self):
-        return mixin(self._findclass(type(self)).MaskedArray.fget(self))
+        return AwkwardSeries._mixedin(self, "MaskedArray")
 
     @property
     def BitMaskedArray(self):
-        return mixin(self._findclass(type(self)).BitMaskedArray.fget(self))
+        return AwkwardSeries._mixedin(self, "BitMaskedArray")
 
     @property
     def IndexedMaskedArray(self):
-        return mixin(self._findclass(type(self)).IndexedMaskedArray.fget(self))
+        return AwkwardSeries._mixedin(self, "IndexedMaskedArray")
 
     @property
     def ObjectArray(self):
-        return mixin(self._findclass(type(self)).ObjectArray.fget(self))
+        return AwkwardSeries._mixedin(self, "ObjectArray")
 
     @property
     def StringArray(self):
-        return mixin(self._findclass(type(self)).StringArray.fget(self))
+        return AwkwardSeries._mixedin(self, "StringArray")
 
     @property
     def Table(self):
-        return mixin(self._findclass(type(self)).Table.fget(self))
+        return AwkwardSeries._mixedin(self, "Table")
 
     @property
     def UnionArray(self):
-        return mixin(self._findclass(type(self)).UnionArray.fget(self))
+        return AwkwardSeries._mixedin(self, "UnionArray")
 
     @property
     def VirtualArray(self):
-        return mixin(self._findclass(type(self)).VirtualArray.fget(self))
+        return AwkwardSeries._mixedin(self, "VirtualArray")
 
 def mixin(tpe):
+    if issubclass(tpe, AwkwardSeries):
+        return tpe
     return type(tpe._topandas_name, (AwkwardSeries, tpe, pandas.api.extensions.ExtensionArray), {})
diff --git a/awkward0/util.py b/awkward0/util.py
index 358c664..75bae50 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -208,16 +208,17 @@ except AttributeError:
 def topandas(array, flatten=False):
     import pandas
     import awkward0.array.base
+    import awkward0.type
 
     if isinstance(array, awkward0.array.base.AwkwardArray):
         if flatten:
             return topandas_flatten(array)
         else:
             out = array._topandas({})
-            if len(out.columns) == 0:
+            if len(out.columns) == 0 or isinstance(out.type.to, awkward0.type.UnionType):
                 return pandas.Series(out)
             else:
-                return pandas.DataFrame({n: out[n] for n in out.columns}, columns=out.columns)
+                return pandas.DataFrame({n: out[n][:len(out)] for n in out.columns}, columns=out.columns)
     else:
         out = numpy.array(array, copy=False)
         if out.dtype.fields is None:
@@ -231,140 +232,103 @@ def topandas_flatten(array):
 
     import awkward0.array.base
     import awkward0.array.chunked
+    import awkward0.array.indexed
     import awkward0.array.jagged
+    import awkward0.array.masked
     import awkward0.array.objects
     import awkward0.array.table
+    import awkward0.array.union
     import awkward0.array.virtual
     import awkward0.type
 
-    if isinstance(array, awkward0.array.base.AwkwardArray):
-        numpy = array.numpy
-        JaggedArray = array.JaggedArray
-        Table = array.Table
-    else:
-        JaggedArray = awkward0.array.jagged.JaggedArray
-        Table = awkward0.array.table.Table
-
     def unwrap(a):
-        if isinstance(a, awkward0.array.chunked.ChunkedArray):
-            chunks = [unwrap(x) for x in a.chunks]
-            if any(isinstance(x, awkward0.array.jagged.JaggedArray) for x in chunks):
-                return awkward0.array.jagged.JaggedArray.concatenate(chunks)
+        if isinstance(a, awkward0.array.virtual.VirtualArray):
+            return unwrap(a.array)
+        elif isinstance(a, awkward0.array.chunked.ChunkedArray):
+            chunks = [unwrap(x) for x in a._filledchunks() if len(x) != 0]
+            if len(chunks) == 0:
+                return unwrap(a.chunks[0]) if len(a.chunks) != 0 else numpy.array([], dtype=a.DEFAULTTYPE)
             else:
-                return numpy.concatenate([x.regular() for x in chunks])
-        elif isinstance(a, awkward0.array.virtual.VirtualArray):
-            return a.array
+                return unwrap(awkward0.array.base.AwkwardArray.concatenate(chunks)) if len(chunks) != 1 else chunks[0]
+        elif isinstance(a, awkward0.array.indexed.SparseArray):
+            return unwrap(a.dense)
+        elif isinstance(a, awkward0.array.indexed.IndexedArray):
+            return unwrap(a.content[a.index])
+        elif isinstance(a, awkward0.array.objects.ObjectArray) and not isinstance(a, awkward0.array.objects.StringArray):
+            return unwrap(a.content)
+        elif isinstance(a, awkward0.array.union.UnionArray) and all(isinstance(unwrap(x), numpy.ndarray) for x in a.contents):
+            return numpy.array(a)
         else:
             return a
 
-    globalindex = [None]
-    localindex = []
-    columns = []
-    def recurse(array, tpe, cols, seriously):
-        if isinstance(tpe, awkward0.type.TableType):
-            starts, stops = None, None
-            out, deferred, unflattened = None, {}, None
+    def unflattenable(a):
+        return ValueError("this array has unflattenable substructure:\n\n{0}".format(str(awkward0.type.fromarray(a).to)))
+
+    leaves = []                  # (column name at each level of table, number of elements in each list at each level of list, flattened array)
+    def recurse(a, column, counts):
+        a = unwrap(a)
 
-            for n in tpe.columns:
+        if isinstance(a, awkward0.array.table.Table) or (isinstance(a, numpy.ndarray) and a.dtype.names is not None):
+            for n in (a.columns if isinstance(a, awkward0.array.table.Table) else a.dtype.names):
                 if not isinstance(n, str):
                     raise ValueError("column names must be strings")
+                recurse(a[n][:len(a)], column + (n,), counts)
 
-                arrayn = unwrap(array[n])
-                tpen = tpe[n]
-                colsn = cols + (n,) if seriously else cols
-
-                if isinstance(arrayn, awkward0.array.objects.ObjectArray) and not isinstance(arrayn, awkward0.array.objects.StringArray):
-                    arrayn = arrayn.content
-                if not isinstance(tpen, (numpy.dtype, str, bytes, awkward0.type.Type)):
-                    tpen = awkward0.type.fromarray(arrayn).to
-                if isinstance(tpen, numpy.dtype):
-                    columns.append(colsn)
-                    tmp = arrayn
-
-                elif isinstance(tpen, type) and issubclass(tpen, (str, bytes)):
-                    columns.append(colsn)
-                    tmp = arrayn
-
-                elif isinstance(tpen, awkward0.type.ArrayType) and tpen.takes == numpy.inf:
-                    tmp = JaggedArray(arrayn.starts, arrayn.stops, recurse(arrayn.content, tpen.to, colsn, True))
-
-                elif isinstance(tpen, awkward0.type.TableType):
-                    tmp = recurse(arrayn, tpen, colsn, True)
-
-                elif isinstance(tpen, awkward0.type.OptionType) and isinstance(arrayn.content, numpy.ndarray):
-                    columns.append(colsn)
-                    tmp = numpy.ma.MaskedArray(arrayn.content, arrayn.boolmask(maskedwhen=True))
-
-                else:
-                    raise ValueError("this array has unflattenable substructure:\n\n{0}".format(str(tpen)))
-
-                if isinstance(tmp, awkward0.array.jagged.JaggedArray):
-                    if isinstance(tmp.content, awkward0.array.jagged.JaggedArray):
-                        unflattened = tmp
-                        tmp = tmp.flatten(axis=1)
-
-                    if starts is None:
-                        starts, stops = tmp.starts, tmp.stops
-                    elif not numpy.array_equal(starts, tmp.starts) or not numpy.array_equal(stops, tmp.stops):
-                        raise ValueError("this array has more than one jagged array structure")
-                    if out is None:
-                        out = JaggedArray(starts, stops, Table({n: tmp.content}))
-                    else:
-                        out[n] = tmp
-
-                else:
-                    deferred[n] = tmp
-
-            if out is None:
-                out = Table()
-
-            for n, x in deferred.items():
-                out[n] = x
-
-            m = ""
-            while m in tpe.columns:
-                m = m + " "
-            out[m] = numpy.arange(len(out))
-            globalindex[0] = out[m].flatten()
-
-            for n in tpe.columns:
-                arrayn = unwrap(array[n])
-                if isinstance(arrayn, awkward0.array.jagged.JaggedArray):
-                    if unflattened is None:
-                        localindex.insert(0, out[n].localindex.flatten())
-                    else:
-                        oldloc = unflattened.content.localindex
-                        tab = JaggedArray(oldloc.starts, oldloc.stops, Table({"oldloc": oldloc.content}))
-                        tab["newloc"] = arrayn.localindex.flatten()
-                        localindex.insert(0, tab["newloc"].flatten())
-                    break
-
-            return out[tpe.columns]
+        elif isinstance(a, awkward0.array.objects.StringArray):
+            leaves.append((column, counts, numpy.array(a, dtype=object)))
+
+        elif isinstance(a, awkward0.array.jagged.JaggedArray) and len(a.starts.shape) == 1:
+            recurse(a.flatten(), column, counts + (a.counts,))
+
+        elif isinstance(a, awkward0.array.masked.MaskedArray):
+            mask = a.boolmask(maskedwhen=True)
+            content = a.content
+            if isinstance(a, awkward0.array.masked.IndexedMaskedArray):
+                content = content[numpy.where(mask, 0, a.mask)] if len(content) != 0 else content
+            content = unwrap(content)
+            if not isinstance(content, numpy.ndarray) or len(content.shape) != 1 or content.dtype.names is not None:
+                raise unflattenable(a)
+            if len(content) < len(mask):        # nothing to index: all are missing
+                content = numpy.zeros(len(mask), dtype=content.dtype)
+            leaves.append((column, counts, numpy.ma.MaskedArray(content[:len(mask)], mask)))
+
+        elif isinstance(a, numpy.ndarray) and len(a.shape) == 1:
+            leaves.append((column, counts, a))
 
         else:
-            return recurse(Table({"": array}), awkward0.type.TableType(**{"": tpe}), cols, False)[""]
+            raise unflattenable(a)
 
-    tmp = recurse(array, awkward0.type.fromarray(array).to, (), True)
-    if isinstance(tmp, awkward0.array.jagged.JaggedArray):
-        tmp = tmp.flatten()
+    recurse(array, (), ())
 
-    deepest = max(len(x) for x in columns)
+    structure = max([counts for column, counts, leaf in leaves], key=len) if len(leaves) != 0 else ()
+    for column, counts, leaf in leaves:
+        if not all(numpy.array_equal(x, y) for x, y in zip(counts, structure)):
+            raise ValueError("this array has more than one jagged array structure")
 
-    out = {}
-    for i, col in enumerate(columns):
-        x = tmp
-        for c in col:
-            x = x[c]
-        columns[i] = col + ("",) * (deepest - len(col))
-        out[columns[i]] = x
+    def broadcast(a, level):
+        for counts in structure[level:]:
+            a = a[numpy.repeat(numpy.arange(len(a)), counts)]
+        return a
+
+    index = [broadcast(numpy.arange(len(array)), 0)]
+    for i, counts in enumerate(structure):
+        starts = numpy.cumsum(counts) - counts
+        index.append(broadcast(numpy.arange(counts.sum()) - numpy.repeat(starts, counts), i + 1))
 
-    index = globalindex + localindex
     if len(index) == 1:
         index = pandas.Index(index[0])
     else:
         index = pandas.MultiIndex.from_arrays(index)
 
-    if len(columns) == 1 and deepest == 0:
-        return pandas.Series(out[()], index=index)
+    deepest = max([len(column) for column, counts, leaf in leaves]) if len(leaves) != 0 else 0
+    if deepest == 0 and len(leaves) == 1:
+        return pandas.Series(broadcast(leaves[0][2], len(leaves[0][1])), index=index)
+
+    out, columns = {}, []
+    for column, counts, leaf in leaves:
+        columns.append(column + ("",) * (deepest - len(column)))
+        out[columns[-1]] = broadcast(leaf, len(counts))
+    if len(columns) == 0:
+        return pandas.DataFrame(index=index)
     else:
         return pandas.DataFrame(data=out, index=index, columns=pandas.MultiIndex.from_tuples(columns))
-- 
2.43.0


From ea0be6942593c788871c3a906615400686d40223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 064/103] fix: iterating and indexing unions of two-dimensional
 tags, regular of unions of lists

---
 awkward0/array/union.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 7c23568..1ee7cd2 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -281,6 +281,11 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             self._checkiter()
         self._valid()
 
+        if len(self._tags.shape) != 1:
+            for x in super(UnionArray, self).__iter__(checkiter=checkiter):
+                yield x
+            return
+
         tags = self._tags
         lentags = len(self._tags)
         index = self._index
@@ -318,7 +323,9 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if len(tags.shape) == len(index.shape) == 0:
             return self._contents[tags][(index,) + tail]
         else:
-            if len(tags) == 0:
+            if len(tags.shape) > 1 and tail == ():
+                return self.copy(tags=tags, index=index)       # not all contents can be selected by a multidimensional index
+            elif len(tags) == 0:
                 return self._contents[0][(index,) + tail]
             elif (tags == tags[0]).all():
                 return self._contents[tags[0]][(index,) + tail]
@@ -481,7 +488,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def regular(self):
         self._valid()
         arrays = [self._util_regular(x) for x in self._contents]
-        out = self.numpy.empty(len(self), self.uniondtype(arrays))
+        shape = arrays[0].shape[1:]
+        if any(x.shape[1:] != shape for x in arrays):
+            raise ValueError("some UnionArray possibilities have different shapes than others")
+        out = self.numpy.empty(self._tags.shape + shape, self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
             out[mask] = array[self._index[:len(self._tags)][mask]]
-- 
2.43.0


From ba6f43cf713db97301b134b5e9363a860ead28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 065/103] fix: the type of Arrow unions in a schema

---
 awkward0/arrow.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 627c1bc..b78dde1 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -70,13 +70,7 @@ def schema2type(schema):
                 return out
 
         elif isinstance(tpe, pyarrow.lib.UnionType):
-            out = None
-            for i in range(tpe.num_fields):
-                x = recurse(tpe[i].type, nullable)
-                if out is None:
-                    out = x
-                else:
-                    out = out | x
+            out = awkward0.type.UnionType(*[recurse(tpe[i].type, tpe[i].nullable) for i in range(tpe.num_fields)])
             if nullable:
                 return awkward0.type.OptionType(out)
             else:
-- 
2.43.0


From b0371331044acaff7bf93f6cac31f49a4a4226a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 066/103] fix: concatenating tables narrowed their unions to
 the alternatives in use

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 5e529b4..6bdeea4 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -918,7 +918,7 @@ class Table(awkward0.array.base.AwkwardArray):
         out._view, out._base = None, None
 
         for n in tables[0]._contents:
-            out._contents[n] = cls._util_concatenate([t[n][:len(t)] for t in tables])
+            out._contents[n] = cls._util_concatenate([t[n] if len(t[n]) == len(t) else t[n][:len(t)] for t in tables])
 
         out._valid()
         return out
-- 
2.43.0


From 916a256732746d399055c1f82305543990eac1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 067/103] fix: gathering from chunks that are themselves
 chunked arrays with masked chunks

---
 awkward0/array/chunked.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 61968f0..379d43b 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -506,9 +506,15 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def _likenumpy(self, chunks):
         """whether the chunks can be copied into one Numpy array of self.type; slices of a UnionArray can have a different type in each chunk"""
+        import awkward0.array.indexed
+        import awkward0.array.virtual
         if not self._util_isnumpy(self.type) or self._hasrecordormask():
             return False
-        return all(len(x) == 0 or awkward0.type.fromarray(x).to == self.type.to for x in chunks)
+        def samenumpy(x):
+            while isinstance(x, (awkward0.array.indexed.IndexedArray, awkward0.array.virtual.VirtualArray)):
+                x = x.array if isinstance(x, awkward0.array.virtual.VirtualArray) else x.content
+            return not isinstance(x, ChunkedArray) or x._likenumpy(x._chunks)
+        return all(len(x) == 0 or (awkward0.type.fromarray(x).to == self.type.to and samenumpy(x)) for x in chunks)
 
     def _hasrecordormask(self):
         to = self.type.to
-- 
2.43.0


From 600de6a326d0a044645c3108c563324aa0ba7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 068/103] fix: types of stored jagged unions

---
 awkward0/array/jagged.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3fdd866..88dfb5d 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -308,11 +308,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content.ones_like(**overrides))
 
     def __awkward_serialize__(self, serializer):
+        content = None
         if self._canuseoffset() and len(self) > 0:
             first, last = self._starts[0], self.stops[-1]
             content = self._content
             if isinstance(content, self.numpy.ndarray) or 0 < last - first < len(content):
                 content = content[first:last]        # (an empty slice of a ChunkedArray would not have its type)
+                if awkward0.type.fromarray(content).to != awkward0.type.fromarray(self._content).to:
+                    content = None                   # nor would a slice of a UnionArray that reaches only some of its contents
+        if content is not None:
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-- 
2.43.0


From 3a489d9f10a96cb80832176488503f46ea2b3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 069/103] fix: nbytes and chunkshape were not set with
 check_prop_valid off, and failed constructions of virtual arrays recursed
 when deleted

---
 awkward0/array/chunked.py | 2 +-
 awkward0/array/virtual.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 379d43b..4b0f23f 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -934,7 +934,7 @@ class AppendableArray(ChunkedArray):
                     raise TypeError("chunkshape must be a positive integer or a tuple of integers")
                 except AssertionError:
                     raise ValueError("chunkshape must be a positive integer or tuple of positive integers")
-                self._chunkshape = tuple(value)
+            self._chunkshape = tuple(value)
 
     @property
     def dtype(self):
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index aa43a03..a02289d 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -289,7 +289,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     raise TypeError("nbytes must be an integer or None")
                 if value < 0:
                     raise ValueError("nbytes must be a non-negative integer or None")
-            self._nbytes = value
+        self._nbytes = value
 
     def __len__(self):
         if self._type is None or self.ismaterialized:
@@ -390,7 +390,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __del__(self):
         # TransientKeys are based on runtime ids, which Python may reuse after an object is garbage collected
         # they *MUST* be removed from the cache to avoid confusion; persistentkeys can (and should) stay in
-        if getattr(self, "_cache", None) is not None and isinstance(self._array, VirtualArray.TransientKey):
+        # (self.__dict__ because __getattr__ would materialize an array whose construction was interrupted)
+        if self.__dict__.get("_cache") is not None and isinstance(self.__dict__.get("_array"), VirtualArray.TransientKey):
             try:
                 del self._cache[self._array]
             except:
-- 
2.43.0


From 523e81f0ac5b63282baec8955e62be3c301f9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 070/103] fix: pandas.concat of chunked and virtual arrays

---
 awkward0/pandas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/awkward0/pandas.py b/awkward0/pandas.py
index f8e27b5..5cc32f6 100644
--- a/awkward0/pandas.py
+++ b/awkward0/pandas.py
@@ -137,7 +137,12 @@ class AwkwardSeries(object):
 
     @classmethod
     def _concat_same_type(cls, to_concat):
-        return cls.concatenate(to_concat)
+        out = cls.concatenate([x.array if isinstance(x, awkward0.array.virtual.VirtualArray) else x for x in to_concat])
+        if not isinstance(out, awkward0.array.base.AwkwardArray):
+            out = awkward0.array.chunked.ChunkedArray([out])
+        if not isinstance(out, AwkwardSeries):
+            out = out._topandas({})
+        return out
 
     @property
     def ChunkedArray(self):
-- 
2.43.0


From 0ffd8f502e765a268ec28a7c65704c7dc824e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 071/103] fix: awkward classes as parameters of stored arrays

---
 awkward0/persist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 35c9a3c..319f70e 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -348,7 +348,7 @@ class Serializer(object):
         return spec
 
     def _encode_complex(self, obj, context):
-        if callable(getattr(obj, "__awkward_serialize__", None)):
+        if not isinstance(obj, type) and callable(getattr(obj, "__awkward_serialize__", None)):
             return obj.__awkward_serialize__(self)
 
         if hasattr(obj, "tojson") and hasattr(type(obj), "fromjson"):
-- 
2.43.0


From 2d0c254ef79d603dc3601ce8f07ed48848e1e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 072/103] fix: counts, argsort and argmax of jagged arrays with
 narrow starts and stops overflowed

---
 awkward0/array/jagged.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 88dfb5d..f78c866 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -180,7 +180,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         offsets = cls.counts2offsets(counts.reshape(-1))
         out = cls(offsets[:-1].reshape(counts.shape), offsets[1:].reshape(counts.shape), content)
         out._offsets = offsets if len(counts.shape) == 1 else None
-        out._counts = counts
+        out._counts = counts.astype(cls.INDEXTYPE)
         return out
 
     @classmethod
@@ -413,7 +413,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def counts(self):
         if self._counts is None:
             self._valid()
-            self._counts = self.stops - self._starts
+            self._counts = (self.stops - self._starts).astype(self.INDEXTYPE)    # may be multiplied, so not a narrow integer type
         return self._counts
 
     @counts.setter
@@ -430,7 +430,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._starts = offsets[:-1].reshape(value.shape)
         self._stops = offsets[1:].reshape(value.shape)
         self._offsets = offsets if len(value.shape) == 1 else None
-        self._counts = value
+        self._counts = value.astype(self.INDEXTYPE)
         self._parents = None
         self._isvalid = False
 
@@ -630,12 +630,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     node = node.flatten()
 
                 if isinstance(node, JaggedArray):
-                    counts = node.stops - node._starts
+                    counts = node.counts
                     if head < 0:
                         head = counts + head
                     if not self.numpy.bitwise_and(0 <= head, head < counts).all():
                         raise IndexError("index {0} is out of bounds for jagged min size {1}".format(original_head, counts.min()))
-                    node = self._getitem_shaped(node._content, node._starts + head)
+                    node = self._getitem_shaped(node._content, node._starts.astype(self.INDEXTYPE) + head)
                 else:
                     node = node[:, head]
 
@@ -652,7 +652,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     return node
 
                 shape = node._starts.shape
-                counts = (node.stops - node._starts).reshape(-1)
+                counts = node.counts.reshape(-1)
                 step = 1 if head.step is None else head.step
 
                 if step == 0:
@@ -1588,8 +1588,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         # workaround for lack of general out[...,:1] support
         nonempty = out.counts > 0
-        if self.offsetsaliased(out._starts, out._stops):
-            out.stops = out.stops.copy()
+        out.stops = self.numpy.array(out.stops, dtype=self.INDEXTYPE)
         out.stops[nonempty] = out.starts[nonempty] + 1
         return out
 
@@ -1604,7 +1603,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         reducer = self.JaggedArray.min if ascending else self.JaggedArray.max
         localindex = self.localindex
         out = localindex.empty_like()
-        next_start = self.numpy.zeros_like(out.starts)
+        next_start = self.numpy.zeros(out.starts.shape, dtype=self.INDEXTYPE)
         tmp = self.copy()
         while tmp.content.size > 0:
             best = reducer(tmp) == tmp
-- 
2.43.0


From efef8162e1e5b3de039fbfb002459957de9232c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 073/103] fix: chunked arrays indexed with narrow or unsigned
 integers

---
 awkward0/array/chunked.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 4b0f23f..2ec3472 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -3,6 +3,7 @@
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
 import functools
+import operator
 import awkward0.array.base
 import awkward0.persist
 import awkward0.type
@@ -137,6 +138,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
         if self._util_isinteger(index):
             original_index = index
+            index = int(index)
             if index < 0:
                 index += len(self)
             if index < 0:
@@ -159,9 +161,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     out = self.numpy.empty(0, dtype=self.INDEXTYPE)
 
                 else:
+                    index = index.astype(self.INDEXTYPE)      # not a narrow integer type, to which the length can't be added
                     mask = (index < 0)
                     if mask.any():
-                        index = self._util_deepcopy(index)
                         index[mask] += len(self)
                     if (index < 0).any():
                         raise IndexError("index out of bounds for length {0}".format(len(self)))
@@ -190,6 +192,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
+            index, chunkid = int(index), int(chunkid)
             self.knowchunksizes(chunkid + 1)
             self._valid()
             original_index = index
@@ -206,7 +209,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if len(index) != len(chunkid):
                     raise ValueError("len(index) is {0} and len(chunkid) is {1}, but they should be equal".format(len(index), len(chunkid)))
 
-                self.knowchunksizes(chunkid.max() + 1)
+                index = index.astype(self.INDEXTYPE)
+                chunkid = chunkid.astype(self.INDEXTYPE)
+                self.knowchunksizes(chunkid.max() + 1 if len(chunkid) != 0 else 0)
                 self._valid()
                 chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
                 chunksizes = chunksizes[chunkid]
@@ -353,6 +358,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             return chunk[(localhead,) + tail]
 
         elif isinstance(head, slice):
+            head = slice(*[x if x is None else operator.index(x) for x in (head.start, head.stop, head.step)])
             if head.step == 0:
                 raise ValueError("slice step cannot be zero")
             elif (head.start is None or head.start >= 0) and (head.stop is not None and head.stop >= 0) and (head.step is None or head.step > 0):
-- 
2.43.0


From 19c6f0bb257742476c0ae273f46c174352904a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 074/103] fix: tables and bit masks indexed with narrow or
 unsigned integers

---
 awkward0/array/masked.py | 2 +-
 awkward0/array/table.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 668a178..c90256f 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -583,7 +583,7 @@ class BitMaskedArray(MaskedArray):
         if self._util_isinteger(where):
             if not -len(self._content) <= where < len(self._content):
                 raise IndexError("index {0} is out of bounds for size {1}".format(where, len(self._content)))
-            bytepos, bitmask = self._maskat(where % len(self._content))
+            bytepos, bitmask = self._maskat(int(where) % len(self._content))
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
         elif isinstance(where, slice):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 6bdeea4..22bfc8b 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -498,6 +498,7 @@ class Table(awkward0.array.base.AwkwardArray):
     def _newslice(self, head):
         if self._util_isinteger(head):
             original_head = head
+            head = int(head)
 
             if self._view is None:
                 length = self._length()
@@ -552,6 +553,8 @@ class Table(awkward0.array.base.AwkwardArray):
             head = self._util_toarray(head, self.INDEXTYPE)
             if self._util_isintegertype(head.dtype.type):
                 length = self._length()
+                if head.dtype.newbyteorder("=") == self.numpy.dtype(self.numpy.uint64):
+                    head = head.astype(self.INDEXTYPE)     # because Numpy combines uint64 and int64 as float64
                 negative = (head < 0)
                 if negative.any():
                     head = self.numpy.where(negative, head + length, head)
-- 
2.43.0


From 1c3251f8e708b69b947aa4c8b25ce9217c8bd36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 075/103] fix: uint64 indexes of indexed, sparse and union
 arrays were combined as float64

---
 awkward0/array/base.py    | 8 ++++++++
 awkward0/array/indexed.py | 6 +++---
 awkward0/array/jagged.py  | 5 +----
 awkward0/array/union.py   | 2 +-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index fb82c81..24f15f9 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -423,6 +423,14 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 else:
                     return cls.numpy.array(value, copy=False)
 
+    @classmethod
+    def _util_toindex(cls, value):
+        indextype = cls.JaggedArray.fget(None).INDEXTYPE
+        value = cls._util_toarray(value, indextype, cls.numpy.ndarray)
+        if value.dtype.newbyteorder("=") == cls.numpy.dtype(cls.numpy.uint64):
+            value = value.astype(indextype)    # because Numpy combines uint64 and int64 as float64
+        return value
+
     @classmethod
     def _util_arraystr_draw(cls, x):
         if isinstance(x, tuple):
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 341b65c..90721fe 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -19,7 +19,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def invert(cls, permutation):
         if permutation.size == 0:
             return cls.numpy.zeros(0, dtype=cls.IndexedArray.fget(None).INDEXTYPE)
-        permutation = permutation.reshape(-1)
+        permutation = cls._util_toindex(permutation).reshape(-1)
         out = cls.numpy.zeros(permutation.max() + 1, dtype=cls.IndexedArray.fget(None).INDEXTYPE)
         identity = cls.numpy.arange(len(permutation))
         out[permutation] = identity
@@ -82,7 +82,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @index.setter
     def index(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._util_toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("index must have integer dtype")
@@ -383,7 +383,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @index.setter
     def index(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._util_toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("index must have integer dtype")
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f78c866..6b0378b 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -40,10 +40,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def _toindex(cls, value):
-        value = cls._util_toarray(value, cls.INDEXTYPE, cls.numpy.ndarray)
-        if value.dtype == cls.numpy.dtype(cls.numpy.uint64):
-            value = value.astype(cls.INDEXTYPE)    # because Numpy combines uint64 and int64 as float64
-        return value
+        return cls._util_toindex(value)
 
     @classmethod
     def counts2offsets(cls, counts):
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 1ee7cd2..0c11943 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -131,7 +131,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
     @index.setter
     def index(self, value):
-        value = self._util_toarray(value, self.INDEXTYPE, self.numpy.ndarray)
+        value = self._util_toindex(value)
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("index must have integer dtype")
-- 
2.43.0


From 7d16fc89920274c93397d7674371c2798cc05e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 076/103] fix: assigning at a jagged index of narrow or
 unsigned integers

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 6b0378b..f9d5e34 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -847,7 +847,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
                 counts = where.tojagged(self.counts)._content
 
-                indexes = self.numpy.array(where._content[:whereoffsets[-1]], copy=True)
+                indexes = self.numpy.array(where._content[:whereoffsets[-1]], dtype=self.INDEXTYPE, copy=True)
 
                 negatives = (indexes < 0)
                 indexes[negatives] += counts[negatives]
-- 
2.43.0


From 1291f25a6491befa1619808600318aff68c809c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 077/103] fix: assigning at a jagged mask, or assigning lists,
 of other lengths set unrelated elements

---
 awkward0/array/jagged.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f9d5e34..173e86e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -832,6 +832,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
+                if issubclass(where._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
+                    lengths = where.count_nonzero()
+                else:
+                    lengths = where.counts
+                if not self.numpy.array_equal(lengths.reshape(-1), what.counts.reshape(-1)):
+                    raise ValueError("jagged array to assign has different counts from the elements selected by the jagged array used as index")
                 what = what.flatten()
 
             if len(where.shape) == 1:
@@ -860,6 +866,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 self._content[indexes] = what
 
             elif issubclass(where._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
+                if not self.numpy.array_equal(self.counts, where.counts):
+                    raise ValueError("jagged array used as mask has different counts from the jagged array it is selecting from")
                 index = self.localindex + self.starts
                 flatindex = index.flatten()[where.flatten()]
                 self._content[flatindex] = what
-- 
2.43.0


From b1badc2ef26cede9ce9d34b7bf254b0b8ab32214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 078/103] fix: dir() of a table's row

---
 awkward0/array/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 22bfc8b..4cd6965 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -3,6 +3,7 @@
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
 import functools
+import keyword
 import numbers
 import re
 import types
-- 
2.43.0


From 28bbba672aab0a96e6031e7dcab22878bc94bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 079/103] fix: numpy.array of chunked arrays whose chunks have
 different types inside keeps their values (as objects)

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 2ec3472..10989c6 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -310,7 +310,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         else:
             if dtype is None:
                 types = [awkward0.type.fromarray(x).to for x in self._filledchunks() if len(x) != 0]
-                if any(x != types[0] for x in types):
+                if any(x != types[0] for x in types) or (self._util_isnumpy(self.type) and not self._hasrecordormask()):
                     dtype = self.numpy.dtype(object)       # slices of a UnionArray can have a different type in each chunk
             return super(ChunkedArray, self).__array__(dtype)
 
-- 
2.43.0


From 1311aaabefe423c06dc5fd9d7c43206b8524e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 080/103] fix: numpy.array of unions with multidimensional
 contents

---
 awkward0/array/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 24f15f9..f67d3dc 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -67,16 +67,20 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
         items = list(self)
         missing = [x is None or isinstance(x, self.numpy.ma.core.MaskedConstant) for x in items]
+        shapes = ()
         try:
             shape = self.type.shape[1:]
         except TypeError:
-            shape = ()                                           # unions have no shape
+            shapes = set(getattr(x, "shape", ()) for x in items)     # unions have no shape
+            shape = list(shapes)[0] if len(shapes) == 1 else ()
 
         if dtype is None:
             try:
                 dtype = self.numpy.dtype(self._numpydtype())
+                if len(shapes) > 1:
+                    raise TypeError("elements have different shapes")
             except TypeError:
-                dtype = self.numpy.dtype(object)                 # neither a union nor a table with non-primitive fields has a dtype
+                dtype, shape = self.numpy.dtype(object), ()      # neither a union nor a table with non-primitive fields has a dtype
             if any(missing) and dtype.kind not in ("f", "c"):    # only these have a value (nan) to represent missing
                 dtype, shape = self.numpy.dtype(object), ()
             elif dtype.names is not None:
-- 
2.43.0


From 9e8fdd591d9d84dab9841d1f5efeefcec728d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 081/103] fix: indexes after a slice of an ObjectArray apply to
 the generated objects

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 1552325..38c0fd4 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -198,7 +198,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=content)
 
         else:
-            return [x[tail] for x in content]   # FIXME: in self.copy(content=content), right?
+            return [self.generator(x, *self._args, **self._kwargs)[tail[0] if len(tail) == 1 else tail] for x in content]
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From 193ecd34567a416ec8540816fb444a9af0e7620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 082/103] fix: SparseArray.deepcopy copies an array default

---
 awkward0/array/indexed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 90721fe..bfd6177 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -325,6 +325,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         out._index = self._util_deepcopy(out._index)
         out._content = self._util_deepcopy(out._content)
         out._inverse = self._util_deepcopy(out._inverse)
+        if isinstance(out._default, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            out._default = self._util_deepcopy(out._default)
         return out
 
     def empty_like(self, **overrides):
-- 
2.43.0


From 2e866d080bbb042b8cee76e51f0680b06fdd6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 083/103] fix: reducers of a SparseArray with jagged content
 reduce its default, too

---
 awkward0/array/indexed.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index bfd6177..dc5f907 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -691,8 +691,17 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         return self._util_regular(self.dense)
 
     def _reduce(self, ufunc, identity, dtype):
+        import awkward0.array.jagged
+
         if self._util_hasjagged(self._content):
-            return self.copy(content=self._content._reduce(ufunc, identity, dtype))
+            default = self.default
+            if isinstance(self._content, awkward0.array.jagged.JaggedArray):       # the default is a list, too
+                if len(default) == 0:
+                    default = self._content.content[0:0]
+                elif not isinstance(default, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                    default = self._content.fromiter([default])[0]
+                default = self._util_reduce(default, ufunc, identity, dtype)
+            return self.copy(content=self._content._reduce(ufunc, identity, dtype), default=default)
 
         else:
             return self._util_reduceprepared(self._prepare(ufunc, identity, dtype), ufunc, identity)
-- 
2.43.0


From 59290a9bc56194f4dcf533d20a9055895cc5d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 084/103] fix: in a tuple index of wrapper arrays, what follows
 the first index applies to each selected element

---
 awkward0/array/base.py    | 32 ++++++++++++++++++++++++++++++++
 awkward0/array/chunked.py | 11 ++++++++---
 awkward0/array/indexed.py | 36 ++++++++++++++++++++++++++++--------
 awkward0/array/masked.py  |  8 +++++++-
 awkward0/array/union.py   | 10 +++++++---
 5 files changed, 82 insertions(+), 15 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index f67d3dc..395de3a 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -427,6 +427,38 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 else:
                     return cls.numpy.array(value, copy=False)
 
+    @classmethod
+    def _util_hasarrays(cls, where):
+        return any(isinstance(x, (cls.numpy.ndarray, list)) for x in where)
+
+    @classmethod
+    def _util_pairarrays(cls, head, tail):
+        """integer arrays of the same length in place of an array `head` and the arrays in `tail`, which iterate together as in Numpy"""
+        at = [i for i, x in enumerate(tail) if cls._util_hasarrays([x])]
+        arrays = [cls._util_toindex(x) for x in [head] + [tail[i] for i in at]]
+        arrays = [cls.numpy.nonzero(x)[0] if issubclass(x.dtype.type, (cls.numpy.bool_, cls.numpy.bool)) else x for x in arrays]
+        try:
+            arrays = cls.numpy.broadcast_arrays(*arrays)
+        except ValueError:
+            raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0}".format(" ".join(str(x.shape) for x in arrays)))
+        tail = list(tail)
+        for i, x in zip(at, arrays[1:]):
+            tail[i] = x
+        return arrays[0], tuple(tail)
+
+    @classmethod
+    def _util_attail(cls, tail, where):
+        """the part of `tail` that belongs to some elements of an array it is paired with"""
+        return tuple(x[where] if cls._util_hasarrays([x]) else x for x in tail)
+
+    @classmethod
+    def _util_gather(cls, content, head, index, tail):
+        """items of `content` at an integer array `index` computed from `head`; arrays in `tail` iterate together with arrays in `head`, but not with slices"""
+        if cls._util_hasarrays(tail) and not cls._util_hasarrays(head):
+            return content[index][(slice(None),) * len(index.shape) + tail]
+        else:
+            return content[(index,) + tail]
+
     @classmethod
     def _util_toindex(cls, value):
         indextype = cls.JaggedArray.fget(None).INDEXTYPE
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 10989c6..30c7ae7 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -455,11 +455,16 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
         else:
             head = self.numpy.array(head, copy=False)
+            if self._util_hasarrays(tail) and len(head.shape) == 1:
+                if issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)) and len(self) != len(head):
+                    raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
+                head, tail = self._util_pairarrays(head, tail)
+
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 if len(head) == 0 and len(self._chunks) == 0:
                     return self.copy(chunks=[])[tail]
                 elif len(head) == 0:
-                    return self.copy(chunks=[self._chunks[0][(slice(0, 0),) + tail]])
+                    return self.copy(chunks=[self._chunks[0][(head if self._util_hasarrays(tail) else slice(0, 0),) + tail]])
 
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
@@ -473,7 +478,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
                         localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][(localindex,) + tail])
+                        chunks.append(self._chunks[cid][(localindex,) + self._util_attail(tail, slice(offsets[i], offsets[i + 1]))])
                     return self.copy(chunks=chunks)
 
                 else:
@@ -488,7 +493,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     if tail == ():
                         return out
                     else:
-                        return out[(slice(None),) + tail]
+                        return out[(self.numpy.arange(len(out)) if self._util_hasarrays(tail) else slice(None),) + tail]
 
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index dc5f907..4c7fea2 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -155,8 +155,10 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             where = (where,)
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
-        head = self._index[head]
-        return self._content[(head,) + tail]
+        index = self._index[head]
+        if self._util_isinteger(index):
+            return self._content[(index,) + tail]
+        return self._util_gather(self._content, head, index, tail)
 
     def _setcolumns(self, names, columns, index=None):
         self._valid()
@@ -545,7 +547,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 index = index[::-1]
                 content = content[::-1]
 
-            return self.copy(length=length, index=index, content=content)[tail]
+            return self._getitem_tail(length, index, content, tail)
 
         elif isinstance(head, SparseArray) and len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
             head._valid()
@@ -560,7 +562,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             index = where[self._index[keep]]
             content = self._content[:len(keep)][keep]
 
-            return self.copy(length=length, index=index, content=content)[tail]
+            if self._util_hasarrays(tail):
+                return self[(self.numpy.nonzero(mask)[0],) + tail]
+            return self._getitem_tail(length, index, content, tail)
 
         else:
             head = self._util_toarray(head, self.INDEXTYPE)
@@ -577,8 +581,11 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
+                if self._util_hasarrays(tail):
+                    head, tail = self._util_pairarrays(head, tail)
+
                 if len(head) == 0:
-                    return self._content[head][tail]
+                    return self._content[(head,) + tail]
 
                 match = self.numpy.searchsorted(self._index, head, side="left")
                 explicit = (match < len(self._index))
@@ -589,13 +596,26 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 tags[explicit] = 1
                 index[explicit] = self.numpy.arange(self.numpy.count_nonzero(explicit))
 
-                content = self._content[match[explicit]]
-                default = self.numpy.array([self.default])
-                return self.UnionArray(tags, index, [default, content])[tail]
+                content = self._content[(match[explicit],) + self._util_attail(tail, explicit)]
+                if self._util_hasarrays(tail):
+                    default = [self.default[self._util_attail(tail, i)] for i in self.numpy.nonzero(~explicit)[0]]
+                    index[~explicit] = self.numpy.arange(len(default))
+                    default = self.numpy.array(default)
+                elif explicit.all():
+                    default = content[0:0]
+                else:
+                    default = self.numpy.array([self.default if tail == () else self.default[tail]])
+                return self.UnionArray(tags, index, [default, content])
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _getitem_tail(self, length, index, content, tail):
+        if tail == ():
+            return self.copy(length=length, index=index, content=content)
+        default = self._default if len(index) == length else self.default[tail]
+        return self.copy(length=length, index=index, content=content[(slice(None),) + tail], default=default)
+
     def _getinverse(self):
         if self._inverse is None:
             self._inverse = self.numpy.searchsorted(self._index, self.numpy.arange(self._length, dtype=self.INDEXTYPE), side="left")
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index c90256f..18f4c61 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -211,6 +211,8 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 return self._content[:len(self._mask)][(head,) + tail]
 
         else:
+            if self._util_hasarrays(tail) and self._util_hasarrays((head,)):
+                head, tail = self._util_pairarrays(head, tail)
             mask = self._mask[head]
             if tail != () and ((self._maskedwhen and mask.any()) or (not self._maskedwhen and not mask.all())):
                 raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
@@ -641,6 +643,8 @@ class BitMaskedArray(MaskedArray):
                 return self._content[(head,) + tail]
 
         else:
+            if self._util_hasarrays(tail) and self._util_hasarrays((head,)):
+                head, tail = self._util_pairarrays(head, tail)
             mask = self._maskwhere(head)
             if tail != () and ((self._maskedwhen and mask.any()) or (not self._maskedwhen and not mask.all())):
                 raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
@@ -800,11 +804,13 @@ class IndexedMaskedArray(MaskedArray):
                 return self._content[(maskindex,) + tail]
 
         else:
+            if self._util_hasarrays(tail) and self._util_hasarrays((head,)):
+                head, tail = self._util_pairarrays(head, tail)
             maskindex = self._mask[head]
             if tail != () and (maskindex == self._maskedwhen).any():
                 raise ValueError("masked element ({0}) is not subscriptable".format(self.masked))
             elif tail != ():
-                return self.fromcontent(self._content[(maskindex,) + tail])
+                return self.fromcontent(self._util_gather(self._content, (head,), maskindex, tail))
             else:
                 return self.copy(mask=maskindex)
 
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 0c11943..4c6d289 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -326,12 +326,16 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             if len(tags.shape) > 1 and tail == ():
                 return self.copy(tags=tags, index=index)       # not all contents can be selected by a multidimensional index
             elif len(tags) == 0:
-                return self._contents[0][(index,) + tail]
+                return self._util_gather(self._contents[0], head, index, tail)
             elif (tags == tags[0]).all():
-                return self._contents[tags[0]][(index,) + tail]
+                return self._util_gather(self._contents[tags[0]], head, index, tail)
             elif tail == ():
                 return self.copy(tags=tags, index=index)
             else:
+                paired = self._util_hasarrays(tail) and self._util_hasarrays(head)
+                if paired:
+                    where, tail = self._util_pairarrays(self.numpy.arange(len(tags)), tail)
+                    tags, index = tags[where], index[where]
                 outtags = self.numpy.empty_like(tags)
                 outindex = self.numpy.empty_like(index)
                 contents = []
@@ -339,7 +343,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                     mask = (tags == tag)
                     outtags[mask] = newtag
                     outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
-                    contents.append(self._contents[tag][(index[mask],) + tail])
+                    contents.append(self._util_gather(self._contents[tag], head, index[mask], self._util_attail(tail, mask) if paired else tail))
                 return self.copy(tags=outtags, index=outindex, contents=contents)
 
     def _setcolumns(self, names, columns, index=None):
-- 
2.43.0


From 4048eb9ac0f1b13f2706a8c27861612134f6db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 085/103] fix: negative-step slices of a SparseArray with
 repeated indexes keep the first content, as indexing does

---
 awkward0/array/indexed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 4c7fea2..6b8b5ef 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -544,8 +544,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             index = index[mask]
             content = self._content[:len(mask)][mask]
             if step < 0:
-                index = index[::-1]
-                content = content[::-1]
+                index, first = self.numpy.unique(index, return_index=True)     # of repeated indexes, the first content counts
+                content = content[first]
 
             return self._getitem_tail(length, index, content, tail)
 
-- 
2.43.0


From b27d7ef0691a734375486718be98ff02ca4444f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 086/103] fix: boolean masks on a SparseArray whose index goes
 beyond its length

---
 awkward0/array/indexed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6b8b5ef..5ab2840 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -556,10 +556,11 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
             mask = head.dense
             where = self.numpy.cumsum(mask) - 1       # new position of each item that passes the mask
-            keep = mask[self._index]
+            known = self._index[self._index < self._length]
+            keep = mask[known]
 
             length = self.numpy.count_nonzero(mask)
-            index = where[self._index[keep]]
+            index = where[known[keep]]
             content = self._content[:len(keep)][keep]
 
             if self._util_hasarrays(tail):
-- 
2.43.0


From b9c775aa8ed6455928822950969d4a9556a163e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 087/103] fix: implied and record defaults of a SparseArray for
 any type of content

---
 awkward0/array/indexed.py | 67 +++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 5ab2840..9428049 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -412,20 +412,54 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @property
     def default(self):
-        import awkward0.array.jagged
-
         if self._default is None:
-            if isinstance(self._content, awkward0.array.jagged.JaggedArray):
-                return self._content.content[0:0]
-            elif self._content.shape[1:] == ():
-                return self._content.dtype.type(0)
-            else:
-                return self.numpy.zeros(self._content.shape[1:], dtype=self._content.dtype)
-
+            return self._util_zero(self._content)[0]
         else:
             return self._default
 
-        self._isvalid = False
+    @classmethod
+    def _util_onlyone(cls, default):
+        import awkward0.array.table
+        if isinstance(default, awkward0.array.table.Table.Row):
+            return default._tablerow()
+        elif isinstance(default, awkward0.array.base.AwkwardArray):
+            return cls.JaggedArray.fget(None).fromcounts([len(default)], default)
+        else:
+            return cls.numpy.array([default])
+
+    @classmethod
+    def _util_zero(cls, content):
+        """array with one element, the one that is implied if an element is not in `content`"""
+        import awkward0.array.chunked
+        import awkward0.array.jagged
+        import awkward0.array.masked
+        import awkward0.array.table
+        import awkward0.array.union
+        import awkward0.array.virtual
+
+        if isinstance(content, awkward0.array.jagged.JaggedArray):
+            return content.copy(starts=[0], stops=[0])
+        elif isinstance(content, awkward0.array.objects.StringArray):
+            return content.fromiter([b"" if content.encoding is None else ""], encoding=content.encoding)
+        elif isinstance(content, (awkward0.array.masked.MaskedArray, awkward0.array.objects.ObjectArray)):
+            return cls.numpy.array([None], dtype=cls.numpy.dtype(object))
+        elif isinstance(content, awkward0.array.table.Table):
+            out = content.empty_like()
+            for n in content.columns:
+                out[n] = cls._util_zero(content[n])
+            return out
+        elif isinstance(content, awkward0.array.union.UnionArray):
+            return cls._util_zero(([x for x in content.contents if isinstance(x, cls.numpy.ndarray)] + list(content.contents))[0])
+        elif isinstance(content, SparseArray):
+            return content.copy(length=1, index=[])
+        elif isinstance(content, IndexedArray):
+            return cls._util_zero(content.content)
+        elif isinstance(content, awkward0.array.virtual.VirtualArray):
+            return cls._util_zero(content.array)
+        elif isinstance(content, awkward0.array.chunked.ChunkedArray):
+            return cls._util_zero(content.chunks[0] if len(content.chunks) != 0 else cls.numpy.empty(0, dtype=cls.DEFAULTTYPE))
+        else:
+            return cls.numpy.zeros((1,) + content.shape[1:], dtype=content.dtype)
 
     @default.setter
     def default(self, value):
@@ -493,6 +527,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             out = cls.__new__(cls)
             out.__dict__.update(self.__dict__)
             out._content = content
+            if self._default is not None:
+                out._default = self._default[where]
             return out
 
         if isinstance(where, tuple) and len(where) == 0:
@@ -605,7 +641,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif explicit.all():
                     default = content[0:0]
                 else:
-                    default = self.numpy.array([self.default if tail == () else self.default[tail]])
+                    default = self._util_onlyone(self.default if tail == () else self.default[tail])
                 return self.UnionArray(tags, index, [default, content])
 
             else:
@@ -686,11 +722,14 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @property
     def counts(self):
+        import awkward0.array.table
+
         self._valid()
         content = self._util_counts(self._content)
+        default = self.default
         try:
-            defaultlen = len(self.default)
-        except:
+            defaultlen = -1 if isinstance(default, (awkward0.array.table.Table.Row, self.numpy.void)) else len(default)
+        except TypeError:
             defaultlen = -1
         out = self.numpy.full(self._length, defaultlen, dtype=content.dtype)
         if len(self._index) != 0:
@@ -739,7 +778,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     def _mapcontent(self, function):
         out = self.copy(content=function(self._content))
         if self._default is not None:
-            out.default = function(self.numpy.array([self._default]))[0]
+            out.default = function(self._util_onlyone(self._default))[0]
         return out
 
     def astype(self, dtype):
-- 
2.43.0


From 4ef927fa9f0e2702bff01d7bdb6b88da21f8cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 088/103] fix: selections of a SparseArray with jagged or
 wrapped content keep its implied default of the same type

---
 awkward0/array/indexed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 9428049..19ff025 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -640,8 +640,10 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                     default = self.numpy.array(default)
                 elif explicit.all():
                     default = content[0:0]
+                elif self._default is None:
+                    default = self._util_zero(self._content)[(slice(None),) + tail]
                 else:
-                    default = self._util_onlyone(self.default if tail == () else self.default[tail])
+                    default = self._util_onlyone(self._default if tail == () else self._default[tail])
                 return self.UnionArray(tags, index, [default, content])
 
             else:
-- 
2.43.0


From 8260d3742b99b7b2d9bba18c6ff806eaa4b891dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 089/103] fix: reducers of a SparseArray whose lists are in any
 kind of array reduce its default, too

---
 awkward0/array/indexed.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 19ff025..b312ea1 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -753,16 +753,18 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         return self._util_regular(self.dense)
 
     def _reduce(self, ufunc, identity, dtype):
-        import awkward0.array.jagged
+        import awkward0.array.table
 
         if self._util_hasjagged(self._content):
             default = self.default
-            if isinstance(self._content, awkward0.array.jagged.JaggedArray):       # the default is a list, too
+            if isinstance(default, awkward0.array.table.Table.Row):
+                default = default._tablerow()._reduce(ufunc, identity, dtype)[0]
+            elif default is not None:                                     # a list, too
                 if len(default) == 0:
-                    default = self._content.content[0:0]
-                elif not isinstance(default, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
-                    default = self._content.fromiter([default])[0]
-                default = self._util_reduce(default, ufunc, identity, dtype)
+                    default = self._util_zero(self._content)
+                else:
+                    default = self.JaggedArray.fromiter([default])
+                default = default._reduce(ufunc, identity, dtype)[0]
             return self.copy(content=self._content._reduce(ufunc, identity, dtype), default=default)
 
         else:
-- 
2.43.0


From c8527e13bdf21d10ed4c3c285d1b3a85077d0930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 090/103] fix: concatenation of arrays of different classes is
 a UnionArray

---
 awkward0/array/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 395de3a..5ed6170 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -682,9 +682,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             arrays = (self,) + tuple(arrays)
 
         def resolve(t):
-            for b in t.__bases__:
-                if issubclass(t, AwkwardArray):
-                    return resolve(b)
+            for b in reversed(t.__mro__):          # the class that defines how arrays like these are concatenated
+                if b is not AwkwardArray and "_concatenate_axis0" in b.__dict__:
+                    return b
             else:
                 return t
 
-- 
2.43.0


From c35148e6c38e9e6b3820369e3ac8069ffbe339f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 091/103] fix: the implied default of a SparseArray with masked
 content is a missing value of the content's type

---
 awkward0/array/indexed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index b312ea1..aebb988 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -441,7 +441,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return content.copy(starts=[0], stops=[0])
         elif isinstance(content, awkward0.array.objects.StringArray):
             return content.fromiter([b"" if content.encoding is None else ""], encoding=content.encoding)
-        elif isinstance(content, (awkward0.array.masked.MaskedArray, awkward0.array.objects.ObjectArray)):
+        elif isinstance(content, awkward0.array.masked.MaskedArray):
+            return cls.MaskedArray.fget(None)([True], cls._util_zero(content.content), maskedwhen=True)
+        elif isinstance(content, awkward0.array.objects.ObjectArray):
             return cls.numpy.array([None], dtype=cls.numpy.dtype(object))
         elif isinstance(content, awkward0.array.table.Table):
             out = content.empty_like()
-- 
2.43.0


From c95712b0c901f723f48bcb5975952a349f2313a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 092/103] fix: a column assigned to a sparse table keeps its
 type if no record is addressed

---
 awkward0/array/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 5ed6170..41c1bcb 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -931,11 +931,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             return column
         column = cls._util_dense(column)
         if len(index) == 0:
-            column = cls._util_unwrap(column)
-            if isinstance(column, cls.numpy.ndarray):
-                return cls.numpy.zeros((length,) + column.shape[1:], dtype=column.dtype)
-            else:
-                return cls.IndexedMaskedArray.fget(None)(cls.numpy.full(length, -1, dtype=cls.INDEXTYPE), column)
+            return cls.SparseArray.fget(None)._util_zero(column)[cls.numpy.zeros(length, dtype=cls.INDEXTYPE)]
         inverse = cls.numpy.zeros(length, dtype=cls.INDEXTYPE)
         known = cls.IndexedArray.fget(None).invert(index)
         inverse[:len(known)] = known
-- 
2.43.0


From 5e22d4c72325d6d5124b0b935ec5007aae65422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 093/103] fix: changing the length of a SparseArray forgets its
 inverse index

---
 awkward0/array/indexed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index aebb988..1319c33 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -380,6 +380,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if value < 0:
                 raise ValueError("length must be a non-negative integer")
         self._length = value
+        self._inverse = None
 
     @property
     def index(self):
-- 
2.43.0


From 8e5d776132f881a11fe2eb575f1fa4b941c8fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 094/103] fix: chunks assigned to a ChunkedArray have sizes of
 their own

---
 awkward0/array/chunked.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 30c7ae7..f73e73e 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -26,8 +26,6 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         out._offsets = self._offsets
         if chunks is not None:
             out.chunks = chunks
-            out._chunksizes = []
-            out._offsets = None
         if chunksizes is not None:
             out.chunksizes = chunksizes
         return out
@@ -85,6 +83,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 raise TypeError("chunks must be iterable")
         self._chunks = [self._util_toarray(x, self.DEFAULTTYPE) for x in value]
         self._types = [None] * len(self._chunks)
+        self._chunksizes = []
+        self._offsets = None
 
     @property
     def chunksizes(self):
-- 
2.43.0


From 312b83b3780f46490922b3657b047c6be3f22e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 095/103] fix: an IndexedMaskedArray checks and converts what
 replaces the attributes of its copy, and checks a changed maskedwhen

---
 awkward0/array/masked.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 18f4c61..831bfcf 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -418,7 +418,7 @@ class BitMaskedArray(MaskedArray):
         out = super(BitMaskedArray, self).copy(mask=mask, content=content, maskedwhen=maskedwhen)
         out._lsborder = self._lsborder
         if lsborder is not None:
-            out._lsborder = lsborder
+            out.lsborder = lsborder
         return out
 
     def _mine(self, overrides):
@@ -678,11 +678,11 @@ class IndexedMaskedArray(MaskedArray):
         out._maskedwhen = self._maskedwhen
         out._isvalid = self._isvalid
         if mask is not None:
-            out._mask = mask
+            out.mask = mask
         if content is not None:
-            out._content = content
+            out.content = content
         if maskedwhen is not None:
-            out._maskedwhen = maskedwhen
+            out.maskedwhen = maskedwhen
         return out
 
     def __awkward_serialize__(self, serializer):
@@ -728,6 +728,7 @@ class IndexedMaskedArray(MaskedArray):
             if not self._util_isinteger(value):
                 raise TypeError("maskedwhen must be an integer for IndexedMaskedArray")
         self._maskedwhen = value
+        self._isvalid = False
 
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
-- 
2.43.0


From 70b8aa93d394d738353b6a1ce61dbd677f30c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 096/103] fix: contents given to Table.copy are converted to
 arrays

---
 awkward0/array/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 4cd6965..1012b27 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -341,9 +341,9 @@ class Table(awkward0.array.base.AwkwardArray):
         out._rowname = self._rowname
         out._contents = self._contents
         if contents is not None and isinstance(contents, dict):
-            out._contents = OrderedDict(contents.items())
+            out.contents = OrderedDict(contents.items())
         elif contents is not None:
-            out._contents = OrderedDict(contents)
+            out.contents = OrderedDict(contents)
         else:
             out._contents = OrderedDict(self._contents.items())
         return out
-- 
2.43.0


From 50d3f46a8b128e795f36aae1a118804965b06061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 097/103] fix: a nested cross is only remembered as its tuples
 while it is one

---
 awkward0/array/jagged.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 173e86e..04fcde2 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1396,10 +1396,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def cross(self, other, nested=False):
         if isinstance(other, self.VirtualArray):
             other = other.array
-        if hasattr(self, "_nestedcross"):
-            thyself = self._nestedcross
-        else:
-            thyself = self
+        thyself = self._unnestedcross()
 
         argcross = thyself._argcross(other)
         left, right = argcross._content._contents.values()
@@ -1411,18 +1408,26 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if nested:
             old = out
             out = self.JaggedArray.fromcounts(thyself.counts, self.JaggedArray.fromcounts(thyself.tojagged(other.counts).flatten(), out._content))
-            out._nestedcross = old
+            out._nestedcross = old, out._starts, out._stops, out._content
 
-        if hasattr(self, "_nestedcross"):
+        if thyself is not self:
             counts = out.counts.copy()
             mask = (self.counts != 0)
             counts[mask] //= self.counts[mask]
             old = out
             out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.tojagged(counts).flatten(), out._content))
-            out._nestedcross = old
+            out._nestedcross = old, out._starts, out._stops, out._content
 
         return out
 
+    def _unnestedcross(self):
+        # the tuples of a nested cross, unless the array has since become something else (a column of it, for example)
+        if hasattr(self, "_nestedcross"):
+            tuples, starts, stops, content = self._nestedcross
+            if self._starts is starts and self._stops is stops and self._content is content:
+                return tuples
+        return self
+
     def _canuseoffset(self):
         self._valid()
         return self.offsetsaliased(self._starts, self._stops) or (len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]))
-- 
2.43.0


From 3df118367f02e88042ae25d2c690e978dde5f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 098/103] fix: every spelling of utf-8 is converted to Arrow

---
 awkward0/arrow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index b78dde1..dd174bf 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -203,7 +203,7 @@ def toarrow(obj):
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
                 convert = lambda length, offsets, content, valid: arrow_type.from_buffers(arrow_offset_type, length, [valid, offsets, content])
-            elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
+            elif codecs.lookup(obj.encoding).name == "utf-8":
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-- 
2.43.0


From 60dd7439903f80297b5030635d10c4ca3cf021a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 099/103] fix: any column of records broadcasts into a
 JaggedArray

---
 awkward0/array/jagged.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 04fcde2..9480c30 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1060,7 +1060,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         for i in range(len(inputs)):
             if isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and not isinstance(inputs[i], JaggedArray):
-                data = self._util_toarray(inputs[i], inputs[i].dtype)
+                data = inputs[i]
                 if starts.shape != data.shape:
                     raise ValueError("cannot broadcast JaggedArray of shape {0} with array of shape {1}".format(starts.shape, data.shape))
 
@@ -1081,19 +1081,27 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             content[n] = recurse(x[n])
                         return content
 
+                    elif isinstance(x, awkward0.array.base.AwkwardArray):      # a column of a Table
+                        if good is None:
+                            return x[parents]
+                        elif good.any():
+                            return x[self.numpy.where(good, parents, 0)]
+                        else:
+                            return x[:0]
+
                     elif good is None:
                         if len(x.shape) == 0:
                             content = self.numpy.full(len(parents), x, dtype=x.dtype)
                         else:
-                            content = x.reshape(-1)[parents]
+                            content = x.reshape((-1,) + x.shape[len(starts.shape):])[parents]
                         return content
 
                     else:
-                        content = self.numpy.empty(len(parents), dtype=x.dtype)
+                        content = self.numpy.empty((len(parents),) + x.shape[len(starts.shape):], dtype=x.dtype)
                         if len(x.shape) == 0:
                             content[good] = x
                         else:
-                            content[good] = x.reshape(-1)[parents[good]]
+                            content[good] = x.reshape((-1,) + x.shape[len(starts.shape):])[parents[good]]
                         return content
 
                 content = recurse(data)
-- 
2.43.0


From c4bca1908c84f9f11cbd2189b7137afc7bc43f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:23 +0000
Subject: [PATCH 100/103] fix: rows combine with tables column by column, from
 either side

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 1012b27..e4b172d 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -693,6 +693,8 @@ class Table(awkward0.array.base.AwkwardArray):
             if isinstance(x, (awkward0.array.virtual.VirtualArray, awkward0.array.indexed.IndexedArray, awkward0.array.chunked.ChunkedArray, awkward0.array.union.UnionArray, awkward0.array.masked.MaskedArray)):
                 return x.__array_ufunc__(ufunc, method, *inputs, **kwargs)
 
+        inputs = [x._tablerow() if isinstance(x, Table.Row) else x for x in inputs]
+
         inputsdict = None
         for x in inputs:
             if isinstance(x, Table):
-- 
2.43.0


From d3c032d03c4104f0f1f70517618c8ee7f97278de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 101/103] fix: unions combine correctly for more than 256
 combinations of possibilities

---
 awkward0/array/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 4c6d289..22f3760 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -392,7 +392,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         combos = self.numpy.stack(tags, axis=-1).view([(str(i), x.dtype) for i, x in enumerate(tags)]).reshape(tags[0].shape)
 
-        outtags = self.numpy.empty(tags[0].shape, dtype=self.TAGTYPE)
+        outtags = self.numpy.empty(tags[0].shape, dtype=self.INDEXTYPE)     # there may be more combinations than TAGTYPE can count
         outindex = self.numpy.empty(tags[0].shape, dtype=self.INDEXTYPE)
 
         out = None
-- 
2.43.0


From 51e9136845d3569b1e3f9699336875b909debf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 102/103] fix: types, columns and nbytes of arrays that virtual
 arrays make anew each time

---
 awkward0/array/virtual.py | 11 ++++++++---
 awkward0/type.py          |  5 +++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index a02289d..14b5f34 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -272,7 +272,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         else:
             seen.add(id(self))
             if self._nbytes is None or self.ismaterialized:
-                array = self.array
+                array = self._keeparray(seen)
                 return (array.nbytes if isinstance(array, self.numpy.ndarray) else array._getnbytes(seen))
             else:
                 return self._nbytes
@@ -346,6 +346,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 self._cache[self.key] = self._array
                 return self._array
 
+    def _keeparray(self, seen):
+        array = self.array
+        seen.add(lambda: array)      # keeping array, so that its id is not given to another array
+        return array
+
     @property
     def ismaterialized(self):
         if self._cache is None:
@@ -515,13 +520,13 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return []
         seen.add(id(self))
-        return self._util_columns_descend(self.array, seen)
+        return self._util_columns_descend(self._keeparray(seen), seen)
 
     def _util_rowname(self, seen):
         if id(self) in seen:
             raise TypeError("not a Table, so there is no rowname")
         seen.add(id(self))
-        return self._util_rowname_descend(self.array, seen)
+        return self._util_rowname_descend(self._keeparray(seen), seen)
 
     def astype(self, dtype):
         return self.array.astype(dtype)
diff --git a/awkward0/type.py b/awkward0/type.py
index 5500e54..3fca3a2 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -649,7 +649,8 @@ def fromarray(array):
 
 def _fromarray(array, seen):
     if id(array) not in seen:
-        seen[id(array)] = placeholder = Placeholder()
+        placeholder = Placeholder()
+        seen[id(array)] = array, placeholder      # keeping array, so that its id is not given to another array
 
         if isinstance(array, numpy.ndarray):
             if array.dtype.names is None:
@@ -671,7 +672,7 @@ def _fromarray(array, seen):
         else:
             placeholder.value = array._gettype(seen)
 
-    return seen[id(array)]
+    return seen[id(array)][1]
 
 class Placeholder(Type):
     def __init__(self, value=None):
-- 
2.43.0


From 0d14897dfb54c68d8a2eb479eef8983b40087982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 103/103] fix: virtual arrays leave nothing behind in a cache
 they no longer use

---
 awkward0/array/virtual.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 14b5f34..f62f1f9 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -213,6 +213,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if not value is None and not (callable(getattr(value, "__getitem__", None)) and callable(getattr(value, "__setitem__", None)) and callable(getattr(value, "__delitem__", None))):
                 raise TypeError("cache must be None, a dict, or have __getitem__/__setitem__/__delitem__ methods")
+        if value is not self.__dict__.get("_cache"):
+            self._uncache()
         self._cache = value
 
     @property
@@ -343,8 +345,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     return self.materialize()
             else:
                 # abnormal state (7)
-                self._cache[self.key] = self._array
-                return self._array
+                array = self._array
+                self._array = self.key
+                self._cache[self._array] = array
+                return array
 
     def _keeparray(self, seen):
         array = self.array
@@ -387,12 +391,13 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._array = array
         else:
             # states (3) and (4)
+            self._uncache()
             self._array = self.key
             self._cache[self._array] = array
 
         return array
 
-    def __del__(self):
+    def _uncache(self):
         # TransientKeys are based on runtime ids, which Python may reuse after an object is garbage collected
         # they *MUST* be removed from the cache to avoid confusion; persistentkeys can (and should) stay in
         # (self.__dict__ because __getattr__ would materialize an array whose construction was interrupted)
@@ -402,6 +407,9 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             except:
                 pass
 
+    def __del__(self):
+        self._uncache()
+
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
-- 
2.43.0

