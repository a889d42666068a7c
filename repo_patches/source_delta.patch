From 5c4c233ac1911d373a98ff76013eec46d25e847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 001/127] fix: drop a circuit's cached string representation
 when its layers or lines change

---
 pygsti/objects/circuit.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 1925499..33f5fdf 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -413,6 +413,7 @@ class Circuit(object):
             else:
                 self.delete_lines(tuple(removed_not_idling))
         self._line_labels = tuple(value)
+        self._str = None  # the line labels are part of the string representation
 
     @property
     def name(self):
@@ -587,6 +588,7 @@ class Circuit(object):
         Removes all the gates in a circuit (preserving the number of lines).
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         self._labels = []
 
     def _proc_layers_arg(self, layers):
@@ -640,6 +642,7 @@ class Circuit(object):
         """ Removes the `indx`-th component from the `ilayer`-th layer """
         #(works for special case when layer is just a *single* component)
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         if isinstance(self._labels[ilayer], list):
             del self._labels[ilayer][indx]
         else:
@@ -651,6 +654,7 @@ class Circuit(object):
         """ Add `val` to the `ilayer`-th layer """
         #(works for special case when layer is just a *single* component)
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         if isinstance(self._labels[ilayer], list):
             self._labels[ilayer].append(val)
         else:  # currently ilayer-th layer is a single component!
@@ -658,6 +662,7 @@ class Circuit(object):
 
     def _replace_layer_component(self, ilayer, indx, val):
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         """ Replace `indx`-th component of `ilayer`-th layer with `val` """
         #(works for special case when layer is just a *single* component)
         if isinstance(self._labels[ilayer], list):
@@ -790,6 +795,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         #Note: this means self._labels contains nested lists of simple labels
 
         #Convert layers to a list/tuple of layer indices
@@ -888,6 +894,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         if insertBefore is None: insertBefore = len(self._labels)
         elif insertBefore < 0: insertBefore = len(self._labels) + insertBefore
 
@@ -1000,6 +1007,7 @@ class Circuit(object):
         else:
             i = self.line_labels.index(insertBefore)
         self._line_labels = self.line_labels[0:i] + tuple(line_labels) + self.line_labels[i:]
+        self._str = None  # the line labels are part of the string representation
 
     def append_idling_lines(self, line_labels):
         """
@@ -1111,6 +1119,7 @@ class Circuit(object):
             Note: layers & lines must be lists/tuples of values; they can't be slices or single vals
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         for i in layers:
             new_layer = []
             for l in self._layer_components(i):  # loop over labels in this layer
@@ -1165,6 +1174,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         layers = self._proc_layers_arg(layers)
         for i in reversed(sorted(layers)):
             del self._labels[i]
@@ -1188,6 +1198,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         lines = self._proc_lines_arg(lines)
         for i in range(len(self._labels)):
             new_layer = []
@@ -1571,6 +1582,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         #assert(self.identity == circuit.identity), "The identity labels must be the same!"
 
         #Construct new line labels (of final circuit)
@@ -1640,6 +1652,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
 
         def replace(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
@@ -1879,6 +1892,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(gatename): return mapper.get(gatename, None) \
@@ -1914,6 +1928,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(line_label): return mapper[line_label] \
@@ -1971,6 +1986,7 @@ class Circuit(object):
         # OK even for static circuits because it won't affect the hashed value (labels only)
         assert(set(order) == set(self.line_labels)), "The line labels must be the same!"
         self._line_labels = tuple(order)
+        self._str = None  # the line labels are part of the string representation
 
     def is_line_idling(self, line_label, idle_layer_labels=None):
         """
@@ -2071,6 +2087,7 @@ class Circuit(object):
         # to remove in self._labels (as all the lines are idling)
         self._line_labels = tuple([x for x in self.line_labels
                                    if x in all_sslbls])  # preserve order
+        self._str = None  # the line labels are part of the string representation
 
     def replace_with_idling_line(self, line_label, clear_straddlers=True):
         """
@@ -2099,6 +2116,7 @@ class Circuit(object):
         None
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
         self._labels = list(reversed(self._labels))  # reverses the layer order
         #FUTURE: would need to reverse each layer too, if layer can have *sublayers*
 
@@ -2259,6 +2277,7 @@ class Circuit(object):
             False if the circuit is unchanged, and True otherwise.
         """
         assert(not self._static), "Cannot edit a read-only circuit!"
+        self._str = None  # any existing string representation is about to become stale
 
         inds_to_remove = []
         for ilayer, layer_labels in enumerate(self._labels):
-- 
2.43.0


From cb7aabdddb2624380ac298614679773193d92dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 002/127] fix: refuse insert_labels_as_lines on a read-only
 circuit before altering its lines

---
 pygsti/objects/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 33f5fdf..03854bd 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1059,6 +1059,7 @@ class Circuit(object):
         -------
         None
         """
+        assert(not self._static), "Cannot edit a read-only circuit!"
         if layerToInsertBefore is None: layerToInsertBefore = 0
         elif layerToInsertBefore < 0: layerToInsertBefore = len(self._labels) + layerToInsertBefore
 
-- 
2.43.0


From 385bd73758cfdc6062e962a9ebde973ad35b6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 003/127] fix: call a function-valued mapper in
 Circuit.map_names_inplace/map_state_space_labels_inplace

---
 pygsti/objects/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 03854bd..58ca430 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1897,7 +1897,7 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(gatename): return mapper.get(gatename, None) \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(gatename)
 
         def map_names(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
@@ -1933,7 +1933,7 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(line_label): return mapper[line_label] \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(line_label)
 
         self._line_labels = tuple((mapper_func(l) for l in self.line_labels))
 
-- 
2.43.0


From 94ae83eb4d4bda36ef8cb29766ee86bb8a076ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 004/127] fix: raise the IndexError for a malformed circuit
 index instead of returning it

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 58ca430..4115fc6 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -620,7 +620,7 @@ class Circuit(object):
     def _proc_key_arg(self, key):
         """ Pre-process the key argument used by many methods """
         if isinstance(key, tuple):
-            if len(key) != 2: return IndexError("Index must be of the form <layerIndex>,<lineIndex>")
+            if len(key) != 2: raise IndexError("Index must be of the form <layerIndex>,<lineIndex>")
             layers = key[0]
             lines = key[1]
         else:
-- 
2.43.0


From 2b688cf5e1b9410dfacd61a02d9254ae7284f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 005/127] fix: keep line labels a tuple when
 Circuit.tensor_circuit is given a line_order list

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 4115fc6..a54c88c 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1606,7 +1606,7 @@ class Circuit(object):
             if len(extra) > 0:
                 raise ValueError("`line_order` had nonpresent line labels %s." % str(extra))
 
-            new_line_labels = line_order
+            new_line_labels = tuple(line_order)
         else:
             new_line_labels = self.line_labels + circuit.line_labels
 
-- 
2.43.0


From 41c7ffb0bc43b3923957f5326c72292b0d64b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 006/127] fix: use builtin types in place of aliases that numpy
 no longer provides

---
 pygsti/algorithms/germselection.py | 2 +-
 pygsti/extras/crosstalk/core.py    | 2 +-
 pygsti/io/jsoncodec.py             | 2 +-
 pygsti/objects/circuit.py          | 2 +-
 pygsti/objects/datacomparator.py   | 4 ++--
 pygsti/objects/qubitgraph.py       | 2 +-
 pygsti/report/workspace.py         | 2 +-
 pygsti/report/workspaceplots.py    | 4 ++--
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index 1564242..fdebeda 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -478,7 +478,7 @@ def calc_bulk_twirled_DDD(model, germsList, eps=1e-6, check=False,
     #NEW: faster, one-germ-at-a-time computation requires less memory.
     nGerms, _, vec_model_dim = twirledDeriv.shape
     twirledDerivDaggerDeriv = _np.empty((nGerms, vec_model_dim, vec_model_dim),
-                                        dtype=_np.complex)
+                                        dtype=complex)
     for i in range(nGerms):
         twirledDerivDaggerDeriv[i, :, :] = _np.dot(
             twirledDeriv[i, :, :].conjugate().T, twirledDeriv[i, :, :])
diff --git a/pygsti/extras/crosstalk/core.py b/pygsti/extras/crosstalk/core.py
index 98d6f1b..f28aa4b 100644
--- a/pygsti/extras/crosstalk/core.py
+++ b/pygsti/extras/crosstalk/core.py
@@ -982,7 +982,7 @@ def pairwise_indep_expts(q):
     for i in range(q):
         for a in range(q):
             for b in range(q):
-                vals[a*q+b,i] = _np.int(_np.mod(a*i+b,q))
+                vals[a*q+b,i] = int(_np.mod(a*i+b,q))
 
     length = _np.shape(vals)[0]
     return length, vals
diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 3842b99..a848958 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -196,7 +196,7 @@ def encode_std_obj(py_obj, binary):
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
         data = py_obj.tobytes() if binary else tostr(_base64.b64encode(py_obj.tobytes()))
-        if(py_obj.dtype == _np.object): raise TypeError("Cannot serialize object ndarrays!")
+        if(py_obj.dtype == object): raise TypeError("Cannot serialize object ndarrays!")
         return {'__ndarray__': data,
                 'dtype': descr,
                 'kind': kind,
diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index a54c88c..f28944b 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -74,7 +74,7 @@ def _np_to_quil_def_str(name, input_array):
 def _num_to_rqc_str(num):
     """Convert float to string to be included in RQC quil DEFGATE block
     (as written by _np_to_quil_def_str)."""
-    num = _np.complex(_np.real_if_close(num))
+    num = complex(_np.real_if_close(num))
     if _np.imag(num) == 0:
         output = str(_np.real(num))
         return output
diff --git a/pygsti/objects/datacomparator.py b/pygsti/objects/datacomparator.py
index 64d4e52..8d52f00 100644
--- a/pygsti/objects/datacomparator.py
+++ b/pygsti/objects/datacomparator.py
@@ -72,11 +72,11 @@ def loglikelihoodRatio(nListList):
         The log-likehood ratio for this model comparison.
     """
     nListC = _np.sum(nListList, axis=0)
-    pListC = nListC / _np.float(_np.sum(nListC))
+    pListC = nListC / float(_np.sum(nListC))
     lC = loglikelihood(pListC, nListC)
     li_list = []
     for nList in nListList:
-        pList = _np.array(nList) / _np.float(_np.sum(nList))
+        pList = _np.array(nList) / float(_np.sum(nList))
         li_list.append(loglikelihood(pList, nList))
     lS = _np.sum(li_list)
     return -2 * (lC - lS)
diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 2ae19b0..4308a35 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -144,7 +144,7 @@ class QubitGraph(object):
 
         #Determine whether we'll be using directions or not: set self.directions
         if initial_connectivity is not None:
-            if initial_connectivity.dtype == _np.bool:
+            if initial_connectivity.dtype == bool:
                 assert(direction_names is None), \
                     "`initial_connectivity` must have *integer* indices when `direction_names` is non-None"
             else:
diff --git a/pygsti/report/workspace.py b/pygsti/report/workspace.py
index 794004e..2173337 100644
--- a/pygsti/report/workspace.py
+++ b/pygsti/report/workspace.py
@@ -1288,7 +1288,7 @@ class SwitchValue(object):
         self.dependencies = dependencies
 
         shape = [len(self.parent.positionLabels[i]) for i in dependencies]
-        self.base = _np.empty(shape, dtype=_np.object)
+        self.base = _np.empty(shape, dtype=object)
         index_all = (slice(None, None),) * len(shape)
         self.base[index_all] = NotApplicable(self.ws)
 
diff --git a/pygsti/report/workspaceplots.py b/pygsti/report/workspaceplots.py
index 29bc50a..825eb99 100644
--- a/pygsti/report/workspaceplots.py
+++ b/pygsti/report/workspaceplots.py
@@ -1928,7 +1928,7 @@ def _mx_fn_drifttvd(plaq, x, y, instabilityanalyzertuple):
 
 
 def _separate_outcomes_matrix(plaq, elements, fmt="%.3g"):
-    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    list_mx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, _, elIndices, _ in plaq.iter_simplified():
         list_mx[i, j] = ", ".join(["NaN" if _np.isnan(x) else
                                    (fmt % x) for x in elements[elIndices]])
@@ -1941,7 +1941,7 @@ def _outcome_to_str(x):  # same function as in writers.py
 
 
 def _addl_mx_fn_sl(plaq, x, y, extra):
-    slmx = _np.empty((plaq.rows, plaq.cols), dtype=_np.object)
+    slmx = _np.empty((plaq.rows, plaq.cols), dtype=object)
     for i, j, opstr, elIndices, outcomes in plaq.iter_simplified():
         slmx[i, j] = ", ".join([_outcome_to_str(ol) for ol in outcomes])
     return slmx
-- 
2.43.0


From 79381749d02101777927bef590367b30720eada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 007/127] fix: Circuit.str setter rejects strings with a
 different number of layers

---
 pygsti/objects/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index f28944b..e448692 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -467,7 +467,8 @@ class Circuit(object):
         cparser = _CircuitParser()
         chk, chk_labels = cparser.parse(value)
 
-        if not all([my_layer in (chk_lbl, [chk_lbl]) for chk_lbl, my_layer in zip(chk, self._labels)]):
+        if len(chk) != len(self._labels) or \
+           not all([my_layer in (chk_lbl, [chk_lbl]) for chk_lbl, my_layer in zip(chk, self._labels)]):
             raise ValueError(("Cannot set .str to %s because it doesn't"
                               " evaluate to %s (this circuit)") %
                              (value, self.str))
-- 
2.43.0


From baf1dccc071864d677bb5ede063d6682c6dc41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 008/127] fix: refuse item assignment on a row of a static
 DataSet

---
 pygsti/objects/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index dfa331a..b250e75 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -397,6 +397,7 @@ class DataSetRow(object):
 
     def __setitem__(self, indexOrOutcomeLabel, val):
         if isinstance(indexOrOutcomeLabel, _numbers.Integral):
+            if self.dataset.bStatic: raise ValueError("Cannot set elements of rows of a *static* DataSet.")
             index = indexOrOutcomeLabel; tup = val
             assert(len(tup) in (2, 3)), "Must set to a (<outcomeLabel>,<time>[,<repetitions>]) value"
             ol = _ld.OutcomeLabelDict.to_outcome(tup[0])  # strings -> tuple outcome labels
@@ -419,6 +420,8 @@ class DataSetRow(object):
             outcomeIndxToLookFor = self.dataset.olIndex.get(outcomeLbl, None)
             for i, outcomeIndx in enumerate(self.oli):
                 if outcomeIndx == outcomeIndxToLookFor:
+                    if self.dataset.bStatic:
+                        raise ValueError("Cannot set elements of rows of a *static* DataSet.")
                     self.reps[i] = count; break
             else:  # need to add a new label & entry to reps[]
                 raise NotImplementedError("Cannot create new outcome labels by assignment")
-- 
2.43.0


From 03b64b7d64c6a41d8f0dd5d1585e62088d1a6c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 009/127] fix: drop cached counts when a static DataSet's
 outcome labels are renamed

---
 pygsti/objects/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index b250e75..383b086 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -2312,3 +2312,5 @@ class DataSet(object):
         #Note: rebuild reverse-dict self.ol:
         self.olIndex = new_olIndex
         self.ol = _OrderedDict([(i, ol) for (ol, i) in self.olIndex.items()])
+        if self.bStatic:  # cached counts are keyed by the old labels
+            self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}
-- 
2.43.0


From dc7a2b54591d616ed66e6a6763bbb0f05bff5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 010/127] fix: hand out a copy of a DataSetRow's cached counts,
 not the cache itself

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 383b086..65969f0 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -469,7 +469,7 @@ class DataSetRow(object):
 
     @property
     def counts(self):
-        if self._cntcache: return self._cntcache  # if not None *and* len > 0
+        if self._cntcache: return self._cntcache.copy()  # if not None *and* len > 0
         ret = self._get_counts()
         if self._cntcache is not None:  # == and empty dict {}
             self._cntcache.update(ret)
-- 
2.43.0


From 75fcb9802f51d5789755e804327b97362fad1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 011/127] fix: DataSet.load sets repData when a static data set
 has no repetition counts

---
 pygsti/objects/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 65969f0..77bec09 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -2261,6 +2261,8 @@ class DataSet(object):
             self.timeData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
             if useReps:
                 self.repData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
+            else:
+                self.repData = None
             self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}  # init cnt_cache afresh
         else:
             self.oliData = []
-- 
2.43.0


From 25b7089f86340528ab0db74b118c669d51f5ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 012/127] fix: DataSet keeps its own copy of the outcome-label
 index dictionary it is given

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 77bec09..b4ea838 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -768,7 +768,7 @@ class DataSet(object):
         #                  values = integer indices mapping oliData (integers) onto
         #                           the outcome labels.
         if outcomeLabelIndices is not None:
-            self.olIndex = outcomeLabelIndices
+            self.olIndex = _OrderedDict(outcomeLabelIndices)  # copy b/c we may modify our olIndex later
             self.olIndex_max = max(self.olIndex.values()) if len(self.olIndex) > 0 else -1
         elif outcomeLabels is not None:
             tup_outcomeLabels = [_ld.OutcomeLabelDict.to_outcome(ol)
-- 
2.43.0


From 2b122a53e5a0e2fbdb20f637728111cb92358b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 013/127] fix: copies of a DataSet keep its outcome-label
 indices

---
 pygsti/objects/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index b4ea838..d84dd15 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1968,7 +1968,7 @@ class DataSet(object):
         if self.bStatic:
             return self  # doesn't need to be copied since data can't change
         else:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _copy.deepcopy(self.cirIndex)
             copyOfMe.oliData = [el.copy() for el in self.oliData]
@@ -1987,7 +1987,7 @@ class DataSet(object):
     def copy_nonstatic(self):
         """ Make a non-static copy of this DataSet. """
         if self.bStatic:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _OrderedDict([(opstr, i) for i, opstr in enumerate(self.cirIndex.keys())])
             copyOfMe.oliData = []
-- 
2.43.0


From 97e3924faad7e401ddf43d9c2e05ba9ad57f95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 014/127] fix: copies of a DataSet keep its comment and do not
 share its auxiliary info

---
 pygsti/objects/dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index d84dd15..de2c546 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1969,7 +1969,7 @@ class DataSet(object):
             return self  # doesn't need to be copied since data can't change
         else:
             copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
-                               collisionAction=self.collisionAction)
+                               collisionAction=self.collisionAction, comment=self.comment)
             copyOfMe.cirIndex = _copy.deepcopy(self.cirIndex)
             copyOfMe.oliData = [el.copy() for el in self.oliData]
             copyOfMe.timeData = [el.copy() for el in self.timeData]
@@ -1981,14 +1981,14 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
+            copyOfMe.auxInfo = _copy.deepcopy(self.auxInfo)
             return copyOfMe
 
     def copy_nonstatic(self):
         """ Make a non-static copy of this DataSet. """
         if self.bStatic:
             copyOfMe = DataSet(outcomeLabelIndices=self.olIndex,
-                               collisionAction=self.collisionAction)
+                               collisionAction=self.collisionAction, comment=self.comment)
             copyOfMe.cirIndex = _OrderedDict([(opstr, i) for i, opstr in enumerate(self.cirIndex.keys())])
             copyOfMe.oliData = []
             copyOfMe.timeData = []
@@ -2003,7 +2003,7 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
+            copyOfMe.auxInfo = _copy.deepcopy(self.auxInfo)
             return copyOfMe
         else:
             return self.copy()
-- 
2.43.0


From 7c3b641296af1acf6c6e7c8c972ad083b70f8f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 015/127] fix: MultiDataSet.add_dataset records unit
 repetitions for a data set without repetition counts

---
 pygsti/objects/multidataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index c6744fe..f89cb2d 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -449,6 +449,8 @@ class MultiDataSet(object):
                     self.repDict = _OrderedDict(
                         [(nm, _np.ones(dataLen, self.repType)) for nm in self])
                 self.repDict[datasetName] = dataset.repData
+            elif self.repDict is not None:
+                self.repDict[datasetName] = _np.ones(len(ds_oliData), self.repType)
 
         else:
             # Merge data due to differences in self.cirIndex and dataset.cirIndex, which can
-- 
2.43.0


From 917f0923ce6e4793c5ab6ede0123c43b03d76c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 016/127] fix: un-pickled and loaded MultiDataSets know their
 data types

---
 pygsti/objects/multidataset.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index f89cb2d..93d8824 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -93,6 +93,13 @@ class MultiDataSet(object):
     where `datasetName` may be a string OR a tuple.
     """
 
+    #data types - should stay in sync with DataSet
+    # (class attributes so un-pickled and loaded objects have them too)
+    oliType = _np.uint32
+    timeType = _np.float64
+    repType = _np.float32
+    # thought: _np.uint16 but doesn't play well with rescaling
+
     def __init__(self, oliDict=None, timeDict=None, repDict=None,
                  circuitIndices=None,
                  outcomeLabels=None, outcomeLabelIndices=None,
@@ -236,12 +243,6 @@ class MultiDataSet(object):
         else:
             self.auxInfo = _DefaultDict(dict, auxInfo)
 
-        #data types - should stay in sync with DataSet
-        self.oliType = _np.uint32
-        self.timeType = _np.float64
-        self.repType = _np.float32
-        # thought: _np.uint16 but doesn't play well with rescaling
-
     def get_outcome_labels(self):
         """
         Get a list of *all* the outcome labels contained in this MultiDataSet.
-- 
2.43.0


From b5990b56dd3311b5936f69de225da745d787b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 017/127] fix: MultiDataSet does not share auxiliary-info
 entries with added data sets or copies

---
 pygsti/objects/multidataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index 93d8824..a899365 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -522,7 +522,7 @@ class MultiDataSet(object):
         # Update auxInfo
         if update_auxinfo and dataset.auxInfo:
             if len(self.auxInfo) == 0:
-                self.auxInfo.update(dataset.auxInfo)
+                self.auxInfo.update(_copy.deepcopy(dataset.auxInfo))  # may be updated by later additions
             else:
                 for circuit, aux in dataset.auxInfo.items():
                     self.auxInfo[circuit].update(aux)
@@ -542,7 +542,8 @@ class MultiDataSet(object):
                             circuitIndices=_copy.deepcopy(self.cirIndex) if (self.cirIndex is not None) else None,
                             outcomeLabelIndices=_copy.deepcopy(self.olIndex) if (self.olIndex is not None) else None,
                             collisionActions=self.collisionActions, comments=_copy.deepcopy(self.comments),
-                            comment=(self.comment + " copy") if self.comment else None, auxInfo=self.auxInfo)
+                            comment=(self.comment + " copy") if self.comment else None,
+                            auxInfo=_copy.deepcopy(self.auxInfo))
 
     def __getstate__(self):
         toPickle = {'cirIndexKeys': list(map(_cir.CompressedCircuit,
-- 
2.43.0


From 6732a8a634c99dc911b0d511b11dd02722c883b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 018/127] fix: renaming or mapping a label keeps its time,
 arguments and repetitions

---
 pygsti/objects/label.py | 61 +++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 2f2b3ed..93af0ab 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -281,11 +281,13 @@ class LabelTup(Label, tuple):
         -------
         Label
         """
+        if self.sslbls is None:
+            return self  # acts on *all* lines, so there's nothing to map
         if isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
-        return Label(self.name, mapped_sslbls)
+        return Label(self.name, mapped_sslbls, self.time)
 
     #OLD
     #def __iter__(self):
@@ -319,7 +321,7 @@ class LabelTup(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTup(self.name + s, self.sslbls)
+            return LabelTup((self.name + s,) + self[1:], self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -358,7 +360,7 @@ class LabelTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTup(newname, self.sslbls) if (self.name == oldname) else self
+        return LabelTup((newname,) + self[1:], self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -447,6 +449,25 @@ class LabelStr(Label, str):
         """
         return self.startswith(prefix)
 
+    def map_state_space_labels(self, mapper):
+        """
+        Return a copy of this Label with all of the state-space-labels
+        (often just qubit labels) updated according to a mapping function.
+        Since this label has no state-space-labels, this is the label itself.
+
+        Parameters
+        ----------
+        mapper : dict or function
+            A dictionary whose keys are the existing state-space-label values
+            and whose value are the new labels, or a function which takes a
+            single (existing label) argument and returns a new label.
+
+        Returns
+        -------
+        Label
+        """
+        return self
+
     def __str__(self):
         s = self[:]  # converts to a normal str
         if self.time != 0.0:
@@ -458,7 +479,7 @@ class LabelStr(Label, str):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelStr(self.name + str(s))
+            return LabelStr(self.name + str(s), self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -491,7 +512,7 @@ class LabelStr(Label, str):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelStr(newname) if (self.name == oldname) else self
+        return LabelStr(newname, self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -611,7 +632,7 @@ class LabelTupTup(Label, tuple):
         -------
         Label
         """
-        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)))
+        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)), self.time)
 
     def __str__(self):
         """
@@ -664,7 +685,7 @@ class LabelTupTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)))
+        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)), self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -826,14 +847,16 @@ class CircuitLabel(Label, tuple):
         -------
         Label
         """
-        if isinstance(mapper, dict):
-            mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
+        if self.sslbls is None:
+            mapped_sslbls = None
+        elif isinstance(mapper, dict):
+            mapped_sslbls = tuple((mapper[sslbl] for sslbl in self.sslbls))
         else:  # assume mapper is callable
-            mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
+            mapped_sslbls = tuple((mapper(sslbl) for sslbl in self.sslbls))
         return CircuitLabel(self.name,
                             tuple((lbl.map_state_space_labels(mapper) for lbl in self.components)),
                             mapped_sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def __str__(self):
         """
@@ -900,7 +923,7 @@ class CircuitLabel(Label, tuple):
         return CircuitLabel(self.name,
                             tuple((x.replacename(oldname, newname) for x in self.components)),
                             self.sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1065,6 +1088,8 @@ class LabelTupWithArgs(Label, tuple):
         -------
         Label
         """
+        if self.sslbls is None:
+            return self  # acts on *all* lines, so there's nothing to map
         if isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
@@ -1093,7 +1118,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTupWithArgs(self.name + s, self.sslbls, self.time, self.args)
+            return LabelTupWithArgs((self.name + s,) + self[1:], self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -1132,7 +1157,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupWithArgs(newname, self.sslbls, self.time, self.args) if (self.name == oldname) else self
+        return LabelTupWithArgs((newname,) + self[1:], self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1264,8 +1289,8 @@ class LabelTupTupWithArgs(Label, tuple):
         -------
         Label
         """
-        return LabelTupTupWithArgs(tuple((lbl.map_state_space_labels(mapper)
-                                          for lbl in self.components)), self.time, self.args)
+        return LabelTupTupWithArgs(self[0:self[0]] + tuple((lbl.map_state_space_labels(mapper)
+                                                            for lbl in self.components)), self.time)
 
     def __str__(self):
         """
@@ -1328,8 +1353,8 @@ class LabelTupTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTupWithArgs(tuple((x.replacename(oldname, newname) for x in self.components)),
-                                   self.time, self.args)
+        return LabelTupTupWithArgs(self[0:self[0]] + tuple((x.replacename(oldname, newname)
+                                                            for x in self.components)), self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
-- 
2.43.0


From 397056f241b943542ac6c8c5087a67e88c51ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 019/127] fix: pickling a string label does not append its time
 to its name

---
 pygsti/objects/label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 93af0ab..bc7e9f9 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -502,7 +502,7 @@ class LabelStr(Label, str):
     def __reduce__(self):
         # Need to tell serialization logic how to create a new Label since it's derived
         # from the immutable tuple type (so cannot have its state set after creation)
-        return (LabelStr, (str(self), self.time), None)
+        return (LabelStr, (self[:], self.time), None)
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
-- 
2.43.0


From 131ae603f750cca938cbb9e93b9e1ef6c921d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 020/127] fix: parallel labels with arguments can be created
 and printed

---
 pygsti/objects/label.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index bc7e9f9..4766efc 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -1196,15 +1196,16 @@ class LabelTupTupWithArgs(Label, tuple):
         """
         assert(time is None or isinstance(time, float)), "`time` must be a floating point value, received: " + str(time)
         assert(len(args) > 0), "`args` must be a nonempty list/tuple of hashable arguments"
-        tupOfLabels = (1 + len(args),) + args + tuple((Label(tup) for tup in tupOfTups))  # Note tup can be a Label
+        components = tuple((Label(tup) for tup in tupOfTups))
+        tupOfLabels = (1 + len(args),) + tuple(args) + components  # Note tup can be a Label
         # stores: (K, args, subLabels) where K is the index of the start of subLabels
 
         #if time is not None:
         #    assert(all([(time == l.time or l.time is None) for l in tupOfLabels[1 + len(args):]])), \
         #        "Component times do not match compound label time!"
         if time is None:
-            time = 0.0 if len(tupOfLabels) == 0 else \
-                max([lbl.time for lbl in tupOfLabels])
+            time = 0.0 if len(components) == 0 else \
+                max([lbl.time for lbl in components])
         return cls.__new__(cls, tupOfLabels, time)
 
     def __new__(cls, tupOfLabels, time=0.0):
@@ -1306,7 +1307,7 @@ class LabelTupTupWithArgs(Label, tuple):
         else:
             timestr = ""
 
-        return "[" + "".join([str(lbl) for lbl in self]) + argstr + timestr + "]"
+        return "[" + "".join([str(lbl) for lbl in self.components]) + argstr + timestr + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
-- 
2.43.0


From f180f34694bab8371093c333ae9124eb9ec297c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 021/127] fix: in-place renaming/mapping of a circuit keeps
 gate arguments, times and sub-circuits

---
 pygsti/objects/circuit.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index e448692..126270b 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1658,9 +1658,7 @@ class Circuit(object):
 
         def replace(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.name == old_gatename:
-                    newobj = _Label(new_gatename, obj.sslbls)
-                else: newobj = obj
+                newobj = obj.replacename(old_gatename, new_gatename)
             else:
                 newobj = [replace(sub) for sub in obj]
             return newobj
@@ -1902,9 +1900,12 @@ class Circuit(object):
 
         def map_names(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.issimple():  # *simple* label
+                if isinstance(obj, _CircuitLabel):  # keep sub-circuit's lines, repetitions, etc.
+                    newobj = _CircuitLabel(obj.name, [map_names(comp) for comp in obj.components],
+                                           obj.sslbls, obj.reps, obj.time)
+                elif obj.issimple():  # *simple* label
                     new_name = mapper_func(obj.name)
-                    newobj = _Label(new_name, obj.sslbls) \
+                    newobj = obj.replacename(obj.name, new_name) \
                         if (new_name is not None) else obj
                 else:  # compound label
                     newobj = _Label([map_names(comp) for comp in obj.components])
@@ -1940,9 +1941,7 @@ class Circuit(object):
 
         def map_sslbls(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                new_sslbls = [mapper_func(l) for l in obj.sslbls] \
-                    if (obj.sslbls is not None) else None
-                newobj = _Label(obj.name, new_sslbls)
+                newobj = obj.map_state_space_labels(mapper_func)
             else:
                 newobj = [map_sslbls(sub) for sub in obj]
             return newobj
-- 
2.43.0


From 07dfa088f98a382aab50339ba8cd6fb70e9d4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 022/127] fix: editing a circuit keeps the arguments and times
 of labels it moves or completes

---
 pygsti/objects/circuit.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 126270b..c2b0f9d 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -97,7 +97,10 @@ def _label_to_nested_lists_of_simple_labels(lbl, default_sslbls=None, always_ret
         lbl = _Label(lbl)  # e.g. a string or list/tuple of labels, etc.
     if lbl.issimple():  # a *simple* label - the elements of our lists
         if lbl.sslbls is None and default_sslbls is not None:
-            lbl = _Label(lbl.name, default_sslbls)
+            if isinstance(lbl, _CircuitLabel):
+                lbl = _CircuitLabel(lbl.name, lbl.components, default_sslbls, lbl.reps, lbl.time)
+            else:
+                lbl = _Label(lbl.name, default_sslbls, lbl.time, lbl.args)
         return [lbl] if always_return_list else lbl
     return [_label_to_nested_lists_of_simple_labels(l, default_sslbls, False)
             for l in lbl.components]  # a *list*
@@ -2191,7 +2194,7 @@ class Circuit(object):
                         #see if layerA happens to *not* have anything on lblB.sslbls:
                         if layerA_sslbls is None or \
                            (lblB.sslbls is not None and len(set(lblB.sslbls).intersection(layerA_sslbls)) == 0):
-                            applies.append((-1, b, lblB.name, lblB.sslbls))  # shift label over
+                            applies.append((-1, b, lblB, lblB.sslbls))  # shift label over
                             break
 
                 if len(applies) > 0:
@@ -2202,8 +2205,8 @@ class Circuit(object):
                 sorted_applies = sorted(applies, key=lambda x: -x[1])  # sort in order of descending 'b' for removes
                 ilayer_inds_to_remove = []
                 for a, b, new_Aname, sslbls in sorted_applies:
-                    if a == -1:  # Note: new_Aname cannot be None here
-                        self._append_layer_component(ilayer, _Label(new_Aname, sslbls))
+                    if a == -1:  # Note: new_Aname is the label to shift (so it keeps its args, etc.)
+                        self._append_layer_component(ilayer, new_Aname)
                     elif new_Aname is None:
                         ilayer_inds_to_remove.append(a)  # remove layer component - but wait to do so in order
                     else:
-- 
2.43.0


From 109d104923e81c0b1bbd80ba351127a7cc50dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 023/127] fix: pure-python state-vector composed/embedded
 representations can be used and pickled

---
 pygsti/objects/replib/slowreplib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index f2b2f0a..38f1007 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -755,7 +755,7 @@ class SVOpRep_Embedded(SVOpRep):
         super(SVOpRep_Embedded, self).__init__(dim)
 
     def __reduce__(self):
-        return (DMOpRep_Embedded, (self.embedded,
+        return (SVOpRep_Embedded, (self.embedded,
                                    self.numBasisEls, self.actionInds,
                                    self.blocksizes, self.embeddedDim,
                                    self.nComponents, self.iActiveBlock,
@@ -817,7 +817,7 @@ class SVOpRep_Composed(SVOpRep):
     # exactly the same as DM case
     def __init__(self, factor_op_reps, dim):
         #assert(len(factor_op_reps) > 0), "Composed gates must contain at least one factor gate!"
-        self.factors_reps = factor_op_reps
+        self.factor_reps = factor_op_reps
         super(SVOpRep_Composed, self).__init__(dim)
 
     def __reduce__(self):
@@ -836,7 +836,7 @@ class SVOpRep_Composed(SVOpRep):
         return state
 
     def reinit_factor_op_reps(self, new_factor_op_reps):
-        self.factors_reps = new_factor_op_reps
+        self.factor_reps = new_factor_op_reps
 
 
 class SVOpRep_Sum(SVOpRep):
-- 
2.43.0


From 0e879257883e1ff25d89ce72d4d0442850db7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 024/127] fix: StandardGST can be written to a directory (no
 auxiliary type for a member it lacks)

---
 pygsti/protocols/gst.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 3d987bd..3094416 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -466,7 +466,6 @@ class StandardGST(_proto.Protocol):
         self.auxfile_types['gaugeopt_suite'] = 'pickle'
         self.auxfile_types['gaugeopt_target'] = 'pickle'
         self.auxfile_types['advancedOptions'] = 'pickle'
-        self.auxfile_types['comm'] = 'reset'
 
     #def run_using_germs_and_fiducials(self, dataset, target_model, prep_fiducials, meas_fiducials, germs, maxLengths):
     #    design = StandardGSTDesign(target_model, prep_fiducials, meas_fiducials, germs, maxLengths)
-- 
2.43.0


From 0dd7bd32fd9a067e287e0b04e4432fd1176c935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 025/127] fix: LinearGateSetTomography stores its models and
 options in files JSON cannot hold

---
 pygsti/protocols/gst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 3094416..b7b9be6 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -373,6 +373,11 @@ class LinearGateSetTomography(_proto.Protocol):
         self.output_pkl = output_pkl
         self.verbosity = verbosity
 
+        self.auxfile_types['target_model'] = 'pickle'
+        self.auxfile_types['gaugeopt_suite'] = 'pickle'
+        self.auxfile_types['gaugeopt_target'] = 'pickle'
+        self.auxfile_types['advancedOptions'] = 'pickle'
+
     def check_if_runnable(self, data):
         """Raises a ValueError if LGST cannot be run on data"""
         edesign = data.edesign
-- 
2.43.0


From 3a9b14a3768f3cc84052a0bb2a554078646921cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 026/127] fix: a copied circuit keeps its name

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index c2b0f9d..afd8624 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -585,7 +585,7 @@ class Circuit(object):
         Circuit
         """
         if editable == "auto": editable = not self._static
-        return Circuit(self.layertup, self.line_labels, None, editable, self._str, check=False)
+        return Circuit(self.layertup, self.line_labels, None, editable, self._str, name=self._name, check=False)
 
     def clear(self):
         """
-- 
2.43.0


From 1908e0ec73c5c920f0d4691ebd4f0d69dde94747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 027/127] fix: a copied evaluation tree keeps its processor
 distribution

---
 pygsti/objects/evaltree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/evaltree.py b/pygsti/objects/evaltree.py
index 3be65a7..30b2d41 100644
--- a/pygsti/objects/evaltree.py
+++ b/pygsti/objects/evaltree.py
@@ -130,6 +130,7 @@ class EvalTree(list):
         newTree.original_index_lookup = self.original_index_lookup[:] \
             if (self.original_index_lookup is not None) else None
         newTree.simplified_circuit_nEls = self.simplified_circuit_nEls[:]
+        newTree.distribution = self.distribution.copy()
         return newTree
 
     def get_init_labels(self):
-- 
2.43.0


From 2688df28553020497076895c361a9a07290ee756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 028/127] fix: a copied map simulator keeps its cache-size
 limit

---
 pygsti/objects/mapforwardsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/mapforwardsim.py b/pygsti/objects/mapforwardsim.py
index a50e1ae..120b406 100644
--- a/pygsti/objects/mapforwardsim.py
+++ b/pygsti/objects/mapforwardsim.py
@@ -74,7 +74,7 @@ class MapForwardSimulator(ForwardSimulator):
 
     def copy(self):
         """ Return a shallow copy of this MatrixForwardSimulator """
-        return MapForwardSimulator(self.dim, self.sos, self.paramvec)
+        return MapForwardSimulator(self.dim, self.sos, self.paramvec, self.max_cache_size)
 
     def _rho_from_label(self, rholabel):
         # Note: caching here is *essential* to the working of bulk_fill_dprobs,
-- 
2.43.0


From cb18008fb47e9f86428a91c376826422a1e4fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 029/127] fix: term simulators can be copied (all settings are
 passed on)

---
 pygsti/objects/termforwardsim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/termforwardsim.py b/pygsti/objects/termforwardsim.py
index 4bf7f30..6c86d4c 100644
--- a/pygsti/objects/termforwardsim.py
+++ b/pygsti/objects/termforwardsim.py
@@ -137,8 +137,11 @@ class TermForwardSimulator(ForwardSimulator):
 
     def copy(self):
         """ Return a shallow copy of this MatrixForwardSimulator """
-        return TermForwardSimulator(self.dim, self.sos, self.paramvec,
-                                    self.max_order, self.cache)
+        return TermForwardSimulator(self.dim, self.sos, self.paramvec, self.mode,
+                                    self.max_order, self.desired_pathmagnitude_gap, self.allowed_perr,
+                                    self.min_term_mag, self.max_paths_per_outcome, self.perr_heuristic,
+                                    self.max_term_stages, self.path_fraction_threshold,
+                                    self.oob_check_interval, self.cache)
 
     def _rhoE_from_spamTuple(self, spamTuple):
         assert(len(spamTuple) == 2)
-- 
2.43.0


From 07cb199e7aed0557ba8cfc2b8c453c8f5324e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 030/127] fix: copies of a reportable quantity keep its
 non-Markovian error-bar flag

---
 pygsti/objects/reportableqty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/reportableqty.py b/pygsti/objects/reportableqty.py
index 1e2a156..63064bb 100644
--- a/pygsti/objects/reportableqty.py
+++ b/pygsti/objects/reportableqty.py
@@ -90,10 +90,10 @@ class ReportableQty(object):
         self.__dict__.update(d)
 
     def __copy__(self):
-        return ReportableQty(self.value, self.errbar)
+        return ReportableQty(self.value, self.errbar, self.nonMarkovianEBs)
 
     def __deepcopy__(self, memo):
-        return ReportableQty(_deepcopy(self.value, memo), _deepcopy(self.errbar, memo))
+        return ReportableQty(_deepcopy(self.value, memo), _deepcopy(self.errbar, memo), self.nonMarkovianEBs)
 
     #def __getattr__(self, attr):
         #print(self.value)
-- 
2.43.0


From cdf72d83aaee919bc3227000fcfe57c1ef5bc375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 031/127] fix: a copied ComposedOp keeps its dense
 representation

---
 pygsti/objects/operation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index eb6873f..1d4d482 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4200,7 +4200,7 @@ class ComposedOp(LinearOperator):
         # We need to override this method so that factor gates have their
         # parent reset correctly.
         cls = self.__class__  # so that this method works for derived classes too
-        copyOfMe = cls([g.copy(parent) for g in self.factorops], self.dim, self._evotype)
+        copyOfMe = cls([g.copy(parent) for g in self.factorops], self.dim, self._evotype, self.dense_rep)
         return self._copy_gpindices(copyOfMe, parent)
 
     def tosparse(self):
@@ -4549,7 +4549,7 @@ class ComposedDenseOp(ComposedOp, DenseOperatorInterface):
     A gate that is the composition of a number of matrix factors (possibly other gates).
     """
 
-    def __init__(self, ops_to_compose, dim="auto", evotype="auto"):
+    def __init__(self, ops_to_compose, dim="auto", evotype="auto", dense_rep=True):
         """
         Creates a new ComposedDenseOp.
 
@@ -4572,6 +4572,7 @@ class ComposedDenseOp(ComposedOp, DenseOperatorInterface):
             the evolution type of `ops_to_compose[0]` *if* there's at least
             one gate being composed.
         """
+        assert(dense_rep), "ComposedDenseOp must be created with `dense_rep == True`"
         ComposedOp.__init__(self, ops_to_compose, dim, evotype, dense_rep=True)
         DenseOperatorInterface.__init__(self)
 
-- 
2.43.0


From c491da7fd76bb83c8e5a2979e33f806f577fe7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 032/127] fix: DepolarizeOp can be copied, and keeps its rate

---
 pygsti/objects/operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 1d4d482..ef0e1ac 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2429,7 +2429,8 @@ class DepolarizeOp(StochasticNoiseOp):
         DepolarizeOp
             A copy of this object.
         """
-        copyOfMe = DepolarizeOp(self.dim, self.basis, self.evotype, self._params_to_rates(self.to_vector())[0])
+        copyOfMe = DepolarizeOp(self.dim, self.basis, self._evotype,
+                                sum(self._params_to_rates(self.to_vector())))
         return self._copy_gpindices(copyOfMe, parent)
 
 
-- 
2.43.0


From 85108e3a50c6a4df7494133a7e3ac30f08982bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 033/127] fix: StochasticNoiseOp created with (or copied with)
 initial rates acts with those rates

---
 pygsti/objects/operation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index ef0e1ac..627a0d2 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2168,6 +2168,7 @@ class StochasticNoiseOp(LinearOperator):
             raise ValueError("Invalid evotype '%s' for %s" % (evotype, self.__class__.__name__))
 
         LinearOperator.__init__(self, rep, evotype)
+        self.from_vector(self.to_vector())  # so the representation reflects the initial rates
 
     def _rates_to_params(self, rates):
         return _np.sqrt(_np.array(rates))
-- 
2.43.0


From ad7bdddddb6b104f9ec637053fe5e28725705820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 034/127] fix: estimates and confidence regions of copied
 results belong to the copy

---
 pygsti/objects/estimate.py | 2 ++
 pygsti/objects/results.py  | 1 +
 pygsti/protocols/gst.py    | 1 +
 3 files changed, 4 insertions(+)

diff --git a/pygsti/objects/estimate.py b/pygsti/objects/estimate.py
index c47f01b..9968cb4 100644
--- a/pygsti/objects/estimate.py
+++ b/pygsti/objects/estimate.py
@@ -588,6 +588,8 @@ class Estimate(object):
         cpy.goparameters = _copy.deepcopy(self.goparameters)
         cpy.models = self.models.copy()
         cpy.confidence_region_factories = _copy.deepcopy(self.confidence_region_factories)
+        for crf in cpy.confidence_region_factories.values():
+            crf.set_parent(cpy)
         cpy.meta = _copy.deepcopy(self.meta)
         return cpy
 
diff --git a/pygsti/objects/results.py b/pygsti/objects/results.py
index 33a4da4..40b4674 100644
--- a/pygsti/objects/results.py
+++ b/pygsti/objects/results.py
@@ -374,6 +374,7 @@ class Results(object):
         cpy.circuit_structs = _copy.deepcopy(self.circuit_structs)
         for est_key, est in self.estimates.items():
             cpy.estimates[est_key] = est.copy()
+            cpy.estimates[est_key].set_parent(cpy)
         return cpy
 
     def __setstate__(self, stateDict):
diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index b7b9be6..7159c30 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -1641,6 +1641,7 @@ class ModelEstimateResults(_proto.ProtocolResults):
         cpy.circuit_structs = _copy.deepcopy(self.circuit_structs)
         for est_key, est in self.estimates.items():
             cpy.estimates[est_key] = est.copy()
+            cpy.estimates[est_key].set_parent(cpy)
         return cpy
 
     def __setstate__(self, stateDict):
-- 
2.43.0


From c61b58aa63a59f17c09a37a1896effdf9ada2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 035/127] fix: a copied circuit plaquette stays simplified

---
 pygsti/objects/circuitstructure.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index f16d54b..680e8b4 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -178,8 +178,12 @@ class CircuitPlaquette(object):
         """
         aliases = _copy.deepcopy(self.aliases) if (self.aliases is not None) \
             else None
-        return CircuitPlaquette(self.base, self.rows, self.cols,
-                                self.elements[:], aliases, self.fidpairs)
+        cpy = CircuitPlaquette(self.base, self.rows, self.cols,
+                               self.elements[:], aliases, self.fidpairs)
+        cpy._elementIndicesByStr = self._elementIndicesByStr
+        cpy._outcomesByStr = self._outcomesByStr
+        cpy.num_simplified_elements = self.num_simplified_elements
+        return cpy
 
 
 class CircuitStructure(object):
-- 
2.43.0


From d18d63b946b969e99d8158f9f2effaefa490d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 036/127] fix: a copied EmbeddedOp keeps its dense
 representation

---
 pygsti/objects/operation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 627a0d2..1e0a0a8 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4897,7 +4897,7 @@ class EmbeddedOp(LinearOperator):
         # parent reset correctly.
         cls = self.__class__  # so that this method works for derived classes too
         copyOfMe = cls(self.state_space_labels, self.targetLabels,
-                       self.embedded_op.copy(parent))
+                       self.embedded_op.copy(parent), self.dense_rep)
         return self._copy_gpindices(copyOfMe, parent)
 
     def _iter_matrix_elements_precalc(self):
@@ -5354,7 +5354,7 @@ class EmbeddedDenseOp(EmbeddedOp, DenseOperatorInterface):
     subspace of its contained gate, where it acts as the contained gate does.
     """
 
-    def __init__(self, stateSpaceLabels, targetLabels, gate_to_embed):
+    def __init__(self, stateSpaceLabels, targetLabels, gate_to_embed, dense_rep=True):
         """
         Initialize a EmbeddedDenseOp object.
 
@@ -5379,6 +5379,7 @@ class EmbeddedDenseOp(EmbeddedOp, DenseOperatorInterface):
             The gate object that is to be contained within this gate, and
             that specifies the only non-trivial action of the EmbeddedDenseOp.
         """
+        assert(dense_rep), "EmbeddedDenseOp must be created with `dense_rep == True`"
         EmbeddedOp.__init__(self, stateSpaceLabels, targetLabels,
                             gate_to_embed, dense_rep=True)
         DenseOperatorInterface.__init__(self)
@@ -6179,7 +6180,7 @@ class EmbeddedErrorgen(EmbeddedOp):
     subspace of its contained error generator, where it acts as the contained item does.
     """
 
-    def __init__(self, stateSpaceLabels, targetLabels, errgen_to_embed):
+    def __init__(self, stateSpaceLabels, targetLabels, errgen_to_embed, dense_rep=False):
         """
         Initialize an EmbeddedErrorgen object.
 
@@ -6205,6 +6206,7 @@ class EmbeddedErrorgen(EmbeddedOp):
             error generator, and that specifies the only non-trivial action
             of the EmbeddedErrorgen.
         """
+        assert(not dense_rep), "EmbeddedErrorgen must be created with `dense_rep == False`"
         EmbeddedOp.__init__(self, stateSpaceLabels, targetLabels, errgen_to_embed)
 
         # set "API" error-generator members (to interface properly w/other objects)
-- 
2.43.0


From 87f8f289f7e8e5151b2e23264aa6e74b54160833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 037/127] fix: setting the value of a CPTPSPAMVec left its
 vector as it was

---
 pygsti/objects/spamvec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 36fc915..b482575 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1536,6 +1536,7 @@ class CPTPSPAMVec(DenseSPAMVec):
         """
         try:
             self._set_params_from_vector(vec, truncate=False)
+            self._construct_vector()  # otherwise self.base (and so todense) would keep the old vector
             self.dirty = True
         except AssertionError as e:
             raise ValueError("Error initializing the parameters of this "
-- 
2.43.0


From f249a25ff97faa85751f17ef531c2944dea6b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 038/127] fix: transforming a densely-represented ComposedOp
 left its matrix as it was

---
 pygsti/objects/operation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 1e0a0a8..620a642 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4536,6 +4536,7 @@ class ComposedOp(LinearOperator):
         """
         for gate in self.factorops:
             gate.transform(S)
+        if self.dense_rep: self._update_denserep()
 
     def __str__(self):
         """ Return string representation """
-- 
2.43.0


From 8e6a727d51cd6fa93f757f6a4e3c3e7742f041f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 039/127] fix: effects of a TensorProdPOVM kept the outcome
 probabilities of former parameters

---
 pygsti/objects/povm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 7d976c0..8ba761a 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -798,6 +798,12 @@ class TensorProdPOVM(POVM):
         """
         for povm in self.factorPOVMs:
             povm.from_vector(v[povm.gpindices], close, nodirty)
+        self._update_effect_reps()
+
+    def _update_effect_reps(self):
+        """ Bring already-created effect vectors' representations up to date with the factor POVMs """
+        for effect in dict.values(self):
+            effect._update_rep()
 
     def depolarize(self, amount):
         """
@@ -819,8 +825,8 @@ class TensorProdPOVM(POVM):
         for povm in self.factorPOVMs:
             povm.depolarize(amount)
 
-        #No need to re-init effect vectors since they don't store a (dense)
-        # version of their vector - they just create it from factorPOVMs on demand
+        #Effect vectors compute their dense vector from factorPOVMs on demand, but hold a representation
+        self._update_effect_reps()
         self.dirty = True
 
     def __str__(self):
-- 
2.43.0


From 4a81d1bb660880ade1ef82354bf54141ece87cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 040/127] fix: transforming a LindbladPOVM applied the
 transformation once per effect

---
 pygsti/objects/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 8ba761a..d702500 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1224,8 +1224,8 @@ class LindbladPOVM(POVM):
             A gauge group element which specifies the "S" matrix
             (and it's inverse) used in the above similarity transform.
         """
-        for lbl, effect in self.items():
-            effect.transform(S, 'effect')
+        # all the effects share a single error map, so it must be transformed just once
+        self.error_map.spam_transform(S, 'effect')
         self.dirty = True
 
     def __str__(self):
-- 
2.43.0


From d9e479dce56858d8515a96c2c444ebb00e39dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:50 +0000
Subject: [PATCH 041/127] fix: effects of a LindbladPOVM and cached Taylor
 terms kept former parameter indices

---
 pygsti/objects/operation.py | 40 ++++---------------------------------
 pygsti/objects/povm.py      |  5 +++++
 pygsti/objects/spamvec.py   | 20 ++-----------------
 3 files changed, 11 insertions(+), 54 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 620a642..f902c8f 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2913,29 +2913,13 @@ class LindbladOp(LinearOperator):
                     A_1_norm=self.errorgen.onenorm_upperbound())
                 self._rep.set_exp_params(mu, eta, m_star, s)
 
-    def set_gpindices(self, gpindices, parent, memo=None):
-        """
-        Set the parent and indices into the parent's parameter vector that
-        are used by this ModelMember object.
-
-        Parameters
-        ----------
-        gpindices : slice or integer ndarray
-            The indices of this objects parameters in its parent's array.
-
-        parent : Model or ModelMember
-            The parent whose parameter array gpindices references.
-
-        Returns
-        -------
-        None
-        """
+    def _set_only_my_gpindices(self, gpindices, parent):
         self.terms = {}  # clear terms cache since param indices have changed now
         self.exp_terms_cache = {}
         self.local_term_poly_coeffs = {}
         #TODO REMOVE self.direct_terms = {}
         #TODO REMOVE self.direct_term_poly_coeffs = {}
-        _modelmember.ModelMember.set_gpindices(self, gpindices, parent, memo)
+        _modelmember.ModelMember._set_only_my_gpindices(self, gpindices, parent)
 
     def todense(self):
         """
@@ -4125,26 +4109,10 @@ class ComposedOp(LinearOperator):
         """
         return self.factorops
 
-    def set_gpindices(self, gpindices, parent, memo=None):
-        """
-        Set the parent and indices into the parent's parameter vector that
-        are used by this ModelMember object.
-
-        Parameters
-        ----------
-        gpindices : slice or integer ndarray
-            The indices of this objects parameters in its parent's array.
-
-        parent : Model or ModelMember
-            The parent whose parameter array gpindices references.
-
-        Returns
-        -------
-        None
-        """
+    def _set_only_my_gpindices(self, gpindices, parent):
         self.terms = {}  # clear terms cache since param indices have changed now
         self.local_term_poly_coeffs = {}
-        _modelmember.ModelMember.set_gpindices(self, gpindices, parent, memo)
+        _modelmember.ModelMember._set_only_my_gpindices(self, gpindices, parent)
 
     def append(self, *factorops_to_add):
         """
diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index d702500..a5ccf83 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1144,7 +1144,12 @@ class LindbladPOVM(POVM):
         assert(self.base_povm.num_params() == 0)  # so no need to do anything w/base_povm
         self.error_map.set_gpindices(gpindices, parent, memo)
         self.terms = {}  # clear terms cache since param indices have changed now
+        self._set_only_my_gpindices(gpindices, parent)
+
+    def _set_only_my_gpindices(self, gpindices, parent):
         _gm.ModelMember._set_only_my_gpindices(self, gpindices, parent)
+        for effect in dict.values(self):  # effects created so far have the same (error map) parameters
+            effect._set_only_my_gpindices(gpindices, parent)
 
     def simplify_effects(self, prefix=""):
         """
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index b482575..84f6030 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2854,28 +2854,12 @@ class LindbladSPAMVec(SPAMVec):
         copyOfMe = cls(self.state_vec, self.error_map.copy(parent), self._prep_or_effect)
         return self._copy_gpindices(copyOfMe, parent)
 
-    def set_gpindices(self, gpindices, parent, memo=None):
-        """
-        Set the parent and indices into the parent's parameter vector that
-        are used by this ModelMember object.
-
-        Parameters
-        ----------
-        gpindices : slice or integer ndarray
-            The indices of this objects parameters in its parent's array.
-
-        parent : Model or ModelMember
-            The parent whose parameter array gpindices references.
-
-        Returns
-        -------
-        None
-        """
+    def _set_only_my_gpindices(self, gpindices, parent):
         self.terms = {}  # clear terms cache since param indices have changed now
         self.local_term_poly_coeffs = {}
         # TODO REMOVE self.direct_terms = {}
         # TODO REMOVE self.direct_term_poly_coeffs = {}
-        _modelmember.ModelMember.set_gpindices(self, gpindices, parent, memo)
+        _modelmember.ModelMember._set_only_my_gpindices(self, gpindices, parent)
 
     def todense(self, scratch=None):
         """
-- 
2.43.0


From 3a0c731e85db4f9b794645ee6a4172dea2d76b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:50 +0000
Subject: [PATCH 042/127] fix: a ComposedOp whose factors changed kept the
 Taylor terms of the former factors

---
 pygsti/objects/operation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index f902c8f..e8b3c65 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4129,6 +4129,8 @@ class ComposedOp(LinearOperator):
         None
         """
         self.factorops.extend(factorops_to_add)
+        self.terms = {}  # clear terms cache since the factors have changed
+        self.local_term_poly_coeffs = {}
         if self.dense_rep:
             self._update_denserep()
         elif self._rep is not None:
@@ -4151,6 +4153,8 @@ class ComposedOp(LinearOperator):
         """
         for i in sorted(factorop_indices, reverse=True):
             del self.factorops[i]
+        self.terms = {}  # clear terms cache since the factors have changed
+        self.local_term_poly_coeffs = {}
         if self.dense_rep:
             self._update_denserep()
         elif self._rep is not None:
-- 
2.43.0


From a1ee53914505c1930359ac2a9d5b62beb02eb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 043/127] fix: from_vector of several objects kept the caller's
 parameter array

---
 pygsti/objects/instrument.py     | 2 +-
 pygsti/objects/operation.py      | 4 ++--
 pygsti/objects/wildcardbudget.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/instrument.py b/pygsti/objects/instrument.py
index c157b22..2f0cbe6 100644
--- a/pygsti/objects/instrument.py
+++ b/pygsti/objects/instrument.py
@@ -257,7 +257,7 @@ class Instrument(_gm.ModelMember, _collections.OrderedDict):
         assert(len(v) == self.num_params())
         for gate in self.values():
             gate.from_vector(v[gate.gpindices], close, nodirty)
-        self._paramvec = v
+        self._paramvec = _np.array(v)  # a copy: `v` belongs to the caller
 
     def transform(self, S):
         """
diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index e8b3c65..17faaad 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2058,7 +2058,7 @@ class EigenvalueParamDenseOp(DenseOperator):
         None
         """
         assert(len(v) == self.num_params())
-        self.paramvals = v
+        self.paramvals = _np.array(v)  # a copy: `v` belongs to the caller
         self._construct_matrix()
         if not nodirty: self.dirty = True
 
@@ -7375,7 +7375,7 @@ class LindbladErrorgen(LinearOperator):
         None
         """
         assert(len(v) == self.num_params())
-        self.paramvals = v
+        self.paramvals = _np.array(v)  # a copy: `v` belongs to the caller
         if self._evotype == "densitymx":
             self._update_rep()
         if not nodirty: self.dirty = True
diff --git a/pygsti/objects/wildcardbudget.py b/pygsti/objects/wildcardbudget.py
index 43a573a..3cd1ad1 100644
--- a/pygsti/objects/wildcardbudget.py
+++ b/pygsti/objects/wildcardbudget.py
@@ -43,7 +43,7 @@ class WildcardBudget(object):
             which can be varied when trying to find an optimal budget (similar
             to the parameters of a :class:`Model`).
         """
-        self.wildcard_vector = Wvec
+        self.wildcard_vector = _np.array(Wvec)  # a copy: `Wvec` belongs to the caller
 
     def to_vector(self):
         """
@@ -68,7 +68,7 @@ class WildcardBudget(object):
         -------
         None
         """
-        self.wildcard_vector = Wvec
+        self.wildcard_vector = _np.array(Wvec)  # a copy: `Wvec` belongs to the caller
 
     def circuit_budget(self, circuit):
         """
-- 
2.43.0


From 38aaa78860b5b351a8725fed8e232d5e7620e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 044/127] fix: SPAM vectors, linear gates and composed error
 generators changed arrays and lists of the caller

---
 pygsti/objects/operation.py | 4 ++--
 pygsti/objects/spamvec.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 17faaad..124952f 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -1534,7 +1534,7 @@ class LinearlyParamDenseOp(DenseOperator):
         typ = "d" if real else "complex"
         mx = _np.empty(baseMatrix.shape, typ)
         self.baseMatrix = baseMatrix
-        self.parameterArray = parameterArray
+        self.parameterArray = _np.array(parameterArray)  # a copy, as from_vector changes it in place
         self.numParams = len(parameterArray)
         self.elementExpressions = elementExpressions
         assert(_np.isrealobj(self.parameterArray)), "Parameter array must be real-valued!"
@@ -5494,7 +5494,7 @@ class ComposedErrorgen(LinearOperator):
         """
         assert(len(errgens_to_compose) > 0 or dim != "auto"), \
             "Must compose at least one error generator when dim='auto'!"
-        self.factors = errgens_to_compose
+        self.factors = list(errgens_to_compose)  # a copy, as append and remove change it in place
 
         if dim == "auto":
             dim = errgens_to_compose[0].dim
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 84f6030..08dc4fa 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -849,7 +849,7 @@ class DenseSPAMVec(SPAMVec):
     def __init__(self, vec, evotype, prep_or_effect):
         """ Initialize a new SPAM Vector """
         dtype = complex if evotype == "statevec" else 'd'
-        vec = _np.asarray(vec, dtype=dtype)
+        vec = _np.array(vec, dtype=dtype)  # a copy, as this array is changed in place
         vec.shape = (vec.size,)  # just store 1D array flatten
         vec = _np.require(vec, requirements=['OWNDATA', 'C_CONTIGUOUS'])
 
@@ -1159,7 +1159,7 @@ class TPSPAMVec(DenseSPAMVec):
         if not _np.isclose(vector[0], firstEl):
             raise ValueError("Cannot create TPSPAMVec: "
                              "first element must equal %g!" % firstEl)
-        DenseSPAMVec.__init__(self, vec, "densitymx", "prep")
+        DenseSPAMVec.__init__(self, vector, "densitymx", "prep")
         assert(isinstance(self.base, _ProtectedArray))
 
     @property
-- 
2.43.0


From d9069e3c61df3f237bdcd79bc85d2c9052985161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 045/127] fix: pickling a confidence region factory removed the
 communicator from its parameters

---
 pygsti/objects/confidenceregionfactory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/confidenceregionfactory.py b/pygsti/objects/confidenceregionfactory.py
index 0d0e610..65aa990 100644
--- a/pygsti/objects/confidenceregionfactory.py
+++ b/pygsti/objects/confidenceregionfactory.py
@@ -110,7 +110,9 @@ class ConfidenceRegionFactory(object):
 
         # *don't* pickle any Comm objects
         if self.linresponse_mlgst_params and "comm" in self.linresponse_mlgst_params:
-            del self.linresponse_mlgst_params['comm']  # one *cannot* pickle Comm objects
+            params = dict(self.linresponse_mlgst_params)  # a copy: self still needs its comm
+            del params['comm']  # one *cannot* pickle Comm objects
+            to_pickle['linresponse_mlgst_params'] = params
 
         return to_pickle
 
@@ -707,7 +709,9 @@ class ConfidenceRegionFactoryView(object):
         # *don't* pickle any Comm objects
         to_pickle = self.__dict__.copy()
         if self.mlgst_params and "comm" in self.mlgst_params:
-            del self.mlgst_params['comm']  # one *cannot* pickle Comm objects
+            params = dict(self.mlgst_params)  # a copy: self still needs its comm
+            del params['comm']  # one *cannot* pickle Comm objects
+            to_pickle['mlgst_params'] = params
         return to_pickle
 
     def get_errobar_type(self):
-- 
2.43.0


From fc4c629b91894b4973dc20a19c868c0143e6bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 046/127] fix: an RB benchmarker added data sets to the
 dictionary of its caller

---
 pygsti/extras/rb/benchmarker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/extras/rb/benchmarker.py b/pygsti/extras/rb/benchmarker.py
index 5cf3570..52f2e4f 100644
--- a/pygsti/extras/rb/benchmarker.py
+++ b/pygsti/extras/rb/benchmarker.py
@@ -51,7 +51,7 @@ class Benchmarker(object):
 
             if dstype == 'dict':
                 assert('standard' in ds.keys() and 'success-fail' in ds.keys())
-                self.multids = ds
+                self.multids = dict(ds)  # a copy, as data sets are added to it
             else:
                 self.multids = {}
                 if isinstance(ds, _stdds.DataSet):
-- 
2.43.0


From 8f556a2d6092b2c7bbbf9fe1b747ab3540e7079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 047/127] fix: hproduct used the first filter for both
 derivatives and could not place filtered columns

---
 pygsti/objects/matrixforwardsim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/matrixforwardsim.py b/pygsti/objects/matrixforwardsim.py
index fb20e15..304626c 100644
--- a/pygsti/objects/matrixforwardsim.py
+++ b/pygsti/objects/matrixforwardsim.py
@@ -463,7 +463,7 @@ class MatrixForwardSimulator(ForwardSimulator):
             if nDerivCols1 == 0: continue
 
             for l, opLabel2 in enumerate(revOpLabelList):
-                inds2 = gpindices1[opLabel2]
+                inds2 = gpindices2[opLabel2]
                 #nDerivCols2 = dop_dopLabel2[opLabel2].shape[1]
 
                 # FUTURE: we could add logic that accounts for the symmetry of the Hessian, so that
@@ -476,7 +476,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                     xv.shape = (nDerivCols1, dim, dim)  # (reshape without copying - throws error if copy is needed)
                     y = _np.dot(_np.kron(xv, _np.transpose(prods[(l + 1, N - 1)])), dop_dopLabel2[opLabel2])
                     # above: (nDerivCols1,dim**2,dim**2) * (dim**2,nDerivCols2) = (nDerivCols1,dim**2,nDerivCols2)
-                    flattened_d2prod[:, inds1, inds2] += _np.swapaxes(y, 0, 1)
+                    _fas(flattened_d2prod, [None, inds1, inds2], _np.swapaxes(y, 0, 1), add=True)
                     # above: dim = (dim2, nDerivCols1, nDerivCols2);
                     # swapaxes takes (kl,vec_prod_indx,ij) => (vec_prod_indx,kl,ij)
                 elif l < m:
@@ -488,7 +488,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                     y = _np.dot(_np.kron(prods[(0, l - 1)], xv), dop_dopLabel2[opLabel2])
                     # above: (nDerivCols1,dim**2,dim**2) * (dim**2,nDerivCols2) = (nDerivCols1,dim**2,nDerivCols2)
 
-                    flattened_d2prod[:, inds1, inds2] += _np.swapaxes(y, 0, 1)
+                    _fas(flattened_d2prod, [None, inds1, inds2], _np.swapaxes(y, 0, 1), add=True)
                     # above: dim = (dim2, nDerivCols1, nDerivCols2);
                     # swapaxes takes (kl,vec_prod_indx,ij) => (vec_prod_indx,kl,ij)
 
@@ -501,7 +501,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                         # (nDerivCols1,nDerivCols2,dim**2)
                         x = _np.dot(_np.transpose(hop_dopLabels[opLabel1], axes=(1, 2, 0)), x0); xv = x.view()
                         xv = _np.transpose(xv, axes=(2, 0, 1))  # (dim2, nDerivCols1, nDerivCols2)
-                        flattened_d2prod[:, inds1, inds2] += xv
+                        _fas(flattened_d2prod, [None, inds1, inds2], xv, add=True)
 
         if flat:
             return flattened_d2prod  # axes = (vectorized_op_el_index, model_parameter1, model_parameter2)
-- 
2.43.0


From e9907874ed9e7d325ff89fdf4ba6f77dd4bf1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 048/127] fix: bulk_dprobs and bulk_hprobs failed with, or
 ignored, their parameter filters

---
 pygsti/objects/forwardsim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/forwardsim.py b/pygsti/objects/forwardsim.py
index 4f2a925..3483168 100644
--- a/pygsti/objects/forwardsim.py
+++ b/pygsti/objects/forwardsim.py
@@ -350,7 +350,7 @@ class ForwardSimulator(object):
             (so values are just `dp`).
         """
         nElements = evalTree.num_final_elements()
-        nDerivCols = self.Np
+        nDerivCols = self.Np if (wrtFilter is None) else _slct.length(wrtFilter)
 
         vdp = _np.empty((nElements, nDerivCols), 'd')
         vp = _np.empty(nElements, 'd') if returnPr else None
@@ -447,19 +447,20 @@ class ForwardSimulator(object):
         """
         nElements = evalTree.num_final_elements()
         nDerivCols1 = self.Np if (wrtFilter1 is None) \
-            else len(wrtFilter1)
+            else _slct.length(wrtFilter1)
         nDerivCols2 = self.Np if (wrtFilter2 is None) \
-            else len(wrtFilter2)
+            else _slct.length(wrtFilter2)
 
         vhp = _np.empty((nElements, nDerivCols1, nDerivCols2), 'd')
-        vdp1 = _np.empty((nElements, self.Np), 'd') \
+        vdp1 = _np.empty((nElements, nDerivCols1), 'd') \
             if returnDeriv else None
-        vdp2 = vdp1.copy() if (returnDeriv and wrtFilter1 != wrtFilter2) else None
+        vdp2 = _np.empty((nElements, nDerivCols2), 'd') \
+            if (returnDeriv and wrtFilter1 != wrtFilter2) else None
         vp = _np.empty(nElements, 'd') if returnPr else None
 
         self.bulk_fill_hprobs(vhp, evalTree,
                               vp, vdp1, vdp2, clipTo, check, comm,
-                              wrtFilter1, wrtFilter1, wrtBlockSize1, wrtBlockSize2)
+                              wrtFilter1, wrtFilter2, wrtBlockSize1, wrtBlockSize2)
 
         ret = _collections.OrderedDict()
         for i, opstr in enumerate(circuits):
-- 
2.43.0


From 84d3b44fbc9fa089de0e2d0c9a6a25063a744cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 049/127] fix: the zero Hessian of linear gates and SPAM
 vectors ignored the parameter filters or failed

---
 pygsti/objects/operation.py | 4 +++-
 pygsti/objects/spamvec.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 124952f..cf6f9f8 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -910,7 +910,9 @@ class LinearOperator(_modelmember.ModelMember):
             Hessian with shape (dimension^2, num_params1, num_params2)
         """
         if not self.has_nonzero_hessian():
-            return _np.zeros((self.size, self.num_params(), self.num_params()), 'd')
+            nParams1 = self.num_params() if (wrtFilter1 is None) else len(wrtFilter1)
+            nParams2 = self.num_params() if (wrtFilter2 is None) else len(wrtFilter2)
+            return _np.zeros((self.size, nParams1, nParams2), 'd')
 
         # FUTURE: create a finite differencing hessian method?
         raise NotImplementedError("hessian_wrt_params(...) is not implemented for %s objects" % self.__class__.__name__)
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 08dc4fa..1b813d0 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -783,7 +783,9 @@ class SPAMVec(_modelmember.ModelMember):
             Hessian with shape (dimension, num_params1, num_params2)
         """
         if not self.has_nonzero_hessian():
-            return _np.zeros(self.size, self.num_params(), self.num_params())
+            nParams1 = self.num_params() if (wrtFilter1 is None) else len(wrtFilter1)
+            nParams2 = self.num_params() if (wrtFilter2 is None) else len(wrtFilter2)
+            return _np.zeros((self.dim, nParams1, nParams2), 'd')
 
         # FUTURE: create a finite differencing hessian method?
         raise NotImplementedError("hessian_wrt_params(...) is not implemented for %s objects" % self.__class__.__name__)
-- 
2.43.0


From ff4d776a768c9d9e7dedd88f4d7206a97016c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 050/127] fix: the Hessian of a ComposedErrorgen misplaced
 factors with non-contiguous parameters

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index cf6f9f8..ea1497e 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5806,7 +5806,7 @@ class ComposedErrorgen(LinearOperator):
             factor_hessian = eg.hessian_wrt_params(None, None)  # do filtering at end
             rel_gpindices = _modelmember._decompose_gpindices(
                 self.gpindices, eg.gpindices)
-            hessianMx[:, rel_gpindices, rel_gpindices] += factor_hessian[:, :, :]
+            _mt._fas(hessianMx, [None, rel_gpindices, rel_gpindices], factor_hessian[:, :, :], add=True)
 
         if wrtFilter1 is None:
             if wrtFilter2 is None:
-- 
2.43.0


From d8b681061f758d8d82b4649721e6360ca8f5ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 051/127] fix: the fractions of a data set row counted only the
 data at time zero

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index de2c546..24fae49 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -486,7 +486,7 @@ class DataSetRow(object):
         repetitions of each outcome label in the `outcomes` list, or
         equivalently, each outcome label index in this rows `.oli` member.
         """
-        cnts = self._get_counts(all_outcomes)
+        cnts = self._get_counts(all_outcomes=all_outcomes)
         total = sum(cnts.values())
         return _OrderedDict([(k, cnt / total) for k, cnt in cnts.items()])
 
-- 
2.43.0


From 42600d177b689fbc5f8633e6305fa26646c8254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 052/127] fix: a boolean between-class weighting of drift tests
 was never applied

---
 pygsti/extras/drift/stabilityanalyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/extras/drift/stabilityanalyzer.py b/pygsti/extras/drift/stabilityanalyzer.py
index e2b8e09..7e377c4 100644
--- a/pygsti/extras/drift/stabilityanalyzer.py
+++ b/pygsti/extras/drift/stabilityanalyzer.py
@@ -1048,8 +1048,8 @@ class StabilityAnalyzer(object):
             assert(betweenclass_weighting == 'auto'), "If a string, betweenclass_weighting must be a string!"
             betweenclass_weighting = get_auto_betweenclass_weighting(tests)
 
-        if isinstance(get_auto_betweenclass_weighting, bool):
-            betweenclass_weighting = get_auto_betweenclass_weighting(betweenclass_weighting)
+        if isinstance(betweenclass_weighting, bool):
+            betweenclass_weighting = get_auto_betweenclass_weighting(tests, betweenclass_weighting)
 
         # future: some sort of warning if FWER, or FDR, is not being controlled?
 
-- 
2.43.0


From 4da311f4e8279e892cb64f381f08ffa0e446f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 053/127] fix: germ selection ignored its check option in
 places

---
 pygsti/algorithms/germselection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index fdebeda..ddc0dca 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -1020,7 +1020,8 @@ def build_up(modelList, germsList, randomize=True,
             # As long as there are some unused germs, see if you need to add
             # another one.
             if test_germ_list_infl(reducedModel, goodGerms,
-                                   scoreFunc=scoreFunc, threshold=threshold):
+                                   scoreFunc=scoreFunc, threshold=threshold,
+                                   check=check):
                 # The germs are sufficient for the current model
                 break
             candidateGerms = _np.where(weights == 0)[0]
@@ -1519,7 +1520,7 @@ def optimize_integer_germs_slack(modelList, germsList, randomize=True,
     else:
         forceIndices = None
 
-    twirledDerivDaggerDerivList = [calc_bulk_twirled_DDD(model, germsList, tol)
+    twirledDerivDaggerDerivList = [calc_bulk_twirled_DDD(model, germsList, tol, check)
                                    for model in modelList]
 
     # Dict of keyword arguments passed to compute_score that don't change from
-- 
2.43.0


From d787d17565ed3bd6bc00cdea84688e087d2283c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 054/127] fix: maximum_trace_dist ignored the basis of the gate

---
 pygsti/report/reportables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/report/reportables.py b/pygsti/report/reportables.py
index cb1f8a3..8b29f03 100644
--- a/pygsti/report/reportables.py
+++ b/pygsti/report/reportables.py
@@ -501,7 +501,7 @@ def maximum_trace_dist(gate, mxBasis):
     closestUOpMx = _alg.find_closest_unitary_opmx(gate)
     #closestUJMx = _tools.jamiolkowski_iso(closestUOpMx, mxBasis, mxBasis)
     _tools.jamiolkowski_iso(closestUOpMx, mxBasis, mxBasis)
-    return _tools.jtracedist(gate, closestUOpMx)
+    return _tools.jtracedist(gate, closestUOpMx, mxBasis)
 
 
 Maximum_trace_dist = _modf.opfn_factory(maximum_trace_dist)
-- 
2.43.0


From 754b70d815b05e19c9ca31e610690e94f429525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 055/127] fix: RB fits ignored the requested type of error rate

---
 pygsti/algorithms/rbfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/algorithms/rbfit.py b/pygsti/algorithms/rbfit.py
index 0ba703a..6cec354 100644
--- a/pygsti/algorithms/rbfit.py
+++ b/pygsti/algorithms/rbfit.py
@@ -183,10 +183,10 @@ def std_least_squares_data_fitting(lengths, ASPs, n, seed=None, asymptote=None,
     if asymptote is not None: A = asymptote
     else: A = 1 / 2**n
     # First perform a fit with a fixed asymptotic value
-    FAF_results = custom_least_squares_data_fitting(lengths, ASPs, n, A=A, seed=seed)
+    FAF_results = custom_least_squares_data_fitting(lengths, ASPs, n, A=A, seed=seed, rtype=rtype)
     # Full fit is seeded by the fixed asymptote fit.
     seed_full = [FAF_results['estimates']['A'], FAF_results['estimates']['B'], FAF_results['estimates']['p']]
-    FF_results = custom_least_squares_data_fitting(lengths, ASPs, n, seed=seed_full)
+    FF_results = custom_least_squares_data_fitting(lengths, ASPs, n, seed=seed_full, rtype=rtype)
     # Returns the requested fit type.
     if ftype == 'full': return FF_results
     elif ftype == 'FA': return FAF_results
@@ -332,7 +332,7 @@ def custom_least_squares_data_fitting(lengths, ASPs, n, A=None, B=None, seed=Non
         estimates['A'] = A
         estimates['B'] = B
         estimates['p'] = p
-        estimates['r'] = _rbt.p_to_r(p, 2**n)
+        estimates['r'] = _rbt.p_to_r(p, 2**n, rtype)
 
     results = {}
     results['estimates'] = estimates
-- 
2.43.0


From bf43725de94e3c77f7658b860da0a9209acbdffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 056/127] fix: bartlett_spectrum ignored the requested
 transform

---
 pygsti/extras/drift/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/extras/drift/signal.py b/pygsti/extras/drift/signal.py
index 31aace5..6b535c7 100644
--- a/pygsti/extras/drift/signal.py
+++ b/pygsti/extras/drift/signal.py
@@ -379,7 +379,7 @@ def bartlett_spectrum(x, numspectra, counts=1, null_hypothesis=None, transform='
     for i in range(0, numspectra):
         junk, powers = spectrum(x[i * length:((i + 1) * length)], counts=counts,
                                 null_hypothesis=null_hypothesis[i * length:((i + 1) * length)],
-                                returnfrequencies=False)
+                                transform=transform, returnfrequencies=False)
         spectra[i, :] = powers
 
     bartlett_spectrum = _np.mean(spectra, axis=0)
-- 
2.43.0


From 1f6df4ce54140a483b997143c69672aacdbcc338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 057/127] fix: onesify forgot its maxfailcount when trying
 again

---
 pygsti/tools/matrixmod2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/matrixmod2.py b/pygsti/tools/matrixmod2.py
index 67ac68a..b257d69 100644
--- a/pygsti/tools/matrixmod2.py
+++ b/pygsti/tools/matrixmod2.py
@@ -232,7 +232,7 @@ def onesify(A, failcount=0, maxfailcount=100):
                 count += 1
 
     if len(M) < t:
-        return onesify(A, failcount + 1)
+        return onesify(A, failcount + 1, maxfailcount)
 
     M = _np.array(M, dtype='int')
 
-- 
2.43.0


From 6a317ea03bc6a61ec3292f4cab965ab9858126d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 058/127] fix: create_drift_report passed its arguments to the
 wrong parameters

---
 pygsti/extras/drift/driftreport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/extras/drift/driftreport.py b/pygsti/extras/drift/driftreport.py
index ef496dc..59a386c 100644
--- a/pygsti/extras/drift/driftreport.py
+++ b/pygsti/extras/drift/driftreport.py
@@ -583,7 +583,7 @@ def create_drift_report(results, gss, filename, title="auto",
     ws = ws or _ws.Workspace(advancedOptions.get('cachefile', None))
 
     report = construct_drift_report(
-        results, gss, title, ws, verbosity
+        results, title, ws, verbosity
     )
 
     advancedOptions = advancedOptions or {}
-- 
2.43.0


From 56790dbdaa1a03a6468418139510cbd04da6221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 059/127] fix: converting a static gate to a linearly
 parameterized one took realness as a left transform

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index ea1497e..4d9316c 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -210,7 +210,7 @@ def convert(gate, toType, basis, extra=None):
             return gate  # no conversion necessary
         elif isinstance(gate, StaticDenseOp):
             real = _np.isclose(_np.linalg.norm(gate.imag), 0)
-            return LinearlyParamDenseOp(gate.todense(), _np.array([]), {}, real)
+            return LinearlyParamDenseOp(gate.todense(), _np.array([]), {}, real=real)
         else:
             raise ValueError("Cannot convert type %s to LinearlyParamDenseOp"
                              % type(gate))
-- 
2.43.0


From 2b723f333deb72daecee214959d01cbf2f9de43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 060/127] fix: bulk_dprobs of opless models took its block size
 as a profiler

---
 pygsti/objects/oplessmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/oplessmodel.py b/pygsti/objects/oplessmodel.py
index cb045db..6f6c7a6 100644
--- a/pygsti/objects/oplessmodel.py
+++ b/pygsti/objects/oplessmodel.py
@@ -177,7 +177,7 @@ class OplessModel(_Model):
 
         self.bulk_fill_dprobs(vdp, evalTree,
                               vp, clipTo, check, comm,
-                              None, wrtBlockSize)
+                              wrtBlockSize)
 
         ret = _collections.OrderedDict()
         for i, opstr in enumerate(evalTree):
-- 
2.43.0


From 9843c7cf981293e3f8e81cc147b62ebef6d6e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 061/127] fix: a verbose ProcessorSpec added non-local
 two-qubit compilations

---
 pygsti/objects/processorspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/processorspec.py b/pygsti/objects/processorspec.py
index aa7a908..47f91ff 100644
--- a/pygsti/objects/processorspec.py
+++ b/pygsti/objects/processorspec.py
@@ -209,7 +209,7 @@ class ProcessorSpec(object):
                         else:
                             raise ValueError("One of the values for the key `{}` to "
                                              "`construct_clifford_compilations` is not a valid option!".format(ctype))
-                    self.add_std_compilations(ctype, oneQgates, twoQgates, verbosity)
+                    self.add_std_compilations(ctype, oneQgates, twoQgates, verbosity=verbosity)
 
                 else:
                     raise ValueError(
-- 
2.43.0


From b49a66f81942d9ed34ea32bdb6e19c97f1e0020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 062/127] fix: the LGST starting point of GateSetTomography
 ignored the communicator

---
 pygsti/protocols/gst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 7159c30..a20d478 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -226,7 +226,7 @@ class GateSetTomography(_proto.Protocol):
                 startingPt = auto_starting_pt
 
             if startingPt == "LGST":
-                lgst_results = lgst.run(lgst_data)
+                lgst_results = lgst.run(lgst_data, memlimit, comm)
                 mdl_start = lgst_results.estimates['LGST'].models['lgst_gaugeopt']
 
         elif startingPt == "target":
-- 
2.43.0


From b9cbdb6df6cc311401ef40396120a00492e7030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 063/127] fix: non-local compilations expanded their CNOTs with
 gates outside the allowed filter

---
 pygsti/objects/compilationlibrary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/compilationlibrary.py b/pygsti/objects/compilationlibrary.py
index 4fdcacf..b235c47 100644
--- a/pygsti/objects/compilationlibrary.py
+++ b/pygsti/objects/compilationlibrary.py
@@ -616,7 +616,7 @@ class CompilationLibrary(_collections.OrderedDict):
 
         ## Change into the native gates, using the compilation for CNOTs between
         ## connected qubits.
-        circuit.change_gate_library(self)
+        circuit.change_gate_library(self, allowed_filter=allowed_filter)
         circuit.done_editing()
 
         if check:
-- 
2.43.0


From bc6bdadd368d9b5197b740982cbaa7c833f81ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 064/127] fix: only the first of the random rotations of a
 qutrit model honoured the seed

---
 pygsti/construction/qutrit.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygsti/construction/qutrit.py b/pygsti/construction/qutrit.py
index f44131e..ff26764 100644
--- a/pygsti/construction/qutrit.py
+++ b/pygsti/construction/qutrit.py
@@ -86,7 +86,7 @@ def YY3(theta):
 
 
 def _random_rot(scale, arrType=_np.array, seed=None):
-    rndm = _np.random.RandomState(seed)
+    rndm = seed if isinstance(seed, _np.random.RandomState) else _np.random.RandomState(seed)
     randH = scale * (rndm.randn(3, 3) + 1j * rndm.randn(3, 3))
     randH = _np.dot(_np.conj(randH.T), randH)
     randU = _linalg.expm(-1j * randH)
@@ -157,10 +157,11 @@ def make_qutrit_model(errorScale, Xangle=_np.pi / 2, Yangle=_np.pi / 2,
     #Now introduce unitary noise.
 
     scale = errorScale
-    Xrand = _random_rot(scale, seed=seed)
-    Yrand = _random_rot(scale)
-    Mrand = _random_rot(scale)
-    Irand = _random_rot(scale)
+    rndm = _np.random.RandomState(seed)
+    Xrand = _random_rot(scale, seed=rndm)
+    Yrand = _random_rot(scale, seed=rndm)
+    Mrand = _random_rot(scale, seed=rndm)
+    Irand = _random_rot(scale, seed=rndm)
 
     if similarity:  # Change basis for each gate; this preserves rotation angles, and should map identity to identity
         gateXmx = _np.dot(_np.dot(_np.conj(Xrand).T, gateXmx), Xrand)
-- 
2.43.0


From b81918b1c740d19db5d3a68d1318012ffb6b815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 065/127] fix: maxlikelihood of time-resolved models returned
 the optimizer output whether or not asked to

---
 pygsti/extras/drift/trmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/extras/drift/trmodel.py b/pygsti/extras/drift/trmodel.py
index a0090e7..391868a 100644
--- a/pygsti/extras/drift/trmodel.py
+++ b/pygsti/extras/drift/trmodel.py
@@ -172,8 +172,8 @@ def maxlikelihood(trmodel, ds, minp=1e-4, maxp=1 - 1e-6, bounds=None, optout=Fal
 
     seed = maxlmodel.get_parameters()
     start = _tm.time()
-    optout = _minimize(objfunc, seed, options=optoptions, bounds=bounds)
-    maxlparameters = optout.x
+    optimizer_output = _minimize(objfunc, seed, options=optoptions, bounds=bounds)
+    maxlparameters = optimizer_output.x
     maxlmodel.set_parameters(maxlparameters)
     end = _tm.time()
 
@@ -183,6 +183,6 @@ def maxlikelihood(trmodel, ds, minp=1e-4, maxp=1 - 1e-6, bounds=None, optout=Fal
         print("- Time taken: {} seconds".format(end - start)),
 
     if optout:
-        return maxlmodel, optout
+        return maxlmodel, optimizer_output
     else:
         return maxlmodel
-- 
2.43.0


From 977133df531290d1bdea7240fd51af3f52775f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 066/127] fix: GRASP searches ignored their seed

---
 pygsti/algorithms/germselection.py |  3 ++-
 pygsti/algorithms/grasp.py         | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index ddc0dca..344f30f 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -1845,6 +1845,7 @@ def grasp_germ_set_optimization(modelList, germsList, alpha, randomize=True,
     initialSolns = []
     localSolns = []
 
+    rndm = _np.random.RandomState(seed) if seed is not None else None
     for iteration in range(iterations):
         # This loop is parallelizable (each iteration is independent of all
         # other iterations).
@@ -1859,7 +1860,7 @@ def grasp_germ_set_optimization(modelList, germsList, alpha, randomize=True,
                     localScoreFn=scoreFn,
                     getNeighborsFn=getNeighborsFn,
                     feasibleFn=_feasibleFn,
-                    initialElements=initialWeights, seed=seed,
+                    initialElements=initialWeights, seed=rndm,
                     verbosity=verbosity)
 
                 initialSolns.append(iterSolns[0])
diff --git a/pygsti/algorithms/grasp.py b/pygsti/algorithms/grasp.py
index e6a29c0..d7b886f 100644
--- a/pygsti/algorithms/grasp.py
+++ b/pygsti/algorithms/grasp.py
@@ -65,7 +65,7 @@ def get_swap_neighbors(weights, forcedWeights=None, shuffle=False):
 
 
 def grasp_greedy_construction(elements, scoreFn, rclFn, feasibleThreshold=None,
-                              feasibleFn=None, initialElements=None):
+                              feasibleFn=None, initialElements=None, seed=None):
     """
     Constructs a subset of `elements` that represents a feasible solution.
 
@@ -115,11 +115,18 @@ def grasp_greedy_construction(elements, scoreFn, rclFn, feasibleThreshold=None,
         `elements` should be automatically included at the start of this
         construction.
 
+    seed : int or numpy.random.RandomState, optional
+        Seed (or state) of the random number generator used to choose among
+        the candidate elements.
+
     Returns
     -------
     list
         A sub-list of `elements`.
     """
+    if seed is None: rndm = _np.random
+    elif isinstance(seed, _np.random.RandomState): rndm = seed
+    else: rndm = _np.random.RandomState(seed)
 
     if initialElements is None:
         weights = _np.zeros(len(elements))
@@ -149,7 +156,7 @@ def grasp_greedy_construction(elements, scoreFn, rclFn, feasibleThreshold=None,
                                      for candidateSoln in candidateSolns])
         rclIdxs = rclFn(candidateScores)
         assert(len(rclIdxs) > 0), "Empty reduced candidate list!"
-        chosenIdx = _np.random.choice(rclIdxs)
+        chosenIdx = rndm.choice(rclIdxs)
         soln = candidateSolns[chosenIdx]
         weights[candidateIdxs[chosenIdx]] = 1
         if feasibleTest == 'threshold':
@@ -333,7 +340,7 @@ def do_grasp_iteration(elements, greedyScoreFn, rclFn, localScoreFn,
 
     initialSoln = grasp_greedy_construction(elements, greedyScoreFn, rclFn,
                                             feasibleThreshold, feasibleFn,
-                                            initialElements)
+                                            initialElements, seed)
     printer.log('Initial construction:', 1)
     def to_str(x): return x.str if isinstance(x, _objs.Circuit) else str(x)
     printer.log(str([to_str(element) for element in initialSoln]), 1)
@@ -422,6 +429,9 @@ def do_grasp(elements, greedyScoreFn, rclFn, localScoreFn, getNeighborsFn,
     """
     printer = _objs.VerbosityPrinter.build_printer(verbosity)
 
+    if seed is not None:  # so that iterations differ from one another
+        seed = _np.random.RandomState(seed)
+
     bestSoln = None
     for iteration in range(iterations):
         printer.log('Iteration {}'.format(iteration), 1)
-- 
2.43.0


From eb0ea0aadbe7e5f22a2fa5c8cb8072b7f759e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 067/127] fix: LogLFunction.simple_init ignored its check
 option

---
 pygsti/objects/objectivefns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index 054c3e8..d7d1de6 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -680,7 +680,7 @@ class LogLFunction(ObjectiveFunction):
         return cls(model, evalTree, lookup, circuit_list, opLabelAliases, cptp_penalty_factor=0,
                    spam_penalty_factor=0, cntVecMx=countVecMx, totalCntVec=totalCntVec, minProbClip=minProbClip,
                    radius=radius, probClipInterval=probClipInterval, wrtBlkSize=None, gthrMem=None,
-                   forcefn_grad=None, poissonPicture=poissonPicture, shiftFctr=100, check=False,
+                   forcefn_grad=None, poissonPicture=poissonPicture, shiftFctr=100, check=check,
                    comm=comm, profiler=None, verbosity=0)
 
     def __init__(self, mdl, evTree, lookup, circuitsToUse, opLabelAliases, cptp_penalty_factor,
-- 
2.43.0


From 6da0efe596bac35b1dc5fe61ad05edef6abd304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 068/127] fix: the non-Markovian radius of a confidence region
 summed over circuits and cutoffs not its own

---
 pygsti/objects/confidenceregionfactory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/confidenceregionfactory.py b/pygsti/objects/confidenceregionfactory.py
index 65aa990..e58007b 100644
--- a/pygsti/objects/confidenceregionfactory.py
+++ b/pygsti/objects/confidenceregionfactory.py
@@ -241,8 +241,9 @@ class ConfidenceRegionFactory(object):
                                  comm=comm, memLimit=memLimit, verbosity=vb,
                                  opLabelAliases=aliases)
 
-            nonMarkRadiusSq = max(2 * (_tools.logl_max(model, dataset)
-                                       - _tools.logl(model, dataset,
+            nonMarkRadiusSq = max(2 * (_tools.logl_max(model, dataset, circuit_list, opLabelAliases=aliases)
+                                       - _tools.logl(model, dataset, circuit_list,
+                                                     minProbClip, probClipInterval, radius,
                                                      opLabelAliases=aliases))
                                   - (nDataParams - nModelParams), MIN_NON_MARK_RADIUS)
 
-- 
2.43.0


From 8d0862448498a6f4260872807eae9d0e5c9ea2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 069/127] fix: Clifford and CNOT compilers passed Circuit
 arguments it does not have

---
 pygsti/algorithms/compilers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/algorithms/compilers.py b/pygsti/algorithms/compilers.py
index 21476e3..c7907f0 100644
--- a/pygsti/algorithms/compilers.py
+++ b/pygsti/algorithms/compilers.py
@@ -420,7 +420,7 @@ def compile_symplectic(s, pspec=None, qubit_labels=None, iterations=20, algorith
             # Different labelling depending on qubit_labels and pspec.
             if pspec is None:
                 pcircuit = _Circuit(layer_labels=[_Label(paulilist[_np.random.randint(4)], k)
-                                                  for k in range(n)], num_lines=n, identity='I')
+                                                  for k in range(n)], num_lines=n)
             else:
                 # Map the circuit to the correct qubit labels
                 if qubit_labels is not None:
@@ -1297,7 +1297,7 @@ def compile_cnot_circuit_using_BGE_algorithm(s, pspec, qubit_labels=None, clname
            ), "Algorithm has failed! Perhaps the input wasn't a CNOT circuit."
     # The instructions returned are for mapping s -> I, so we need to reverse them.
     instructions.reverse()
-    circuit = _Circuit(gatesring=instructions, line_labels=qubit_labels).parallelize()
+    circuit = _Circuit(layer_labels=instructions, line_labels=qubit_labels).parallelize()
     if check:
         s_implemented, p_implemented = _symp.symplectic_rep_of_clifford_circuit(circuit)
         assert(_np.array_equal(s_implemented, s)), "Algorithm has failed! Perhaps the input wasn't a CNOT circuit."
-- 
2.43.0


From b125fee2ce6d8d02ed4b86286162b7f491531581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 070/127] fix: crosstalk data flattening used
 collections.Iterable, removed from Python

---
 pygsti/extras/crosstalk/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/extras/crosstalk/core.py b/pygsti/extras/crosstalk/core.py
index f28aa4b..79d3a99 100644
--- a/pygsti/extras/crosstalk/core.py
+++ b/pygsti/extras/crosstalk/core.py
@@ -14,7 +14,7 @@ from ... import objects as _pygobjs
 from ... import io as _pygio
 import pcalg
 from gsq.ci_tests import ci_test_dis
-import collections
+import collections.abc
 from sympy import isprime
 
 
@@ -55,7 +55,7 @@ def flatten(l):
     From https://stackoverflow.com/questions/2158395/flatten-an-irregular-list-of-lists
     """
     for el in l:
-        if isinstance(el, collections.Iterable) and not isinstance(el, (str, bytes)):
+        if isinstance(el, collections.abc.Iterable) and not isinstance(el, (str, bytes)):
             yield from flatten(el)
         else:
             yield el
-- 
2.43.0


From 43fcf5f7c2fad6ac60b04cf051d415365a76aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 071/127] fix: a report Workspace could not be created:
 inspect.getargspec and formatargspec are gone from Python

---
 pygsti/report/workspace.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygsti/report/workspace.py b/pygsti/report/workspace.py
index 2173337..d793b34 100644
--- a/pygsti/report/workspace.py
+++ b/pygsti/report/workspace.py
@@ -214,18 +214,18 @@ class Workspace(object):
     def _makefactory(self, cls, autodisplay):  # , printer=_objs.VerbosityPrinter(1)):
         # XXX this indirection is so wild -- can we please rewrite directly?
         #Manipulate argument list of cls.__init__
-        argspec = _inspect.getargspec(cls.__init__)
-        argnames = argspec[0]
+        argspec = _inspect.getfullargspec(cls.__init__)
+        argnames = argspec.args
         assert(argnames[0] == 'self' and argnames[1] == 'ws'), \
             "__init__ must begin with (self, ws, ...)"
 
         factoryfn_argnames = argnames[2:]  # strip off self & ws args
-        newargspec = (factoryfn_argnames,) + argspec[1:]
 
         #Define a new factory function with appropriate signature
-        signature = _inspect.formatargspec(
-            formatvalue=lambda val: "", *newargspec)
-        signature = signature[1:-1]  # strip off parenthesis from ends of "(signature)"
+        signature = list(factoryfn_argnames)
+        if argspec.varargs is not None: signature.append('*' + argspec.varargs)
+        if argspec.varkw is not None: signature.append('**' + argspec.varkw)
+        signature = ', '.join(signature)
 
         if autodisplay:
             factory_func_def = (
-- 
2.43.0


From da21412e52a7c8a911d75f49e04bc025e3ba95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 072/127] fix: loading old objects looked for the matrix
 forward simulator in the wrong module

---
 pygsti/io/legacyio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/io/legacyio.py b/pygsti/io/legacyio.py
index e06315c..1ab8b12 100644
--- a/pygsti/io/legacyio.py
+++ b/pygsti/io/legacyio.py
@@ -15,6 +15,7 @@ from types import ModuleType as _ModuleType
 from contextlib import contextmanager as _contextmanager
 
 from .. import objects as _objs
+from ..objects import matrixforwardsim as _matrixfwdsim
 from ..objects import circuit as _circuit
 
 
@@ -55,7 +56,7 @@ def enable_old_object_unpickling(old_version="0.9.6"):
 
         class dummy_GateMatrixCalc(object):
             def __new__(cls):
-                replacement_obj = _objs.MatrixForwardSimulator.__new__(_objs.MatrixForwardSimulator)
+                replacement_obj = _matrixfwdsim.MatrixForwardSimulator.__new__(_matrixfwdsim.MatrixForwardSimulator)
                 return replacement_obj
 
         class dummy_AutoGator(object): pass
-- 
2.43.0


From 3853c4f95a47007428012ebcd1e8c1275fea8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 073/127] fix: ExplicitOpModel.strdiff(metric='diamond') called
 a misspelt function

---
 pygsti/objects/explicitmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/explicitmodel.py b/pygsti/objects/explicitmodel.py
index b57ebe4..0e09203 100644
--- a/pygsti/objects/explicitmodel.py
+++ b/pygsti/objects/explicitmodel.py
@@ -1141,7 +1141,7 @@ class ExplicitOpModel(_mdl.OpModel):
             def dist(A, B): return _gt.entanglement_infidelity(A, B, self.basis)
             def vecdist(A, B): return _np.linalg.norm(A - B)
         elif metric == 'diamond':
-            def dist(A, B): return 0.5 * _gt.diamondist(A, B, self.basis)
+            def dist(A, B): return 0.5 * _gt.diamonddist(A, B, self.basis)
             def vecdist(A, B): return _np.linalg.norm(A - B)
         else:
             raise ValueError("Invalid `metric` argument: %s" % metric)
-- 
2.43.0


From 547c3654f6fae45d66e96570b11dbe06fcb673a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 074/127] fix: a QubitGraph could not be built from integer
 connectivity: numpy has no int

---
 pygsti/objects/qubitgraph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsti/objects/qubitgraph.py b/pygsti/objects/qubitgraph.py
index 4308a35..5238e7e 100644
--- a/pygsti/objects/qubitgraph.py
+++ b/pygsti/objects/qubitgraph.py
@@ -148,8 +148,7 @@ class QubitGraph(object):
                 assert(direction_names is None), \
                     "`initial_connectivity` must have *integer* indices when `direction_names` is non-None"
             else:
-                #TODO: fix numpy integer-type test here
-                assert(initial_connectivity.dtype == _np.int), \
+                assert(_np.issubdtype(initial_connectivity.dtype, _np.integer)), \
                     ("`initial_connectivity` can only have dtype == bool or "
                      "int (but has dtype=%s)") % str(initial_connectivity.dtype)
                 assert(direction_names is not None), \
-- 
2.43.0


From b44269e1f2a5a98a443dbe8490fdbd6c950b39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 075/127] fix: TermEvalTree.get_sopm_gaps called a misspelt
 method

---
 pygsti/objects/termevaltree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/termevaltree.py b/pygsti/objects/termevaltree.py
index a93fbfc..ed190ac 100644
--- a/pygsti/objects/termevaltree.py
+++ b/pygsti/objects/termevaltree.py
@@ -439,7 +439,7 @@ class TermEvalTree(EvalTree):
         return _np.array(achieved_sopm, 'd'), _np.array(max_sopm, 'd')
 
     def get_sopm_gaps(self, calc):
-        achieved_sopm, max_sopm = self.get_achieved_and_max_sopm_gaps(calc)
+        achieved_sopm, max_sopm = self.get_achieved_and_max_sopm(calc)
         return max_sopm - achieved_sopm
 
     def get_achieved_and_max_sopm_jacobian(self, calc):
-- 
2.43.0


From 85d484750765ef7096b8b609ac51e1b5856a7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 076/127] fix: bulk_fill_hprobs of the term simulator called a
 method by the wrong name, with the whole tree

---
 pygsti/objects/termforwardsim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/termforwardsim.py b/pygsti/objects/termforwardsim.py
index 6c86d4c..a02d444 100644
--- a/pygsti/objects/termforwardsim.py
+++ b/pygsti/objects/termforwardsim.py
@@ -1407,8 +1407,8 @@ class TermForwardSimulator(ForwardSimulator):
                     else:
                         self._fill_dprobs_block(deriv2MxToFill, felInds, None, evalSubTree, wrtSlice2,
                                                 mySubComm, memLimit=None)
-                self.fill_hprobs_block(mxToFill, felInds, None, None, evalTree,
-                                       wrtSlice1, wrtSlice2, mySubComm, memLimit=None)
+                self._fill_hprobs_block(mxToFill, felInds, None, None, evalSubTree,
+                                        wrtSlice1, wrtSlice2, mySubComm, memLimit=None)
 
             else:  # Divide columns into blocks of at most blkSize
                 assert(wrtFilter1 is None and wrtFilter2 is None)  # cannot specify both wrtFilter and blkSize
@@ -1442,8 +1442,8 @@ class TermForwardSimulator(ForwardSimulator):
 
                     for iBlk2 in myBlk2Indices:
                         paramSlice2 = blocks2[iBlk2]
-                        self.fill_hprobs_block(mxToFill, felInds, paramSlice1, paramSlice2, evalTree,
-                                               paramSlice1, paramSlice2, blk2Comm, memLimit=None)
+                        self._fill_hprobs_block(mxToFill, felInds, paramSlice1, paramSlice2, evalSubTree,
+                                                paramSlice1, paramSlice2, blk2Comm, memLimit=None)
 
                     #gather column results: gather axis 2 of mxToFill[felInds,blocks1[iBlk1]], dim=(ks,blk1,M)
                     _mpit.gather_slices(blocks2, blk2Owners, mxToFill, [felInds, blocks1[iBlk1]],
-- 
2.43.0


From 1023fe724b74ed38f229efee05ce43a4c13a4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 077/127] fix: acting with a stabilizer operation on a state
 could not build the result

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 4d9316c..8aa1316 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -455,7 +455,7 @@ class LinearOperator(_modelmember.ModelMember):
         if self._evotype in ("densitymx", "statevec"):
             return _sv.StaticSPAMVec(output_rep.todense(), self._evotype, 'prep')
         else:  # self._evotype == "stabilizer"
-            return _sv.StabilizerSPAMVec(sframe=_stabilizer.StabilizerFrame(
+            return _sv.StabilizerSPAMVec(None, sframe=_stabilizer.StabilizerFrame(
                 output_rep.smatrix, output_rep.pvectors, output_rep.amps))
 
     #def torep(self):
-- 
2.43.0


From cea33fce92bcd5795114a5ce3ae63b545bec8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 078/127] fix: LindbladSPAMVec.from_lindblad_terms called
 LindbladOp with an old signature

---
 pygsti/objects/spamvec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 1b813d0..b88aa8c 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2744,8 +2744,10 @@ class LindbladSPAMVec(SPAMVec):
         d2 = pureVec.dim
 
         from .operation import LindbladOp as _LPGMap
-        errmap = _LPGMap(d2, Ltermdict, basisdict, param_mode, nonham_mode,
-                         truncate, mxBasis, evotype)
+        from .operation import LindbladErrorgen as _LErrgen
+        errgen = _LErrgen(d2, Ltermdict, basisdict, param_mode, nonham_mode,
+                          truncate, mxBasis, evotype)
+        errmap = _LPGMap(None, errgen)
         return cls(pureVec, errmap, typ)
 
     def __init__(self, pureVec, errormap, typ):
-- 
2.43.0


From f2eee4bcc8b4002a84cd0608932d3a6baac59daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 079/127] fix: OplessModel.__str__ raised a string

---
 pygsti/objects/oplessmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/oplessmodel.py b/pygsti/objects/oplessmodel.py
index 6f6c7a6..a5fc44d 100644
--- a/pygsti/objects/oplessmodel.py
+++ b/pygsti/objects/oplessmodel.py
@@ -249,7 +249,7 @@ class OplessModel(_Model):
                     #self.from_vector(p)
 
     def __str__(self):
-        raise "Derived classes should implement OplessModel.__str__ !!"
+        raise NotImplementedError("Derived classes should implement OplessModel.__str__ !!")
 
 
 class SuccessFailModel(OplessModel):
-- 
2.43.0


From ac7ca7b320b77975cc2ddd744c21eaa2e2d10a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 080/127] fix: ModelEstimateResults.view set attributes that do
 not exist

---
 pygsti/protocols/gst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index a20d478..3409549 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -1621,8 +1621,8 @@ class ModelEstimateResults(_proto.ProtocolResults):
         Results
         """
         view = ModelEstimateResults(self.data, self.protocol, init_circuits=False)
-        view.qtys['circuit_lists'] = self.circuit_lists
-        view.qyts['circuit_structs'] = self.circuit_structs
+        view.circuit_lists = self.circuit_lists
+        view.circuit_structs = self.circuit_structs
 
         if isinstance(estimate_keys, str):
             estimate_keys = [estimate_keys]
-- 
2.43.0


From 9ab0ef9425e30df1361914de50e282fe7a0ef32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 081/127] fix: Benchmark.compute_dscmp_data passed one argument
 too many and read a misspelt attribute

---
 pygsti/protocols/rb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/protocols/rb.py b/pygsti/protocols/rb.py
index 33cb10b..f73f919 100644
--- a/pygsti/protocols/rb.py
+++ b/pygsti/protocols/rb.py
@@ -546,7 +546,7 @@ class Benchmark(_proto.Protocol):
                    'llrs': dscomparator.llrs.get(circ, _np.nan)}
             return ret
 
-        return self.compute_dict(data, "dscmpdata", self.dsmp_datatypes, get_dscmp_values, for_passes="none")
+        return self.compute_dict(data, self.dscmp_datatypes, get_dscmp_values, for_passes="none")
 
     def compute_predicted_probs(self, data, model):
 
-- 
2.43.0


From f81cc123fab86cddb635b71b768b109a33a9079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 082/127] fix: RPE results could not give their counts and raw
 angles

---
 pygsti/protocols/rpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/protocols/rpe.py b/pygsti/protocols/rpe.py
index 6c83dde..808f0cd 100644
--- a/pygsti/protocols/rpe.py
+++ b/pygsti/protocols/rpe.py
@@ -170,13 +170,13 @@ class RobustPhaseEstimationResults(_proto.ProtocolResults):
 
     @property
     def measured_counts(self):
-        return self.protocol_instance.parse_dataset(
+        return self.protocol.parse_dataset(
             self.data.edesign, self.data.dataset
         )
 
     @property
     def raw_angles(self):
-        return self.protocol_instance.rawn_angles(self.measured_counts)
+        return self.protocol.raw_angles(self.measured_counts)
 
 
 # shorthands
-- 
2.43.0


From f074a58b6a8ceb8d9e429c7b2115b9a042f0516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 083/127] fix: extras.devices.devcore imported a module that no
 longer exists

---
 pygsti/extras/devices/devcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/extras/devices/devcore.py b/pygsti/extras/devices/devcore.py
index 7274474..ece353e 100644
--- a/pygsti/extras/devices/devcore.py
+++ b/pygsti/extras/devices/devcore.py
@@ -8,7 +8,7 @@
 # http://www.apache.org/licenses/LICENSE-2.0 or in the LICENSE file in the root pyGSTi directory.
 #***************************************************************************************************
 
-from ..rb import analysis as _anl
+from ...tools import rbtools as _anl
 from ...objects import oplessmodel as _oplessmodel
 from ...objects import processorspec as _pspec
 from ...objects import povm as _povm
-- 
2.43.0


From 8df824e1fce49b30b626b6f513fe11106847c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 084/127] fix: a compiled composed operation pickled the
 factors it was created with, not its current ones

---
 pygsti/objects/replib/fastreplib.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index 58215be..9e5f257 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -709,6 +709,7 @@ cdef class DMOpRep_Composed(DMOpRep):
         for i in range(nfactors):
             creps[i] = (<DMOpRep?>new_factor_op_reps[i]).c_gate
         (<DMOpCRep_Composed*>self.c_gate).reinit_factor_op_creps(creps)
+        self.factor_reps = new_factor_op_reps
 
 
 cdef class DMOpRep_Sum(DMOpRep):
@@ -1072,6 +1073,7 @@ cdef class SVOpRep_Composed(SVOpRep):
         for i in range(nfactors):
             creps[i] = (<SVOpRep?>new_factor_op_reps[i]).c_gate
         (<SVOpCRep_Composed*>self.c_gate).reinit_factor_op_creps(creps)
+        self.factor_reps = new_factor_op_reps
 
     def __reduce__(self):
         return (SVOpRep_Composed, (self.factor_reps, self.c_gate._dim))
-- 
2.43.0


From f4d0390d69c9a7e5d034848c0720633e4d2c7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 085/127] fix: ComposedErrorgen.append and remove called a
 method the sum representations did not have

---
 pygsti/objects/replib/fastreplib.pyx | 20 ++++++++++++++++++++
 pygsti/objects/replib/slowreplib.py  |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index 9e5f257..d531a7a 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -125,6 +125,7 @@ cdef extern from "fastreps.h" namespace "CReps":
 
     cdef cppclass DMOpCRep_Sum(DMOpCRep):
         DMOpCRep_Sum(vector[DMOpCRep*], INT) except +
+        vector[DMOpCRep*] _factor_creps
         DMStateCRep* acton(DMStateCRep*, DMStateCRep*)
         DMStateCRep* adjoint_acton(DMStateCRep*, DMStateCRep*)
 
@@ -222,6 +223,7 @@ cdef extern from "fastreps.h" namespace "CReps":
 
     cdef cppclass SVOpCRep_Sum(SVOpCRep):
         SVOpCRep_Sum(vector[SVOpCRep*], INT) except +
+        vector[SVOpCRep*] _factor_creps
         SVStateCRep* acton(SVStateCRep*, SVStateCRep*)
         SVStateCRep* adjoint_acton(SVStateCRep*, SVStateCRep*)
 
@@ -724,6 +726,15 @@ cdef class DMOpRep_Sum(DMOpRep):
             factor_creps[i] = (<DMOpRep?>factor_reps[i]).c_gate
         self.c_gate = new DMOpCRep_Sum(factor_creps, dim)
 
+    def reinit_factor_reps(self, new_factor_reps):
+        cdef INT i
+        cdef INT nfactors = len(new_factor_reps)
+        cdef vector[DMOpCRep*] creps = vector[DMGateCRep_ptr](nfactors)
+        for i in range(nfactors):
+            creps[i] = (<DMOpRep?>new_factor_reps[i]).c_gate
+        (<DMOpCRep_Sum*>self.c_gate)._factor_creps = creps
+        self.factor_reps = new_factor_reps
+
     def __reduce__(self):
         return (DMOpRep_Sum, (self.factor_reps, self.c_gate._dim))
 
@@ -1091,6 +1102,15 @@ cdef class SVOpRep_Sum(SVOpRep):
             factor_creps[i] = (<SVOpRep?>factor_reps[i]).c_gate
         self.c_gate = new SVOpCRep_Sum(factor_creps, dim)
 
+    def reinit_factor_reps(self, new_factor_reps):
+        cdef INT i
+        cdef INT nfactors = len(new_factor_reps)
+        cdef vector[SVOpCRep*] creps = vector[SVGateCRep_ptr](nfactors)
+        for i in range(nfactors):
+            creps[i] = (<SVOpRep?>new_factor_reps[i]).c_gate
+        (<SVOpCRep_Sum*>self.c_gate)._factor_creps = creps
+        self.factor_reps = new_factor_reps
+
     def __reduce__(self):
         return (SVOpRep_Sum, (self.factor_reps, self.c_gate._dim))
 
diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index 38f1007..b745760 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -410,6 +410,9 @@ class DMOpRep_Sum(DMOpRep):
     def __reduce__(self):
         return (DMOpRep_Sum, (self.factor_reps, self.dim))
 
+    def reinit_factor_reps(self, new_factor_reps):
+        self.factor_reps = new_factor_reps
+
     def acton(self, state):
         """ Act this gate map on an input state """
         output_state = DMStateRep(_np.zeros(state.base.shape, 'd'))
@@ -849,6 +852,9 @@ class SVOpRep_Sum(SVOpRep):
     def __reduce__(self):
         return (SVOpRep_Sum, (self.factor_reps, self.dim))
 
+    def reinit_factor_reps(self, new_factor_reps):
+        self.factor_reps = new_factor_reps
+
     def acton(self, state):
         """ Act this gate map on an input state """
         output_state = SVStateRep(_np.zeros(state.base.shape, complex))
-- 
2.43.0


From e32d3131c3897d2c221865f92e2419c544167a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 086/127] fix: gate_dependence_of_errormaps(norm='1to1') looked
 for norm1to1 in the wrong module

---
 pygsti/tools/rbtheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/rbtheory.py b/pygsti/tools/rbtheory.py
index da4dc6f..7a2d2b8 100644
--- a/pygsti/tools/rbtheory.py
+++ b/pygsti/tools/rbtheory.py
@@ -781,7 +781,7 @@ def gate_dependence_of_errormaps(mdl, target_model, norm='diamond', mxBasis=None
                                             mxBasis=mxBasis))
         elif norm == '1to1':
             gate_dif = error_gs.operations[gate] - error_gs.operations['Gavg']
-            delta.append(_optls.norm1to1(gate_dif, n_samples=1000, mxBasis=mxBasis, return_list=False))
+            delta.append(_mtls.norm1to1(gate_dif, n_samples=1000, mxBasis=mxBasis, return_list=False))
         else:
             raise ValueError("Only diamond or 1to1 norm available.")
 
-- 
2.43.0


From 4a1a7dc4f258dcb493fed2867e72386387baaa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 087/127] fix: reports could not be rendered: jinja2 3.1 has no
 Markup and evalcontextfilter

---
 pygsti/report/merge_helpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygsti/report/merge_helpers.py b/pygsti/report/merge_helpers.py
index 2a57e26..a0d0686 100644
--- a/pygsti/report/merge_helpers.py
+++ b/pygsti/report/merge_helpers.py
@@ -384,6 +384,7 @@ def _make_jinja_env(static_path, templateDir=None, render_options=None, link_to=
     """Build a jinja2 environment for generating pyGSTi reports"""
     try:
         import jinja2  # import locally since we don't want to require jinja to import pygsti
+        import markupsafe
     except ImportError:
         raise ImportError(("The 'jinja2' optional package is required to create pyGSTi "
                            "reports, and appears to be missing.  Try 'pip install jinja2'."))
@@ -430,13 +431,16 @@ def _make_jinja_env(static_path, templateDir=None, render_options=None, link_to=
         """Embed an offline file's contents directly in the document, in a script tag."""
         # XXX we gotta find a better way, this is so wild dude
         contents = offline_loader.get_source(env, filename)[0]
-        return jinja2.Markup(contents)
+        return markupsafe.Markup(contents)
+
+    # the decorator has another name before version 3.0 of jinja2
+    pass_eval_context = getattr(jinja2, 'pass_eval_context', None) or getattr(jinja2, 'evalcontextfilter')
 
     @jinja_filter
-    @jinja2.evalcontextfilter
+    @pass_eval_context
     def render(eval_ctx, value):
         html = _render_as_html(value, render_options or {}, link_to)
-        return jinja2.Markup(html) if eval_ctx.autoescape else html
+        return markupsafe.Markup(html) if eval_ctx.autoescape else html
 
     return env
 
-- 
2.43.0


From e604fbc2d9c1a035ed7f3f7474489d5e15bb3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 088/127] fix: data with several datasets could not be read
 back from its directory

---
 pygsti/protocols/protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/protocols/protocol.py b/pygsti/protocols/protocol.py
index 696f735..f20c3db 100644
--- a/pygsti/protocols/protocol.py
+++ b/pygsti/protocols/protocol.py
@@ -940,9 +940,9 @@ class ProtocolData(_TreeNode):
         elif len(dataset_files) == 1 and dataset_files[0].name == 'dataset.txt':  # a single dataset.txt file
             dataset = _io.load_dataset(dataset_files[0], verbosity=0)
         else:
-            raise NotImplementedError("Need to implement MultiDataSet.init_from_dict!")
-            dataset = _objs.MultiDataSet.init_from_dict(
-                {pth.name: _io.load_dataset(pth, verbosity=0) for pth in dataset_files})
+            dataset = _objs.MultiDataSet()
+            for pth in dataset_files:
+                dataset.add_dataset(pth.stem, _io.load_dataset(pth, verbosity=0))
 
         cache = _io.read_json_or_pkl_files_to_dict(data_dir / 'cache')
 
-- 
2.43.0


From 7b95fbdca552f692831ab4f26667016a98b33fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 089/127] fix: finding amplified parameters asked for the
 default POVM without its argument

---
 pygsti/construction/nqnoiseconstruction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/construction/nqnoiseconstruction.py b/pygsti/construction/nqnoiseconstruction.py
index c654f59..2e7e1ff 100644
--- a/pygsti/construction/nqnoiseconstruction.py
+++ b/pygsti/construction/nqnoiseconstruction.py
@@ -1186,7 +1186,7 @@ def test_amped_polys_for_syntheticidle(fidpairs, idleStr, model, prepLbl=None, e
     if prepLbl is None:
         prepLbl = model._shlp.get_default_prep_lbl()
     if effectLbls is None:
-        povmLbl = model._shlp.get_default_povm_lbl()
+        povmLbl = model._shlp.get_default_povm_lbl(sslbls=None)
         effectLbls = [_Lbl("%s_%s" % (povmLbl, l)) for l in model._shlp.get_effect_labels_for_povm(povmLbl)]
     dummy = 5.0 * _np.random.random(model.num_params()) + 0.5 * _np.ones(model.num_params(), 'd')
 
@@ -1345,7 +1345,7 @@ def find_amped_polys_for_clifford_syntheticidle(qubit_filter, core_filter, trueI
     if prepLbl is None:
         prepLbl = model._shlp.get_default_prep_lbl()
     if effectLbls is None:
-        povmLbl = model._shlp.get_default_povm_lbl()
+        povmLbl = model._shlp.get_default_povm_lbl(sslbls=None)
         effectLbls = [_Lbl("%s_%s" % (povmLbl, l)) for l in model._shlp.get_effect_labels_for_povm(povmLbl)]
     if singleQfiducials is None:
         # TODO: assert model has Gx and Gy gates?
@@ -1573,7 +1573,7 @@ def get_fidpairs_needed_to_access_amped_polys(qubit_filter, core_filter, germPow
     if prepLbl is None:
         prepLbl = model._shlp.get_default_prep_lbl()
     if effectLbls is None:
-        povmLbl = model._shlp.get_default_povm_lbl()
+        povmLbl = model._shlp.get_default_povm_lbl(sslbls=None)
         effectLbls = model._shlp.get_effect_labels_for_povm(povmLbl)
     if singleQfiducials is None:
         # TODO: assert model has Gx and Gy gates?
-- 
2.43.0


From f6b84e7d137d1da6fc29add7b8ea33531e537fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 090/127] fix: standard models with H+S terms gave set_simtype
 the calculation cache as a second positional argument

---
 pygsti/construction/stdtarget.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/construction/stdtarget.py b/pygsti/construction/stdtarget.py
index c18cd92..b6892bc 100644
--- a/pygsti/construction/stdtarget.py
+++ b/pygsti/construction/stdtarget.py
@@ -61,7 +61,7 @@ def _make_HScache_for_std_model(std_module, termOrder, maxLength, json_too=False
     mdl_terms = target_model.copy()
     mdl_terms.set_all_parameterizations("H+S terms")  # CPTP terms?
     my_calc_cache = {}
-    mdl_terms.set_simtype("termorder:%d" % termOrder, my_calc_cache)
+    mdl_terms.set_simtype("termorder", max_order=termOrder, cache=my_calc_cache)
 
     comm_method = "scheduler"
     if comm is not None and comm.Get_size() > 1 and comm_method == "scheduler":
@@ -346,7 +346,7 @@ def _copy_target(std_module, param_type, sim_type="auto", gscache=None):
             if _os.path.exists(key_fn) and _os.path.exists(val_fn):
                 calc_cache = _load_calccache(key_fn, val_fn)
 
-        mdl.set_simtype(simt, calc_cache)
+        mdl.set_simtype("termorder", max_order=int(simt.split(":")[1]), cache=calc_cache)
     else:
         if sim_type != "auto":
             mdl.set_simtype(sim_type)
-- 
2.43.0


From f381e2ff97a547b11f6c1f7b25a4f684ce0256b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 091/127] fix: bulk_probs with a cache called cached_compute
 with the wrong arguments

---
 pygsti/objects/forwardsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/forwardsim.py b/pygsti/objects/forwardsim.py
index 3483168..a40a393 100644
--- a/pygsti/objects/forwardsim.py
+++ b/pygsti/objects/forwardsim.py
@@ -268,8 +268,8 @@ class ForwardSimulator(object):
         """
         vp = _np.empty(evalTree.num_final_elements(), 'd')
         if smartc:
-            smartc.cached_compute(self.bulk_fill_probs, vp, evalTree,
-                                  clipTo, check, comm, _filledarrays=(0,))
+            smartc.cached_compute(self.bulk_fill_probs, (vp, evalTree, clipTo, check, comm),
+                                  dict(_filledarrays=(0,)))
         else:
             self.bulk_fill_probs(vp, evalTree, clipTo, check, comm)
 
-- 
2.43.0


From 701075f42d1203f5f2afc7f2786f742c3a6d9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 092/127] fix: the rank that schedules a H+S term cache
 computation has a start time to report

---
 pygsti/construction/stdtarget.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/construction/stdtarget.py b/pygsti/construction/stdtarget.py
index b6892bc..6557191 100644
--- a/pygsti/construction/stdtarget.py
+++ b/pygsti/construction/stdtarget.py
@@ -63,6 +63,7 @@ def _make_HScache_for_std_model(std_module, termOrder, maxLength, json_too=False
     my_calc_cache = {}
     mdl_terms.set_simtype("termorder", max_order=termOrder, cache=my_calc_cache)
 
+    t0 = _time.time()
     comm_method = "scheduler"
     if comm is not None and comm.Get_size() > 1 and comm_method == "scheduler":
         from mpi4py import MPI  # just needed for MPI.SOURCE below
-- 
2.43.0


From ef1d8296dde44984b596bcabb878d2f4ed99ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 093/127] fix: ComposedErrorgen.get_coeffs works when no factor
 has any terms

---
 pygsti/objects/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 8aa1316..75a50f4 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5619,6 +5619,8 @@ class ComposedErrorgen(LinearOperator):
                 basis = _ExplicitBasis(mxs, lbls, name=None,
                                        real=first_nonempty_basis.real,
                                        sparse=first_nonempty_basis.sparse)
+            else:
+                basis = _ExplicitBasis([], [])  # there are no terms to label
             return Ltermdict, basis
         else:
             return Ltermdict
-- 
2.43.0


From 285fbc4eba52e757cc9608c3fa0b3bde36fbd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 094/127] fix: crosstalk detection does not repeat a TVD
 computation with another edge's levels (or none)

---
 pygsti/extras/crosstalk/core.py | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/pygsti/extras/crosstalk/core.py b/pygsti/extras/crosstalk/core.py
index 79d3a99..501985e 100644
--- a/pygsti/extras/crosstalk/core.py
+++ b/pygsti/extras/crosstalk/core.py
@@ -678,27 +678,6 @@ def do_basic_crosstalk_detection(ds, number_of_regions, settings, confidence=0.9
                 else:
                     max_tvd_explanations[idx] = "Max TVD = 0. Experiment not rich enough to calculate TVD."
 
-            if any(level_cnts < 10):
-                print(" ***   Warning: n<10 data points for some levels. TVD calculations may have large error bars.")
-
-            tvds = _np.zeros((num_levels, num_levels))
-            for i in range(num_levels):
-                for j in range(i):
-
-                    marg1 = data[data[:, source] == source_levels[i], dest]
-                    marg2 = data[data[:, source] == source_levels[j], dest]
-                    n1, n2 = len(marg1), len(marg2)
-
-                    tvd_sum = 0.0
-                    for lidx, level in enumerate(marg1_levels):
-                        temp = _np.where(marg2_levels == level)
-                        if len(temp[0]) == 0:
-                            tvd_sum += marg1_level_cnts[lidx] / n1
-                        else:
-                            tvd_sum += _np.fabs(marg1_level_cnts[lidx] / n1 - marg2_level_cnts[temp[0][0]] / n2)
-
-                    tvds[i, j] = tvds[j, i] = tvd_sum / 2.0
-
     results.cmatrix = cmatrix
     results.is_edge_ct = is_edge_ct
     results.crosstalk_detected = _np.sum(is_edge_ct) > 0
-- 
2.43.0


From 90ccb05a206001eb7969733ce8297053deaf7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 095/127] fix: LGST adds its temporary state preparation to a
 copy of the caller's model

---
 pygsti/algorithms/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/algorithms/core.py b/pygsti/algorithms/core.py
index 6808252..6be5d93 100644
--- a/pygsti/algorithms/core.py
+++ b/pygsti/algorithms/core.py
@@ -420,6 +420,7 @@ def _constructXMatrix(prepStrs, effectStrs, model, opLabelTuple, dataset, opLabe
 
 
 def _constructA(effectStrs, mdl):
+    mdl = mdl.copy()  # a temporary state preparation is added below
     _, n, povmLbls, povmLens = _lgst_matrix_dims(
         mdl, [], effectStrs)
 
-- 
2.43.0


From 66743141d9b191e0b48a677e44c1836a04dba356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 096/127] fix: germ and fiducial generation do not write their
 defaults into the caller's algorithm_kwargs

---
 pygsti/algorithms/fiducialselection.py | 2 ++
 pygsti/algorithms/germselection.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pygsti/algorithms/fiducialselection.py b/pygsti/algorithms/fiducialselection.py
index 9cb486b..512ff13 100644
--- a/pygsti/algorithms/fiducialselection.py
+++ b/pygsti/algorithms/fiducialselection.py
@@ -99,6 +99,8 @@ def generate_fiducials(target_model, omitIdentity=True, eqThresh=1e-6,
     if algorithm_kwargs is None:
         # Avoid danger of using empty dict for default value.
         algorithm_kwargs = {}
+    else:
+        algorithm_kwargs = algorithm_kwargs.copy()  # defaults are filled in below
 
     if algorithm == 'slack':
         printer.log('Using slack algorithm.', 1)
diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index 344f30f..4fceefe 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -148,6 +148,8 @@ def generate_germs(target_model, randomize=True, randomizationStrength=1e-2,
     if algorithm_kwargs is None:
         # Avoid danger of using empty dict for default value.
         algorithm_kwargs = {}
+    else:
+        algorithm_kwargs = algorithm_kwargs.copy()  # defaults are filled in below
 
     if algorithm == 'greedy':
         printer.log('Using greedy algorithm.', 1)
-- 
2.43.0


From 030e25984f2c90cdc2fdc9a5ddf8290b12c03807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 097/127] fix: build_cloud_crosstalk_model does not rename the
 keys of the caller's error rates

---
 pygsti/construction/nqnoiseconstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/construction/nqnoiseconstruction.py b/pygsti/construction/nqnoiseconstruction.py
index 2e7e1ff..f8942a6 100644
--- a/pygsti/construction/nqnoiseconstruction.py
+++ b/pygsti/construction/nqnoiseconstruction.py
@@ -558,7 +558,8 @@ def build_cloud_crosstalk_model(nQubits, gate_names, error_rates, nonstd_gate_un
 
     nQubit_dim = 2**nQubits if evotype in ('statevec', 'stabilizer') else 4**nQubits
 
-    orig_error_rates = error_rates.copy()
+    orig_error_rates = error_rates
+    error_rates = error_rates.copy()  # keys are replaced below: leave the caller's dict alone
     cparser = _CircuitParser()
     cparser.lookup = None  # lookup - functionality removed as it wasn't used
     for k, v in orig_error_rates.items():
-- 
2.43.0


From 3e6dfb5bcd4ada151f21f18e2abde730a3b6ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 098/127] fix: create_error_rates_model does not fill in its
 default (or the caller's) gate translation

---
 pygsti/extras/devices/devcore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/extras/devices/devcore.py b/pygsti/extras/devices/devcore.py
index ece353e..f782c19 100644
--- a/pygsti/extras/devices/devcore.py
+++ b/pygsti/extras/devices/devcore.py
@@ -110,6 +110,7 @@ def create_error_rates_model(caldata, device, oneQgates, oneQgates_to_native={},
     calformat: 'ibmq-v2018', 'ibmq-v2019', 'rigetti', 'native'.
     """
 
+    oneQgates_to_native = oneQgates_to_native.copy()  # entries are filled in below
     specs = _get_dev_specs(device)
     twoQgate = specs.twoQgate
     if 'Gc0' in oneQgates:
-- 
2.43.0


From 31681e0285b63e1658b44b49c1250b72b4b43e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 099/127] fix: maximum likelihood of a probability trajectory
 does not alter the optimizer options it is given

---
 pygsti/extras/drift/probtrajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/extras/drift/probtrajectory.py b/pygsti/extras/drift/probtrajectory.py
index a489899..99889d0 100644
--- a/pygsti/extras/drift/probtrajectory.py
+++ b/pygsti/extras/drift/probtrajectory.py
@@ -472,7 +472,7 @@ def maxlikelihood(probtrajectory, clickstreams, times, minp=0.0001, maxp=0.99999
         print("      - Performing MLE over {} parameters...".format(numparams), end='')
     if verbosity > 1:
         print("")
-        options['disp'] = True
+        options = dict(options, disp=True)
 
     start = _tm.time()
     seed = probtrajectory.get_parameters_as_list()
-- 
2.43.0


From c3de884c724ebad4ea7bc257ef1e08703b29934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 100/127] fix: populating the in-class correction does not
 alter the given (or default) dictionary

---
 pygsti/extras/drift/stabilityanalyzer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/extras/drift/stabilityanalyzer.py b/pygsti/extras/drift/stabilityanalyzer.py
index 7e377c4..2ed1313 100644
--- a/pygsti/extras/drift/stabilityanalyzer.py
+++ b/pygsti/extras/drift/stabilityanalyzer.py
@@ -172,6 +172,7 @@ def populate_inclass_correction(inclass_correction={}):
     The auto inclass_correction is to default to a Bonferroni correction at all levels above the lowest
     level where a correction has been specified.
     """
+    inclass_correction = inclass_correction.copy()
     autocorrection = 'Bonferroni'
     for key in ('dataset', 'circuit', 'outcome', 'spectrum'):
         if key not in inclass_correction:
-- 
2.43.0


From b495bf5224be509df9d72963f4683a9c6154f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 101/127] fix: simplifying instruments does not add operations
 to the model's own dictionaries

---
 pygsti/objects/layerlizard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/layerlizard.py b/pygsti/objects/layerlizard.py
index 81b6d29..48f1ba4 100644
--- a/pygsti/objects/layerlizard.py
+++ b/pygsti/objects/layerlizard.py
@@ -246,6 +246,8 @@ class ImplicitLayerLizard(LayerLizard):
         for inst_dict_lbl, instdict in instrument_blks.items():
             if inst_dict_lbl not in simplified_op_blks:  # only create when needed
                 simplified_op_blks[inst_dict_lbl] = _collections.OrderedDict()
+            else:  # (don't add to the model's own dictionary)
+                simplified_op_blks[inst_dict_lbl] = _collections.OrderedDict(simplified_op_blks[inst_dict_lbl])
             for inst_lbl, inst in instdict.items():
                 for k, g in inst.simplify_operations(inst_lbl).items():
                     simplified_op_blks[inst_dict_lbl][k] = g
-- 
2.43.0


From b462b1526a9f850df3fcc082931dfafd78640c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 102/127] fix: rendering a quantity with error bars does not
 alter the caller's render settings

---
 pygsti/objects/reportableqty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/reportableqty.py b/pygsti/objects/reportableqty.py
index 63064bb..06a0bf8 100644
--- a/pygsti/objects/reportableqty.py
+++ b/pygsti/objects/reportableqty.py
@@ -310,7 +310,7 @@ class ReportableQty(object):
         if specs is None:
             specs = dict()
         if self.errbar is not None:
-            specs['formatstring'] = '%s'  # Don't recursively apply format strings to inside error bars
+            specs = dict(specs, formatstring='%s')  # Don't recursively apply format strings to inside error bars
             if self.nonMarkovianEBs:
                 rendered = nmebstring % (f(self.value, specs),
                                          f(self.errbar, specs))
-- 
2.43.0


From 54f85216c75526d495bfab1911cd70ed91660628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 103/127] fix: SmartCache.cached_compute does not remove
 entries from the caller's keyword dictionary

---
 pygsti/objects/smartcache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/smartcache.py b/pygsti/objects/smartcache.py
index 27603c7..4e9b65b 100644
--- a/pygsti/objects/smartcache.py
+++ b/pygsti/objects/smartcache.py
@@ -213,7 +213,7 @@ class SmartCache(object):
             for k, v in kwargs.items():
                 if k.startswith('_'):
                     special_kwargs[k] = v
-            for k in special_kwargs: del kwargs[k]
+            kwargs = {k: v for k, v in kwargs.items() if k not in special_kwargs}
 
         name_key = get_fn_name_key(fn)
         self.requests[name_key] += 1
-- 
2.43.0


From d7bfe88309bf59e3e48f923a104eba835bc07345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 104/127] fix: custom_leastsq does not alter its starting point

---
 pygsti/optimize/customlm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/optimize/customlm.py b/pygsti/optimize/customlm.py
index 0e7a5e8..112e4ad 100644
--- a/pygsti/optimize/customlm.py
+++ b/pygsti/optimize/customlm.py
@@ -146,7 +146,7 @@ def custom_leastsq(obj_fn, jac_fn, x0, f_norm2_tol=1e-6, jac_norm_tol=1e-6,
 
     msg = ""
     converged = False
-    x = x0
+    x = x0.copy()  # x may be altered in place below
     f = obj_fn(x)
     norm_f = _np.dot(f, f)  # _np.linalg.norm(f)**2
     half_max_nu = 2**62  # what should this be??
-- 
2.43.0


From f5e42892434e203695f523fbac30fa1646a096ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 105/127] fix: GST drivers do not write their defaults into the
 caller's advancedOptions

---
 pygsti/drivers/longsequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/drivers/longsequence.py b/pygsti/drivers/longsequence.py
index e241c73..970be66 100644
--- a/pygsti/drivers/longsequence.py
+++ b/pygsti/drivers/longsequence.py
@@ -374,7 +374,7 @@ def do_long_sequence_gst(dataFilenameOrSet, targetModelFilenameOrObj,
     Results
     """
     printer = _objs.VerbosityPrinter.build_printer(verbosity, comm)
-    advancedOptions = advancedOptions or {}
+    advancedOptions = dict(advancedOptions or {})  # a copy, since defaults are filled in below
     ds = _load_dataset(dataFilenameOrSet, comm, printer)
 
     exp_design = _proto.StandardGSTDesign(targetModelFilenameOrObj,
@@ -820,7 +820,7 @@ def legacy_do_model_test(modelFilenameOrObj,
 
     #Set a different default for onBadFit: don't do anything
     if 'onBadFit' not in advancedOptions:
-        advancedOptions['onBadFit'] = []  # empty list => 'do nothing'
+        advancedOptions = dict(advancedOptions, onBadFit=[])  # empty list => 'do nothing'
 
     return _package_into_results('do_model_test', ds, target_model, the_model,
                                  lsgstLists, parameters, None, mdl_lsgst_list,
@@ -905,7 +905,7 @@ def legacy_do_linear_gst(dataFilenameOrSet, targetModelFilenameOrObj,
     maxLengths = [1]  # we only need maxLength == 1 when doing LGST
 
     defAdvOptions = {'onBadFit': [], 'estimateLabel': 'LGST'}
-    if advancedOptions is None: advancedOptions = {}
+    advancedOptions = dict(advancedOptions or {})
     advancedOptions.update(defAdvOptions)
     advancedOptions['objective'] = 'lgst'  # not override-able
 
-- 
2.43.0


From a9fc2e4cca68bbe318279bcecc730ea725e132b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 106/127] fix: options of one mode of standard practice GST do
 not carry over to the later modes and runs

---
 pygsti/drivers/longsequence.py | 2 +-
 pygsti/protocols/gst.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/drivers/longsequence.py b/pygsti/drivers/longsequence.py
index 970be66..21cc8f3 100644
--- a/pygsti/drivers/longsequence.py
+++ b/pygsti/drivers/longsequence.py
@@ -1551,7 +1551,7 @@ def legacy_do_stdpractice_gst(dataFilenameOrSet, targetModelFilenameOrObj,
 
             #prepare advanced options dictionary
             if advancedOptions is not None:
-                advanced = advancedOptions.get('all', {})
+                advanced = dict(advancedOptions.get('all', {}))
                 advanced.update(advancedOptions.get(mode, {}))
             else: advanced = {}
 
diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 3409549..f558ab4 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -491,7 +491,7 @@ class StandardGST(_proto.Protocol):
                 printer.show_progress(i, len(modes), prefix='-- Std Practice: ', suffix=' (%s) --' % mode)
 
                 #prepare advanced options dictionary
-                advanced = advancedOptions.get('all', {})
+                advanced = dict(advancedOptions.get('all', {}))
                 advanced.update(advancedOptions.get(mode, {}))
 
                 if mode == "Target":
-- 
2.43.0


From 2281839d4b8fabce4d1631a0fe0549badd020ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 107/127] fix: randomizing the starting point of GST does not
 alter the target or initial model

---
 pygsti/drivers/longsequence.py | 1 +
 pygsti/protocols/gst.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pygsti/drivers/longsequence.py b/pygsti/drivers/longsequence.py
index 21cc8f3..431aa27 100644
--- a/pygsti/drivers/longsequence.py
+++ b/pygsti/drivers/longsequence.py
@@ -1293,6 +1293,7 @@ def legacy_do_long_sequence_gst_base(dataFilenameOrSet, targetModelFilenameOrObj
         if advancedOptions.get('depolarizeStart', 0) > 0:
             mdl_start = mdl_start.depolarize(op_noise=advancedOptions.get('depolarizeStart', 0))
         if advancedOptions.get('randomizeStart', 0) > 0:
+            mdl_start = mdl_start.copy()  # leave the given model as it is
             v = mdl_start.to_vector()
             vrand = 2 * (_np.random.random(len(v)) - 0.5) * advancedOptions.get('randomizeStart', 0)
             mdl_start.from_vector(v + vrand)
diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index f558ab4..6cb586a 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -247,6 +247,7 @@ class GateSetTomography(_proto.Protocol):
             if advancedOptions.get('depolarizeStart', 0) > 0:
                 mdl_start = mdl_start.depolarize(op_noise=advancedOptions.get('depolarizeStart', 0))
             if advancedOptions.get('randomizeStart', 0) > 0:
+                mdl_start = mdl_start.copy()  # leave the given model as it is
                 v = mdl_start.to_vector()
                 vrand = 2 * (_np.random.random(len(v)) - 0.5) * advancedOptions.get('randomizeStart', 0)
                 mdl_start.from_vector(v + vrand)
-- 
2.43.0


From 3de71c5ec4393758005bf3e8faa85d1dbc8823bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 108/127] fix: running LGST does not alter the options of the
 protocol

---
 pygsti/protocols/gst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 6cb586a..81184a7 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -439,7 +439,7 @@ class LinearGateSetTomography(_proto.Protocol):
         parameters['profiler'] = profiler
         args = dict()
         if not advancedOptions.get('estimateLabel', None):
-            advancedOptions['estimateLabel'] = "LGST"
+            advancedOptions = dict(advancedOptions, estimateLabel="LGST")
 
         return _package_into_results(self, data, edesign.target_model, mdl_lgst,
                                      [circuit_struct], parameters, args, [mdl_lgst],
-- 
2.43.0


From 10484fa43125d7b4122f38cf3e49ee872a3fb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 109/127] fix: render_as_html returns what it rendered and
 leaves the quantities it is given

---
 pygsti/report/merge_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/report/merge_helpers.py b/pygsti/report/merge_helpers.py
index a0d0686..48bcea8 100644
--- a/pygsti/report/merge_helpers.py
+++ b/pygsti/report/merge_helpers.py
@@ -330,7 +330,7 @@ def render_as_html(qtys, render_options, link_to, verbosity):
     qtys_html = _collections.defaultdict(lambda: "OMITTED")
     for key, val in qtys.items():
         with _timed_block(key, formatStr='Rendering {:35}', printer=printer, verbosity=2):
-            qtys[key] = _render_as_html(val, render_options, link_to)
+            qtys_html[key] = _render_as_html(val, render_options, link_to)
 
     return qtys_html
 
-- 
2.43.0


From 665b72e828fd34409710abc2663cba4b9955f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 110/127] fix: rendering a table as a data frame does not
 rename the caller's headings

---
 pygsti/report/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/report/python.py b/pygsti/report/python.py
index 8d6894a..d8c5f54 100644
--- a/pygsti/report/python.py
+++ b/pygsti/report/python.py
@@ -47,7 +47,7 @@ def table(customHeadings, colHeadingsFormatted, rows, spec):
 
     if customHeadings is not None \
             and "python" in customHeadings:
-        colLabels = customHeadings['python']
+        colLabels = [x for x in customHeadings['python']]
     else:
         colLabels = [getval(x) for x in colHeadingsFormatted]
     nCols = len(colLabels)
-- 
2.43.0


From b42d4e861c917bcc72cc400cf0f34dec05e9f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 111/127] fix: two_delta_loglfn does not replace NaNs in the
 caller's frequencies

---
 pygsti/tools/likelihoodfns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index 48d11ee..663270a 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -1579,7 +1579,9 @@ def two_delta_loglfn(N, p, f, minProbClip=1e-6, poissonPicture=True):
     cp = _np.clip(p, minProbClip, 1e10)  # effectively no upper bound
 
     nan_indices = _np.isnan(f)  # get indices of invalid entries
-    if not _np.isscalar(f): f[nan_indices] = 0.0
+    if not _np.isscalar(f):
+        f = _np.array(f)  # a copy
+        f[nan_indices] = 0.0
     #set nan's to zero to avoid RuntimeWarnings (invalid value)
 
     zf = _np.where(f < 1e-10, 0.0, f)  # set zero-freqs to zero
-- 
2.43.0


From a2427a38fde306b0ae419c491a78d3a8c2a9c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 112/127] fix: focused MC2GST leaves its starting model as it
 was

---
 pygsti/algorithms/directx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/algorithms/directx.py b/pygsti/algorithms/directx.py
index 1a3b849..a7fe538 100644
--- a/pygsti/algorithms/directx.py
+++ b/pygsti/algorithms/directx.py
@@ -586,7 +586,7 @@ def focused_mc2gst_model(circuitToEstimate, circuitLabel, dataset,
     circuits = [prepStr + circuitToEstimate + effectStr for prepStr in prepStrs for effectStr in effectStrs]
 
     _, focused_lsgst = _core.do_mc2gst(
-        dataset, startModel, circuits,
+        dataset, startModel.copy(), circuits,
         minProbClipForWeighting=minProbClipForWeighting,
         probClipInterval=probClipInterval,
         opLabelAliases=opLabelAliases,
-- 
2.43.0


From cee1d6ad645276f7f15ab8608084b49ddefc2177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 113/127] fix: term-stage fits do not write into the caller's
 extra_lm_opts

---
 pygsti/algorithms/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/algorithms/core.py b/pygsti/algorithms/core.py
index 6be5d93..0fcf200 100644
--- a/pygsti/algorithms/core.py
+++ b/pygsti/algorithms/core.py
@@ -1335,7 +1335,7 @@ def _do_term_runopt(evTree, mdl, objective, objective_name, maxiter, maxfev, tol
     maxTermStages = fwdsim.max_term_stages
     pathFractionThreshold = fwdsim.path_fraction_threshold  # 0 when not using path-sets
     oob_check_interval = fwdsim.oob_check_interval
-    if extra_lm_opts is None: extra_lm_opts = {}
+    extra_lm_opts = dict(extra_lm_opts or {})  # a copy, as it is altered below
 
     #assume a path set has already been chosen, as one should have been chosen
     # when evTree was created.
-- 
2.43.0


From f1ec347fdb308f1bf14c0f466dc1991d30d31d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 114/127] fix: LGST adds its temporary POVM to a copy of the
 caller's model

---
 pygsti/algorithms/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/algorithms/core.py b/pygsti/algorithms/core.py
index 0fcf200..0dad8ed 100644
--- a/pygsti/algorithms/core.py
+++ b/pygsti/algorithms/core.py
@@ -457,6 +457,7 @@ def _constructB(prepStrs, mdl):
         basis_E = _np.zeros((dim, 1), 'd')
         basis_E[i] = 1.0
         basis_Es.append(basis_E)
+    mdl = mdl.copy()  # leave the given model as it is
     mdl.povms['M_LGST_tmp_povm'] = _objs.UnconstrainedPOVM(
         [("E%d" % i, E) for i, E in enumerate(basis_Es)])
 
@@ -466,7 +467,6 @@ def _constructB(prepStrs, mdl):
         probs = mdl.probs(rhostr + _objs.Circuit(('M_LGST_tmp_povm',), line_labels=rhostr.line_labels))
         B[:, k] = [probs[("E%d" % i,)] for i in range(dim)]  # CHECK will this work?
 
-    del mdl.povms['M_LGST_tmp_povm']
     return B
 
 
-- 
2.43.0


From 00dbdfcfd49a532b046a0c8c20a7cf26fde3b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 115/127] fix: with MPI, GST does not overwrite the given
 initial model on ranks other than the first

---
 pygsti/drivers/longsequence.py | 1 +
 pygsti/protocols/gst.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pygsti/drivers/longsequence.py b/pygsti/drivers/longsequence.py
index 431aa27..5636c38 100644
--- a/pygsti/drivers/longsequence.py
+++ b/pygsti/drivers/longsequence.py
@@ -1305,6 +1305,7 @@ def legacy_do_long_sequence_gst_base(dataFilenameOrSet, targetModelFilenameOrObj
     else:
         #OLD: mdl_start = comm.bcast(None, root=0)
         v = comm.bcast(None, root=0)
+        mdl_start = mdl_start.copy()  # leave the given model as it is
         mdl_start.from_vector(v)
 
     tNxt = _time.time()
diff --git a/pygsti/protocols/gst.py b/pygsti/protocols/gst.py
index 81184a7..a7969db 100644
--- a/pygsti/protocols/gst.py
+++ b/pygsti/protocols/gst.py
@@ -259,6 +259,7 @@ class GateSetTomography(_proto.Protocol):
         else:
             #OLD: mdl_start = comm.bcast(None, root=0)
             v = comm.bcast(None, root=0)
+            mdl_start = mdl_start.copy()  # leave the given model as it is
             mdl_start.from_vector(v)
 
         tNxt = _time.time()
-- 
2.43.0


From 87c3cf0e5c40121c92572a27e98244b5fb8b3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 116/127] fix: running a model test does not alter the options
 of the protocol

---
 pygsti/protocols/modeltest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/protocols/modeltest.py b/pygsti/protocols/modeltest.py
index 9ab15ec..64b8cba 100644
--- a/pygsti/protocols/modeltest.py
+++ b/pygsti/protocols/modeltest.py
@@ -105,7 +105,7 @@ class ModelTest(_proto.Protocol):
 
         #Set a different default for onBadFit: don't do anything
         if 'onBadFit' not in advancedOptions:
-            advancedOptions['onBadFit'] = []  # empty list => 'do nothing'
+            advancedOptions = dict(advancedOptions, onBadFit=[])  # empty list => 'do nothing'
 
         from .gst import _package_into_results
         return _package_into_results(self, data, target_model, the_model,
-- 
2.43.0


From a894494d0f57697bedded3d10e09afc998d6ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 117/127] fix: least-squares steps are solved without the
 sym_pos argument, gone from scipy

---
 pygsti/optimize/customlm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pygsti/optimize/customlm.py b/pygsti/optimize/customlm.py
index 112e4ad..792a6b7 100644
--- a/pygsti/optimize/customlm.py
+++ b/pygsti/optimize/customlm.py
@@ -303,8 +303,7 @@ def custom_leastsq(obj_fn, jac_fn, x0, f_norm2_tol=1e-6, jac_norm_tol=1e-6,
                     tm = _time.time()
                     success = True
                     #dx = _np.linalg.solve(JTJ, -JTf)
-                    #NEW scipy: dx = _scipy.linalg.solve(JTJ, -JTf, assume_a='pos') #or 'sym'
-                    dx = _scipy.linalg.solve(JTJ, -JTf, sym_pos=True)
+                    dx = _scipy.linalg.solve(JTJ, -JTf, assume_a='pos')
                     if profiler: profiler.add_time("custom_leastsq: linsolve", tm)
                 #except _np.linalg.LinAlgError:
                 except _scipy.linalg.LinAlgError:
@@ -317,7 +316,7 @@ def custom_leastsq(obj_fn, jac_fn, x0, f_norm2_tol=1e-6, jac_norm_tol=1e-6,
                         df2 = (obj_fn(x + df2_dx) + obj_fn(x - df2_dx) - 2 * f) / \
                             df2_eps**2  # 2nd deriv of f along dx direction
                         JTdf2 = _np.dot(Jac.T, df2)
-                        dx2 = _scipy.linalg.solve(JTJ, -0.5 * JTdf2, sym_pos=True)
+                        dx2 = _scipy.linalg.solve(JTJ, -0.5 * JTdf2, assume_a='pos')
                         dx1 = dx.copy()
                         dx += dx2  # add acceleration term to dx
                     except _scipy.linalg.LinAlgError:
-- 
2.43.0


From cc584b47c705e1e74743e15c29c2f48017d76ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 118/127] fix: idle tomography tells all processes what it
 drops when include_* is 'auto'

---
 pygsti/extras/idletomography/idtcore.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsti/extras/idletomography/idtcore.py b/pygsti/extras/idletomography/idtcore.py
index ba42be2..f87de26 100644
--- a/pygsti/extras/idletomography/idtcore.py
+++ b/pygsti/extras/idletomography/idtcore.py
@@ -1249,6 +1249,9 @@ def do_idle_tomography(nQubits, dataset, maxLengths, pauliBasisDicts, maxweight=
 
             printer.log("Completed Stochastic/Affine in %.2fs" % (_time.time() - tStart), 1)
 
+        if comm is not None:  # rank 0 may have dropped something that was set to "auto"
+            include_stochastic, include_affine = comm.bcast((include_stochastic, include_affine), root=0)
+
     elif include_affine:  # either True or "auto"
         raise ValueError("Cannot extract affine error rates without also extracting stochastic ones!")
 
-- 
2.43.0


From b689effde64a14e3ca76979c2842bc83ac65142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 119/127] fix: time-dependent derivative blocks are computed on
 the block's own communicator

---
 pygsti/objects/mapforwardsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/mapforwardsim.py b/pygsti/objects/mapforwardsim.py
index 120b406..19fa6aa 100644
--- a/pygsti/objects/mapforwardsim.py
+++ b/pygsti/objects/mapforwardsim.py
@@ -1399,7 +1399,7 @@ class MapForwardSimulator(ForwardSimulator):
                 for iBlk in myBlkIndices:
                     paramSlice = blocks[iBlk]  # specifies which deriv cols calc_and_fill computes
                     deriv_fill_fn(derivMxToFill, felInds, paramSlice, num_outcomes, evalSubTree,
-                                  dataset_rows, paramSlice, mySubComm)
+                                  dataset_rows, paramSlice, blkComm)
                     #profiler.mem_check("bulk_fill_dprobs: post fill blk")
 
                 #gather results
-- 
2.43.0


From 8e7bd6c81c108aaa53755859dd6e5f52d8c9a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 120/127] fix: both derivative matrices are filled when the
 term simulator computes a hessian in blocks

---
 pygsti/objects/termforwardsim.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/termforwardsim.py b/pygsti/objects/termforwardsim.py
index a02d444..b919ea4 100644
--- a/pygsti/objects/termforwardsim.py
+++ b/pygsti/objects/termforwardsim.py
@@ -1452,15 +1452,13 @@ class TermForwardSimulator(ForwardSimulator):
                 #gather row results; gather axis 1 of mxToFill[felInds], dim=(ks,M,M)
                 _mpit.gather_slices(blocks1, blk1Owners, mxToFill, [felInds],
                                     1, mySubComm, gatherMemLimit)
-                if deriv1MxToFill is not None:
-                    _mpit.gather_slices(blocks1, blk1Owners, deriv1MxToFill, [felInds],
+                if derivMxToFill is not None:
+                    _mpit.gather_slices(blocks1, blk1Owners, derivMxToFill, [felInds],
                                         1, mySubComm, gatherMemLimit)
-                if deriv2MxToFill is not None:
-                    _mpit.gather_slices(blocks2, blk2Owners, deriv2MxToFill, [felInds],
-                                        1, blk1Comm, gatherMemLimit)
-                    #Note: deriv2MxToFill gets computed on every inner loop completion
-                    # (to save mem) but isn't gathered until now (but using blk1Comm).
-                    # (just as prMxToFill is computed fully on each inner loop *iteration*!)
+
+                #both derivative matrices cover the entire range of params here
+                if deriv1MxToFill is not None: deriv1MxToFill[felInds, :] = derivMxToFill[felInds, :]
+                if deriv2MxToFill is not None: deriv2MxToFill[felInds, :] = derivMxToFill[felInds, :]
 
         #collect/gather results
         subtreeElementIndices = [t.final_element_indices(evalTree) for t in subtrees]
-- 
2.43.0


From 0fdb5b449cd32c607998835d344b2ac2f64024a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 121/127] fix: the seed for germ selection is not replaced by
 that for choosing candidates

---
 pygsti/algorithms/germselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/algorithms/germselection.py b/pygsti/algorithms/germselection.py
index 4fceefe..0a5dafb 100644
--- a/pygsti/algorithms/germselection.py
+++ b/pygsti/algorithms/germselection.py
@@ -141,9 +141,9 @@ def generate_germs(target_model, randomize=True, randomizationStrength=1e-2,
             availableGermsList.extend(_constr.list_all_circuits_without_powers_and_cycles(
                 gates, maxLength=germLength))
         else:
-            seed = None if candidateSeed is None else candidateSeed + germLength
+            lengthSeed = None if candidateSeed is None else candidateSeed + germLength
             availableGermsList.extend(_constr.list_random_circuits_onelen(
-                gates, germLength, count, seed=seed))
+                gates, germLength, count, seed=lengthSeed))
 
     if algorithm_kwargs is None:
         # Avoid danger of using empty dict for default value.
-- 
2.43.0


From 16664f3a1bacaedddba7d2fe7d172be5fb44477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 122/127] fix: iterations of a seeded GRASP fiducial selection
 differ from one another

---
 pygsti/algorithms/fiducialselection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsti/algorithms/fiducialselection.py b/pygsti/algorithms/fiducialselection.py
index 512ff13..b96cbd5 100644
--- a/pygsti/algorithms/fiducialselection.py
+++ b/pygsti/algorithms/fiducialselection.py
@@ -930,6 +930,9 @@ def grasp_fiducial_optimization(model, fidsList, prepOrMeas, alpha,
     initialSolns = []
     localSolns = []
 
+    # a single generator, so that a given seed does not make all iterations the same
+    rndm = _np.random.RandomState(seed) if seed is not None else None
+
     for iteration in range(iterations):
         # This loop is parallelizable (each iteration is independent of all
         # other iterations).
@@ -944,7 +947,7 @@ def grasp_fiducial_optimization(model, fidsList, prepOrMeas, alpha,
                     localScoreFn=scoreFn,
                     getNeighborsFn=getNeighborsFn,
                     feasibleThreshold=feasibleThreshold,
-                    initialElements=initialWeights, seed=seed,
+                    initialElements=initialWeights, seed=rndm,
                     verbosity=verbosity)
 
                 initialSolns.append(iterSolns[0])
-- 
2.43.0


From abfdc72e44e141fa3e391c31b981e176dd982c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 123/127] fix: the base circuits of a circuit structure are
 listed in the order of its plaquettes

---
 pygsti/objects/circuitstructure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index 680e8b4..c3aa9c8 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -8,6 +8,7 @@
 # http://www.apache.org/licenses/LICENSE-2.0 or in the LICENSE file in the root pyGSTi directory.
 #***************************************************************************************************
 
+import collections as _collections
 import numpy as _np
 import copy as _copy
 import uuid as _uuid
@@ -279,13 +280,13 @@ class CircuitStructure(object):
 
     def get_basestrings(self):
         """Lists the base strings (without duplicates) of all the plaquettes"""
-        baseStrs = set()
+        baseStrs = _collections.OrderedDict()  # used as an ordered set
         for x in self.xvals():
             for y in self.yvals():
                 p = self.get_plaquette(x, y)
                 if p is not None and p.base is not None:
-                    baseStrs.add(p.base)
-        return list(baseStrs)
+                    baseStrs[p.base] = True
+        return list(baseStrs.keys())
 
     def simplify_plaquettes(self, model, dataset=None):
         """
-- 
2.43.0


From 87fc85302d5196f6132834a91ad37b39fe5a050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 124/127] fix: bases that compare equal hash equally, and
 embedded bases can be hashed

---
 pygsti/objects/basis.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 5889191..0ab470a 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -356,6 +356,10 @@ class Basis(object):
             else:
                 return _np.array_equal(self.elements, other)
 
+    def __hash__(self):
+        # Bases of different types can be equal, so this can only depend on what all equal bases share.
+        return hash((self.size, self.elshape, self.sparse))
+
     def transform_matrix(self, to_basis):
         '''
         Get the matrix that transforms a vector from this basis to `to_basis`.
@@ -717,9 +721,6 @@ class ExplicitBasis(Basis):
 
         super(ExplicitBasis, self).__init__(name, longname, dim, size, elshape, real, sparse)
 
-    def __hash__(self):
-        return hash((self.name, self.dim, self.elshape, self.sparse))  # better?
-
 
 class BuiltinBasis(LazyBasis):
     """
@@ -762,7 +763,7 @@ class BuiltinBasis(LazyBasis):
         assert(not self.sparse or self.elndim == 2), "`sparse == True` is only allowed for *matrix*-valued bases!"
 
     def __hash__(self):
-        return hash((self.name, self.dim, self.sparse))
+        return LazyBasis.__hash__(self)
 
     def _lazy_build_elements(self):
         f = _basisConstructorDict[self.name].constructor
@@ -846,7 +847,7 @@ class DirectSumBasis(LazyBasis):
         super(DirectSumBasis, self).__init__(name, longname, dim, size, elshape, real, sparse)
 
     def __hash__(self):
-        return hash(tuple((hash(comp) for comp in self.component_bases)))
+        return LazyBasis.__hash__(self)
 
     def _lazy_build_vector_elements(self):
         if self.sparse:
@@ -1094,7 +1095,7 @@ class TensorProdBasis(LazyBasis):
         super(TensorProdBasis, self).__init__(name, longname, dim, size, elshape, real, sparse)
 
     def __hash__(self):
-        return hash(tuple((hash(comp) for comp in self.component_bases)))
+        return LazyBasis.__hash__(self)
 
     def _lazy_build_elements(self):
         #LAZY building of elements (in case we never need them)
@@ -1266,7 +1267,7 @@ class EmbeddedBasis(LazyBasis):
         super(EmbeddedBasis, self).__init__(name, longname, dim, size, elshape, real, sparse)
 
     def __hash__(self):
-        return hash(tuple(hash(self.embedded_basis), self.target_labels, self.state_space_labels.labels))
+        return LazyBasis.__hash__(self)
 
     def _lazy_build_elements(self):
         """ Take a dense or sparse basis matrix and embed it. """
-- 
2.43.0


From 7b19509000e0ab71e89275423c8dba4fde441c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 125/127] fix: a sparse basis is not equal to one holding only
 its first elements

---
 pygsti/objects/basis.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 0ab470a..4c8bfa2 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -346,10 +346,9 @@ class Basis(object):
                 _warnings.warn("Attempted comparison between bases with large sparse matrices!  Assuming not equal.")
                 return False  # to expensive to compare sparse matrices
 
-            if otherIsBasis:
-                return all([_sparse_equal(A, B) for A, B in zip(self.elements, other.elements)])
-            else:
-                return all([_sparse_equal(A, B) for A, B in zip(self.elements, other)])
+            other_elements = other.elements if otherIsBasis else other
+            return len(self.elements) == len(other_elements) \
+                and all([_sparse_equal(A, B) for A, B in zip(self.elements, other_elements)])
         else:
             if otherIsBasis:
                 return _np.array_equal(self.elements, other.elements)
-- 
2.43.0


From adcebf2ed022b67f6cc10eb5441a11c162497e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 126/127] fix: the default signs of a Pauli state can be
 printed, hashed and made a circuit

---
 pygsti/extras/idletomography/pauliobjs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/extras/idletomography/pauliobjs.py b/pygsti/extras/idletomography/pauliobjs.py
index ca59dde..ef0c128 100644
--- a/pygsti/extras/idletomography/pauliobjs.py
+++ b/pygsti/extras/idletomography/pauliobjs.py
@@ -105,16 +105,16 @@ class NQPauliState(object):
             specifying the Pauli basis for each qubit.
 
         signs : tuple, optional
-            A tuple of 0s and/or 1s.  A zero means the "+" eigenvector is
+            A tuple of 1s and/or -1s.  A 1 means the "+" eigenvector is
             either prepared or corresponds to the "0" outcome (if this
-            NQPauliState is used to describe a measurment basis).  A one
+            NQPauliState is used to describe a measurment basis).  A -1
             means the opposite: the "-" eigenvector is prepared and it
-            corresponds to a "0" outcome.  The default is all zeros.
+            corresponds to a "0" outcome.  The default is all 1s.
         """
         assert("I" not in string_rep), "'I' cannot be in a NQPauliState"
         self.rep = string_rep
         if signs is None:
-            signs = (0,) * len(self.rep)
+            signs = (1,) * len(self.rep)
         self.signs = signs
 
     def __len__(self):
-- 
2.43.0


From dbc530e4ed2fd16f4b935e5a0c9aa0d72a88223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 127/127] fix: filtering a circuit onto new state space labels
 relabels its lines and keeps arguments and times

---
 pygsti/construction/circuitconstruction.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 2b1aa2d..467b06c 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -859,9 +859,7 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
                or set(sublbl.sslbls).issubset(sslbls_to_keep):  # then keep this comp
 
                 if sslbl_map:  # update state space labels
-                    new_sslbls = None if (sublbl.sslbls is None) else \
-                        tuple((sslbl_map[x] for x in sublbl.sslbls))
-                    sublbls.append(_Lbl(sublbl.name, new_sslbls))
+                    sublbls.append(sublbl.map_state_space_labels(sslbl_map))  # keeps args & time
                 else:  # leave labels as-is
                     sublbls.append(sublbl)
 
@@ -885,4 +883,4 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
             # is just an idle: add idle placeholder.
             if idle is not None: lbls.append(_Lbl(idle))
 
-    return _cir.Circuit(lbls, line_labels=sslbls_to_keep)
+    return _cir.Circuit(lbls, line_labels=sslbls_to_keep if new_sslbls is None else new_sslbls)
-- 
2.43.0

