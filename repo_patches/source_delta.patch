From 22ec8c80aa913cd223ddbfcf5fd1650aa114ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 01/64] fix: index_select() on an empty source returned too few
 elements

With an empty source every valid index is -1, which must select the default
value; an empty tensor was returned instead, so e.g. add_epsilon_self_loops()
failed for an FSA without arcs that has a tensor attribute.
---
 k2/python/csrc/torch/index_select.cu | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index 069148f..c6ed9c3 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -76,9 +76,11 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+  if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  // If src is an empty tensor, the only valid index is -1, which selects the
+  // default value.
+  if (src.numel() == 0)
+    return torch::full({index.numel()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = FromTorch<T>(src);
     Array1<T> ans_array =
@@ -123,9 +125,12 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // If index_array.Dim() equals to zero, the `IndexRows` below would produce
   // an ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.sizes()[0] == 0)
+  if (index_array.Dim() == 0)
     return torch::empty({0, src.sizes()[1]}, src.options());
+  // If src is an empty tensor, the only valid index is -1, which selects a
+  // zero row.
+  if (src.sizes()[0] == 0)
+    return torch::zeros({index.numel(), src.sizes()[1]}, src.options());
   bool allow_minus_one = true;
   Array2<T> ans_array = IndexRows(src_array, index_array, allow_minus_one);
 
-- 
2.43.0


From e29b3c4ff540420457f31bdc9c7e24ae1b130a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 02/64] fix: union() of an FSA without arcs left an arc
 uninitialized

---
 k2/csrc/fsa_algo.cu | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b644e23..cc0da01 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1308,7 +1308,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
 
   ContextPtr &context = fsas.Context();
   const int32_t *fsas_row_splits1_data = fsas.RowSplits(1).Data();
-  const int32_t *fsas_row_splits2_data = fsas.RowSplits(2).Data();
   const int32_t *fsas_row_ids1_data = fsas.RowIds(1).Data();
   const int32_t *fsas_row_ids2_data = fsas.RowIds(2).Data();
   const Arc *arcs_data = fsas.values.Data();
@@ -1349,8 +1348,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         int32_t this_fsa_final_state_idx1 =
             this_fsa_final_state_idx01 - fsas_state_idx0x;
 
-        int32_t fsas_arc_idx0xx = fsas_row_splits2_data[fsas_state_idx0x];
-
         // fsa0: +1 (a new start state)
         // fsa1: +0 (the final state of fsa0 is removed)
         // fsa2: -1 (the final state of fsa1 is removed)
@@ -1372,17 +1369,16 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         arc.src_state = out_state_idx0;
         out_arcs_data[out_arc_idx01] = arc;
         tmp_arc_map_data[out_arc_idx01] = fsas_arc_idx012;
+      });
 
-        if (fsas_arc_idx0xx == fsas_arc_idx012) {
-          // add a new arc from the new start state to the start state
-          // of this fsa
-          //
-          // WARNING: we cannot use fsas_state_idx01 here
-          // since the start state may have no leaving arcs!
-          Arc arc(0, fsas_state_idx0x + state_offset, 0, 0);
-          out_arcs_data[fsas_idx0] = arc;
-          out_row_ids_data[fsas_idx0] = 0;
-        }
+  // Add an arc from the new start state to the original start state of every
+  // fsa. We cannot do it in the kernel above since an fsa may have no arcs.
+  K2_EVAL(
+      context, num_fsas, lambda_set_start_arcs, (int32_t fsas_idx0) {
+        int32_t state_offset = 1 - fsas_idx0;
+        Arc arc(0, fsas_row_splits1_data[fsas_idx0] + state_offset, 0, 0);
+        out_arcs_data[fsas_idx0] = arc;
+        out_row_ids_data[fsas_idx0] = 0;
       });
 
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
-- 
2.43.0


From 562200e81bcb13b1dfdf911a4f51f9ee323af167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 03/64] fix: closure() of an FSA without arcs read and wrote
 out of bounds

---
 k2/csrc/fsa_algo.cu | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index cc0da01..e1f345f 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1403,7 +1403,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
   }
 
   const int32_t *fsa_row_splits_data = fsa.RowSplits(1).Data();
-  const int32_t *fsa_row_ids_data = fsa.RowIds(1).Data();
   const Arc *fsa_arcs_data = fsa.values.Data();
   int32_t fsa_final_state = num_states - 1;
 
@@ -1423,12 +1422,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
 
   K2_EVAL(
       c, fsa.values.Dim(), lambda_set_arcs, (int32_t fsa_arc_idx01) {
-        int32_t fsa_state_idx0 = fsa_row_ids_data[fsa_arc_idx01];
-        int32_t fsa_arc_idx0x = fsa_row_splits_data[fsa_state_idx0];
-        int32_t fsa_arc_idx1 = fsa_arc_idx01 - fsa_arc_idx0x;
-        int32_t this_state_num_arcs =
-            fsa_row_splits_data[fsa_state_idx0 + 1] - fsa_arc_idx0x;
-
         Arc arc = fsa_arcs_data[fsa_arc_idx01];
         if (arc.dest_state == fsa_final_state) {
           // modify arcs entering the final state such that:
@@ -1446,22 +1439,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
           out_arc_idx01 = fsa_arc_idx01 + 1;
         } else {
           out_arc_idx01 = fsa_arc_idx01;
-          if (fsa_arc_idx1 == this_state_num_arcs - 1) {
-            // This is the last arc of the original start state,
-            // so we add a new arc just after it.
-            Arc new_arc(0, fsa_final_state, -1, 0.0f);
-            out_arcs_data[out_arc_idx01 + 1] = new_arc;
-            out_row_ids_data[out_arc_idx01 + 1] = 0;
-            tmp_arc_map_data[out_arc_idx01 + 1] = -1;
-          }
-        }
-
-        // it may happen that the start state has no leaving arcs
-        if (fsa_row_splits_data[1] == 0) {
-          Arc new_arc(0, fsa_final_state, -1, 0.0f);
-          out_arcs_data[0] = new_arc;
-          out_row_ids_data[0] = 0;
-          tmp_arc_map_data[0] = -1;
         }
 
         tmp_arc_map_data[out_arc_idx01] = fsa_arc_idx01;
@@ -1470,6 +1447,17 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
         out_row_ids_data[out_arc_idx01] = arc.src_state;
       });
 
+  // Add a new arc just after the last arc of the original start state. We
+  // cannot do it in the kernel above since the fsa may have no arcs.
+  K2_EVAL(
+      c, 1, lambda_set_new_arc, (int32_t) {
+        int32_t out_arc_idx01 = fsa_row_splits_data[1];
+        Arc new_arc(0, fsa_final_state, -1, 0.0f);
+        out_arcs_data[out_arc_idx01] = new_arc;
+        out_row_ids_data[out_arc_idx01] = 0;
+        tmp_arc_map_data[out_arc_idx01] = -1;
+      });
+
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
 
   Array1<int32_t> out_row_splits(c, num_out_states + 1);
-- 
2.43.0


From e3a62e953082dd41a3abc36366b64486ec7f1684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 04/64] fix: closure() assigned a stray final output label

The positions of the former final arcs were computed from the arcs leaving
the start state only, which is wrong when the start state has no arcs to the
final state or the FSA is empty.
---
 k2/python/k2/fsa_algo.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 35d9ca0..76ea34f 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -837,7 +837,6 @@ def closure(fsa: Fsa) -> Fsa:
     '''
 
     def fix_aux_labels(src_aux_labels: torch.Tensor,
-                       src_row_splits1: torch.Tensor,
                        arc_map: torch.Tensor) -> torch.Tensor:
         '''Fix the aux labels of the output FSA.
 
@@ -848,22 +847,15 @@ def closure(fsa: Fsa) -> Fsa:
         Args:
           src_aux_labels:
             The aux labels of the input FSA.
-          src_row_splits:
-            The row splits1 of the input FSA.
           arc_map:
             The arc map produced by :func:`_k2.closure`.
         Returns:
           The aux_labels of the output fsa after converting -1 to 0.
         '''
-        minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
-        src_start_state_last_arc_index = src_row_splits1[1]
-
-        minus_one_index[minus_one_index > src_start_state_last_arc_index] += 1
-
-        # now minus one index contains arc indexes into the output FSA
         ans_aux_labels = index_select(src_aux_labels, arc_map)
-        ans_aux_labels[minus_one_index] = 0
-        ans_aux_labels[src_start_state_last_arc_index] = -1
+        ans_aux_labels[ans_aux_labels == -1] = 0
+        # arcs added by closure are the ones entering the final state
+        ans_aux_labels[arc_map == -1] = -1
         return ans_aux_labels
 
     need_arc_map = True
@@ -872,7 +864,7 @@ def closure(fsa: Fsa) -> Fsa:
     out_fsa = Fsa(ragged_arc)
     for name, value in fsa.named_tensor_attr():
         if name == 'aux_labels':
-            new_value = fix_aux_labels(value, fsa.arcs.row_splits(1), arc_map)
+            new_value = fix_aux_labels(value, arc_map)
         else:
             new_value = index_select(value, arc_map)
         setattr(out_fsa, name, new_value)
-- 
2.43.0


From f422c47481974009e9e78909821a2ce38a4b045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 05/64] fix: FromTorch() rejected one-element tensors with a
 stride

A one-element slice of a column (e.g. the scores of an FSA with a single arc)
is contiguous whatever its stride is.
---
 k2/csrc/torch_util.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 1e48f91..f2e2524 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -120,8 +120,9 @@ Array1<T> FromTorch(torch::Tensor tensor) {
       << "Expected scalar type: " << ToScalarType<T>::value
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
-  // clone() method, it is valid here, so we won't check its strieds.
-  if (tensor.numel())
+  // clone() method, it is valid here, so we won't check its strieds. The same
+  // holds for tensors with only one element, e.g., a one-row slice of a column.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.strides()[0], 1)
         << "Expected stride: 1. Given: " << tensor.strides()[0];
 
-- 
2.43.0


From 6e5ab953d9ef2557db446f2bd2187ac1884c925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 06/64] fix: connect() returned FSAs with useless cycles
 unchanged

The properties ACCESSIBLE and COACCESSIBLE are only approximate when the FSA
has cycles, so they do not imply that there is nothing to remove.
---
 k2/python/k2/fsa_algo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 76ea34f..ae785c5 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -519,7 +519,11 @@ def connect(fsa: Fsa) -> Fsa:
     Returns:
       An FSA that is connected.
     '''
-    if fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
+    # ACCESSIBLE and COACCESSIBLE only tell that there are no obvious signs of
+    # the contrary (e.g., a cycle may be unreachable); they are conclusive when
+    # every arc goes to a higher numbered state.
+    if fsa.properties & fsa_properties.TOPSORTED_AND_ACYCLIC != 0 and \
+            fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
             fsa.properties & fsa_properties.COACCESSIBLE != 0:
         return fsa
 
-- 
2.43.0


From c35231d9fd098eb5bca24b05f6e7fd4f2489a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 07/64] fix: determinize() of a vector of FSAs used the wrong
 arc derivs

It indexed the output pointer instead of the per-FSA results, which reads out
of bounds (usually a crash) for more than one FSA.
---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index e1f345f..14a584e 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -329,7 +329,7 @@ void Determinize(FsaOrVec &src,
                  arc_derivs != nullptr ? &(derivs_vector[i]) : nullptr);
       if (arc_derivs != nullptr) {
         // convert arc indexes in arc_derivs from idx2 to idx012
-        Array1<int32_t> &values = arc_derivs[i].values;
+        Array1<int32_t> &values = derivs_vector[i].values;
         values = Plus(values, tot_num_arcs);
         tot_num_arcs += srcs[i].NumElements();
       }
-- 
2.43.0


From 463869a8c7c3e054e1ca17286aee1f0dad2b6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 08/64] fix: remove_epsilon() produced arcs with nan scores for
 unreachable states

The host algorithm subtracts forward weights, which are -inf for states that
are not reachable, so the result had nan scores (e.g. in its total score).
---
 k2/csrc/host/rmepsilon_pruned.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/csrc/host/rmepsilon_pruned.cc b/k2/csrc/host/rmepsilon_pruned.cc
index e7db5e2..229e96b 100644
--- a/k2/csrc/host/rmepsilon_pruned.cc
+++ b/k2/csrc/host/rmepsilon_pruned.cc
@@ -208,6 +208,9 @@ void EpsilonsRemoverPruned<TracebackState>::GetSizes(
   for (int32_t i = 0; i != num_states_in; ++i) {
     if (non_eps_in[i] != 1) continue;
     arc_indexes_.push_back(arc_num_out);
+    // A state that is not reachable would get arcs whose weights are nan
+    // below.
+    if (forward_state_weights[i] == kDoubleNegativeInfinity) continue;
     int32_t curr_state_out = state_map[i];
 
     // as the input FSA is top-sorted, we use a set here so we can process
-- 
2.43.0


From bd5ee185763615c8e496660cf21dad8ca7cc7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 09/64] fix: keep -1 in aux_labels on final arcs only in
 reverse() and replace_fsa()

---
 k2/python/k2/fsa_algo.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index ae785c5..5269112 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -680,6 +680,20 @@ def remove_epsilon_self_loops(fsa: Fsa) -> Fsa:
     return out_fsa
 
 
+def _fix_final_aux_labels(fsa: Fsa) -> None:
+    '''Ensure that `aux_labels` (if they exist as an int32 tensor) are -1 on
+    final-arcs and only there.
+
+    It is intended for operations that turn final-arcs of their input into
+    other arcs, or vice versa. It modifies `fsa.aux_labels` in-place.
+    '''
+    aux_labels = getattr(fsa, 'aux_labels', None)
+    if isinstance(aux_labels, torch.Tensor) and aux_labels.dtype == torch.int32:
+        final_arcs = fsa.labels == -1
+        aux_labels[~final_arcs & (aux_labels == -1)] = 0
+        aux_labels[final_arcs & (aux_labels == 0)] = -1
+
+
 def reverse(fsa: Fsa) -> Fsa:
     '''Reverse the input Fsa.  If the input Fsa accepts string 'x' with weight
     'x.weight', then the reversed Fsa accepts the reverse of string 'x' with
@@ -697,6 +711,7 @@ def reverse(fsa: Fsa) -> Fsa:
     ragged_arc, arc_map = _k2.reverse(fsa.arcs, need_arc_map)
 
     out_fsa = k2.utils.fsa_from_unary_function_tensor(fsa, ragged_arc, arc_map)
+    _fix_final_aux_labels(out_fsa)
     return out_fsa
 
 
@@ -1147,6 +1162,7 @@ def replace_fsa(
 
     dest = k2.utils.fsa_from_binary_function_tensor(src, index, dest_arc,
                                                     arc_map_src, arc_map_index)
+    _fix_final_aux_labels(dest)
     if ret_arc_map:
         return dest, arc_map_index, arc_map_src
     else:
-- 
2.43.0


From 0e19c92d888d38c2c6f15aae70eacdd3e5416aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 10/64] fix: closure() of FSAs with ragged attributes or custom
 fillers

---
 k2/python/k2/fsa_algo.py | 37 ++++---------------------------------
 1 file changed, 4 insertions(+), 33 deletions(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 5269112..a81b74c 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -855,42 +855,13 @@ def closure(fsa: Fsa) -> Fsa:
       The resulting FSA which is the Kleene closure of the input FSA.
     '''
 
-    def fix_aux_labels(src_aux_labels: torch.Tensor,
-                       arc_map: torch.Tensor) -> torch.Tensor:
-        '''Fix the aux labels of the output FSA.
-
-        Since :func:`_k2.closure` changes the labels of arcs entering
-        the final state to 0, we need to change their corresponding
-        aux labels to 0.
-
-        Args:
-          src_aux_labels:
-            The aux labels of the input FSA.
-          arc_map:
-            The arc map produced by :func:`_k2.closure`.
-        Returns:
-          The aux_labels of the output fsa after converting -1 to 0.
-        '''
-        ans_aux_labels = index_select(src_aux_labels, arc_map)
-        ans_aux_labels[ans_aux_labels == -1] = 0
-        # arcs added by closure are the ones entering the final state
-        ans_aux_labels[arc_map == -1] = -1
-        return ans_aux_labels
-
     need_arc_map = True
     ragged_arc, arc_map = _k2.closure(fsa.arcs, need_arc_map=need_arc_map)
 
-    out_fsa = Fsa(ragged_arc)
-    for name, value in fsa.named_tensor_attr():
-        if name == 'aux_labels':
-            new_value = fix_aux_labels(value, arc_map)
-        else:
-            new_value = index_select(value, arc_map)
-        setattr(out_fsa, name, new_value)
-
-    for name, value in fsa.named_non_tensor_attr():
-        setattr(out_fsa, name, value)
-
+    out_fsa = k2.utils.fsa_from_unary_function_tensor(fsa, ragged_arc, arc_map)
+    # _k2.closure changes the labels of arcs entering the final state to 0 and
+    # adds an arc entering the final state.
+    _fix_final_aux_labels(out_fsa)
     return out_fsa
 
 
-- 
2.43.0


From 634cd4818a8cdaff6b98464218f572678e3fddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 11/64] fix: Arange() of an empty range beyond the number of
 values

---
 k2/csrc/ragged_ops.cu | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 490c423..9be1218 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1862,8 +1862,11 @@ RaggedShape Arange(RaggedShape &src, int32_t axis, int32_t begin, int32_t end,
   if (begin == end) {
     RaggedShape ans = EmptyRaggedShape(src.Context(), num_axes - axis);
     // as begin == end, user always get empty values when doing
-    // `src.values.Arange(begin, end)`
-    if (value_range != nullptr) *value_range = std::make_pair(begin, end);
+    // `src.values.Arange(begin, end)`; note there may be fewer than `begin`
+    // values.
+    int32_t value_begin = std::min(begin, src.NumElements());
+    if (value_range != nullptr)
+      *value_range = std::make_pair(value_begin, value_begin);
     return ans;
   }
 
-- 
2.43.0


From 3b63ee3a5d5d413c8cfe912b4e9b454e88ef49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 12/64] fix: accept None for new sequences in
 OnlineDenseIntersecter.decode(), as documented

---
 k2/python/k2/online_dense_intersecter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/k2/python/k2/online_dense_intersecter.py b/k2/python/k2/online_dense_intersecter.py
index efb7510..40449c1 100644
--- a/k2/python/k2/online_dense_intersecter.py
+++ b/k2/python/k2/online_dense_intersecter.py
@@ -132,6 +132,11 @@ class OnlineDenseIntersecter(object):
           lattices. See the example in the constructor to get more info about
           how to use the list of new decoding states.
         """
+        # None means a new sequence, i.e. one that has no history.
+        decode_states = [
+            DecodeStateInfo() if state is None else state
+            for state in decode_states
+        ]
         ragged_arc, arc_map, new_decode_states = self.intersecter.decode(
             dense_fsas.dense_fsa_vec, decode_states
         )
-- 
2.43.0


From 7501b6f6fd87045e8a5e884cbf8856cecb20e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:53 +0000
Subject: [PATCH 13/64] fix: a stream without active states stays dead in
 OnlineDenseIntersecter, instead of resuming from an earlier frame

---
 k2/csrc/intersect_dense_pruned.cu | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 9ace992..961f049 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1800,12 +1800,30 @@ void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
   auto stack_states = Stack(0, num_seqs, seq_states_ptr_vec.data());
   auto stack_arcs = Stack(0, num_seqs, seq_arcs_ptr_vec.data());
 
-  // Remove empty lists on frame axis, these empty lists come from the
-  // Unstack of the previous chunk
-  stack_states = Ragged<StateInfo>(RemoveEmptyLists(stack_states.shape, 1),
-                                   stack_states.values);
-  stack_arcs = Ragged<ArcInfo>(RemoveEmptyLists(stack_arcs.shape, 1),
-                               stack_arcs.values);
+  // Remove the empty lists at the beginning of the frame axis of each sequence,
+  // these empty lists come from the Unstack of the previous chunk.  Empty lists
+  // after the first non-empty one must be kept, they are the frames on which no
+  // state survived.
+  Renumbering renumber_frames(c_, stack_states.TotSize(1));
+  {
+    char *keep_data = renumber_frames.Keep().Data();
+    const int32_t *row_splits1_data = stack_states.RowSplits(1).Data(),
+                  *row_ids1_data = stack_states.RowIds(1).Data(),
+                  *row_splits2_data = stack_states.RowSplits(2).Data();
+    K2_EVAL(
+        c_, stack_states.TotSize(1), lambda_set_keep_frame,
+        (int32_t idx01)->void {
+          int32_t idx0x = row_splits1_data[row_ids1_data[idx01]];
+          keep_data[idx01] =
+              (row_splits2_data[idx01 + 1] > row_splits2_data[idx0x]);
+        });
+  }
+  stack_states = Ragged<StateInfo>(
+      RemoveSomeEmptyLists(stack_states.shape, 1, renumber_frames),
+      stack_states.values);
+  stack_arcs = Ragged<ArcInfo>(
+      RemoveSomeEmptyLists(stack_arcs.shape, 1, renumber_frames),
+      stack_arcs.values);
 
   std::vector<Ragged<StateInfo>> frame_states_vec;
   std::vector<Ragged<ArcInfo>> frame_arcs_vec;
-- 
2.43.0


From 84ce62df0fd6ea314931cbb0c0f8bd4a88bfb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 14/64] fix: keep the start-state of a sequence that starts
 after others in OnlineDenseIntersecter

---
 k2/csrc/intersect_dense_pruned.cu | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 961f049..3c0bcc3 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1351,6 +1351,33 @@ class MultiGraphDenseIntersectPruned {
         });
   }
 
+  /*
+    Sets `cur_frame_states_keep` to 1 for the start-states of the sequences that
+    start on this frame, i.e. that have states on this frame and no states on
+    the previous frame.  Only needed in online decoding, where sequences may
+    start on different frames.
+        @param [in] prev_frame   The FrameInfo for the previous frame
+        @param [in] cur_frame    The FrameInfo for the current frame
+        @param [out] cur_frame_states_keep   Array indexed by the states idx01
+                    of the current frame
+  */
+  void KeepStartStates(FrameInfo *prev_frame,
+                       FrameInfo *cur_frame,
+                       Array1<char> *cur_frame_states_keep) {
+    NVTX_RANGE(K2_FUNC);
+    char *keep_data = cur_frame_states_keep->Data();
+    const int32_t *prev_row_splits1_data = prev_frame->arcs.RowSplits(1).Data(),
+                  *cur_row_ids1_data = cur_frame->arcs.RowIds(1).Data();
+    K2_EVAL(
+        c_, cur_frame_states_keep->Dim(), lambda_keep_start_states,
+        (int32_t state_idx01)->void {
+          int32_t seq_idx = cur_row_ids1_data[state_idx01];
+          if (prev_row_splits1_data[seq_idx + 1] ==
+              prev_row_splits1_data[seq_idx])
+            keep_data[state_idx01] = 1;
+        });
+  }
+
   /*
     This function does backward propagation and pruning of arcs and states for a
     specific time range.
@@ -1442,6 +1469,10 @@ class MultiGraphDenseIntersectPruned {
         if (i == 0)  // t == begin_t
           this_states_keep = (char)1;  // set all elements of the array
         // `states_keep` to 1.
+        else if (online_decoding_)
+          // sequences that started later than others have their start-state on
+          // a frame after begin_t.
+          KeepStartStates(frames_[t - 1].get(), cur_frame, &this_states_keep);
       }
     }
 
-- 
2.43.0


From af0999111ac8edb8372ced6dafdbe131c7b43b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 15/64] fix: rnnt_loss_smoothed() returned nan when
 lm_only_scale + am_only_scale == 1

---
 k2/python/k2/rnnt_loss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index 9a80c5f..ed205d5 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -1684,6 +1684,8 @@ def get_rnnt_logprobs_smoothed(
         lm_only_scale = 1.0e-20
     if am_only_scale == 0.0:
         am_only_scale = 1.0e-20
+    if combined_scale == 0.0:
+        combined_scale = 1.0e-20
 
     px_interp = (
         px * combined_scale
-- 
2.43.0


From 91c76a36bf066dd52d936628bd0ab48ceb0a4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 16/64] fix: get_rnnt_prune_ranges() refused batches without
 symbols

---
 k2/python/k2/rnnt_loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index ed205d5..7cf1cad 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -717,8 +717,9 @@ def get_rnnt_prune_ranges(
         s_range = S + 1
 
     if is_regular:
+        # note, s_range is 1 if there are no symbols at all (S == 0).
         assert (
-            s_range >= 2
+            s_range >= 2 or S == 0
         ), f"""Pruning range for standard RNN-T should be equal to or greater
         than 2, or no valid paths could survive pruning. Given {s_range}"""
     else:
-- 
2.43.0


From 341fbafe49ab410fd31273b5af60692ebd3ed92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 17/64] fix: RnntDecodingStreams.format_output fills each
 attribute with its own filler

The filler of the last attribute looked at was used for all of them.
---
 k2/python/k2/rnnt_decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index 949d1db..5941c09 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -242,7 +242,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         assert isinstance(value, Tensor)
                         new_value = index_select(
-                            value, arc_map, default_value=filler
+                            value, arc_map, default_value=info["filler"]
                         )
                     else:
                         assert isinstance(value, RaggedTensor)
@@ -256,7 +256,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         # fill with filler value
                         new_value = torch.tensor(
-                            [filler] * num_arcs,
+                            [info["filler"]] * num_arcs,
                             dtype=info["dtype"],
                             device=device,
                         )
-- 
2.43.0


From 971866e22f3e5f308f8c026e510a140aa4cb41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 18/64] fix: RaggedTensor.__getitem__() read out of bounds

---
 k2/python/csrc/torch/v2/any.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 5367478..15552c5 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -94,6 +94,8 @@ void PybindRaggedAny(py::module &m) {
   any.def(
       "__getitem__",
       [](RaggedAny &self, int32_t i) -> py::object {
+        if (i < 0 || i >= self.any.Dim0())
+          throw py::index_error("index out of range");
         if (self.any.NumAxes() > 2) {
           RaggedAny ragged = self.Index(/*axis*/ 0, i);
           return py::cast(ragged);
-- 
2.43.0


From 35cc7f5ecff5b58f2ea2d7b11cbea97eec8f15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 19/64] fix: slices of a RaggedTensor whose stop is less than
 its start are empty

---
 k2/python/csrc/torch/v2/any.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 15552c5..b51786b 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -125,7 +125,8 @@ void PybindRaggedAny(py::module &m) {
         if (!slice.compute(self.any.Dim0(), &start, &stop, &step, &slicelength))
           throw py::error_already_set();
         int32_t istart = static_cast<int32_t>(start);
-        int32_t istop = static_cast<int32_t>(stop);
+        // As for Python lists, the slice is empty if stop is less than start
+        int32_t istop = std::max(istart, static_cast<int32_t>(stop));
         int32_t istep = static_cast<int32_t>(step);
         K2_CHECK_EQ(istep, 1)
             << "Only support slicing with step 1, given : " << istep;
-- 
2.43.0


From 0f5cef028bfd5d3862a1e08a555edfd8f14d8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 20/64] fix: indexing a RaggedTensor with a tensor of one
 element returned a tensor

---
 k2/python/csrc/torch/v2/any.cu | 42 +++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index b51786b..63e8270 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -91,6 +91,29 @@ void PybindRaggedAny(py::module &m) {
       [](const RaggedAny &self) -> std::string { return self.ToString(); },
       kRaggedAnyStrDoc);
 
+  // It has to precede the overload taking an integer, which also accepts
+  // tensors with one element.
+  any.def(
+      "__getitem__",
+      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
+        // A 0-d tensor is an integer, handled by the next overload
+        if (key.dim() == 0) throw py::reference_cast_error();
+        // key is a 1-d torch tensor with dtype torch.int32
+        DeviceGuard guard(self.any.Context());
+        Array1<int32_t> indexes = FromTorch<int32_t>(key);
+        Dtype t = self.any.GetDtype();
+        FOR_REAL_AND_INT32_TYPES(t, T, {
+          Ragged<T> ans =
+              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
+                           /*value_indexes*/ nullptr);
+
+          return RaggedAny(ans.Generic());
+        });
+        // Unreachable code
+        return {};
+      },
+      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
+
   any.def(
       "__getitem__",
       [](RaggedAny &self, int32_t i) -> py::object {
@@ -135,25 +158,6 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("key"), kRaggedAnyGetItemSliceDoc);
 
-  any.def(
-      "__getitem__",
-      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
-        // key is a 1-d torch tensor with dtype torch.int32
-        DeviceGuard guard(self.any.Context());
-        Array1<int32_t> indexes = FromTorch<int32_t>(key);
-        Dtype t = self.any.GetDtype();
-        FOR_REAL_AND_INT32_TYPES(t, T, {
-          Ragged<T> ans =
-              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
-                           /*value_indexes*/ nullptr);
-
-          return RaggedAny(ans.Generic());
-        });
-        // Unreachable code
-        return {};
-      },
-      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
-
   any.def("index",
           static_cast<RaggedAny (RaggedAny::*)(RaggedAny &)>(&RaggedAny::Index),
           py::arg("indexes"), kRaggedAnyRaggedIndexDoc);
-- 
2.43.0


From 20b19a57ad72a772e571a962bf50351185fa738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 21/64] fix: RaggedTensor.to(dtype) was taken for a device

---
 k2/python/csrc/torch/v2/any.cu | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 63e8270..31a793a 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -184,6 +184,12 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("src"), py::arg("indexes"), kRaggedAnyIndexAndSumDoc);
 
+  // It has to precede the overload below, which accepts any object
+  any.def("to",
+          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
+              &RaggedAny::To),
+          py::arg("dtype"), kRaggedAnyToDtypeDoc);
+
   any.def(
       "to",
       [](RaggedAny &self, py::object device) -> RaggedAny {
@@ -197,11 +203,6 @@ void PybindRaggedAny(py::module &m) {
               &RaggedAny::To),
           py::arg("device"), kRaggedAnyToDeviceStrDoc);
 
-  any.def("to",
-          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
-              &RaggedAny::To),
-          py::arg("dtype"), kRaggedAnyToDtypeDoc);
-
   any.def(
       "clone",
       [](const RaggedAny &self) -> RaggedAny {
-- 
2.43.0


From 3839b290ef44684fa7243ae3111dbdca7c311c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 22/64] fix: RaggedTensor refused nested lists starting with an
 empty sublist

---
 k2/python/csrc/torch/v2/ragged_any.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index df685e4..ba6d13e 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -112,7 +112,7 @@ static void RaggedAnyFromListIter(py::list data, int32_t *cur_level,
                             row_splits, elems);
     }
   } else {
-    if (*deepest_level == -1) {
+    if (data.size() > 0 && *deepest_level == -1) {
       *deepest_level = *cur_level;
     } else if (data.size() > 0 && *deepest_level != *cur_level) {
       // Handle the case for [ [2], [[1]] ]
-- 
2.43.0


From 6379a7928d422d099b27d5954ab1062fb06414fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 23/64] fix: backward of RaggedTensor.normalize() refused
 strided gradients

---
 k2/python/csrc/torch/v2/autograd/normalize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/autograd/normalize.h b/k2/python/csrc/torch/v2/autograd/normalize.h
index db890a1..d4508b1 100644
--- a/k2/python/csrc/torch/v2/autograd/normalize.h
+++ b/k2/python/csrc/torch/v2/autograd/normalize.h
@@ -105,7 +105,7 @@ class NormalizeFunction : public torch::autograd::Function<NormalizeFunction> {
       int64_t stride = out_grad.strides()[0];
 
       if (stride != 0) {
-        Array1<T> out_grad_array = FromTorch<T>(out_grad);
+        Array1<T> out_grad_array = FromTorch<T>(out_grad.contiguous());
         Ragged<T> out_grad_ragged(shape, out_grad_array);
         SumPerSublist<T>(out_grad_ragged, 0, &out_grad_sum);
       } else {
-- 
2.43.0


From 5196ee5efae23c6c3c7e94da81cdbffa4a80ac95 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 24/64] fix: from_str() refused ragged labels followed by a
 space, as to_str() writes them

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 9eb6231..e8ed071 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -132,7 +132,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       line_is >> c >> std::ws;  // eat the '['
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t ragged_label;
-        line_is >> ragged_label;
+        line_is >> ragged_label >> std::ws;
         ragged_labels[i].push_back(ragged_label);
       }
       line_is >> c;  // eat the ']'
-- 
2.43.0


From fe2b53d3331c416f03442ee048968061f5ec7d3b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 25/64] fix: from_str() refused lines without the optional
 score

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index e8ed071..d8cab1f 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -139,7 +139,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       ragged_row_splits[i].push_back(ragged_labels[i].size());
     }
     float score = 0.0;
-    line_is >> std::ws;
+    if (!line_is.eof()) line_is >> std::ws;
     if (!line_is.eof()) {  // Score is optional, defaults to 0.0.
       line_is >> score;
       if (!line_is.eof()) line_is >> std::ws;
-- 
2.43.0


From 86d3f7461ca2f00cacdeb120872cf95f9fa15f7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 26/64] fix: from_openfst() refused acceptor lines without the
 optional cost

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index d8cab1f..33e7082 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -266,7 +266,7 @@ class OpenFstStreamReader {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
     line_is >> src_state >> dest_state >> label;
-    if (!line_is.good()) {
+    if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
       if (!ProcessFinalProbOrEmpty(line)) {
-- 
2.43.0


From 20b982ef3334342c7e30bbfd56e130c82e965d56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 27/64] fix: from_openfst() took an ordinary state for the
 final one if there was no final state

---
 k2/csrc/fsa_utils.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 33e7082..db48ef3 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -448,6 +448,8 @@ class OpenFstStreamReader {
 
   void ProcessFinalStates() {
     int32_t super_final_state = std::max<int32_t>(max_state_ + 1, 1);
+    // It has to exist even if there is no original final state
+    SeenState(super_final_state);
     K2_CHECK_EQ(original_final_states_.size(),
                 original_final_weights_.size());
     std::vector<int32_t> aux_labels(num_aux_labels_, -1);
-- 
2.43.0


From 5ac8306024ea22b624a11ef2b10aa886886de8e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 28/64] fix: from_str() split a number with a fraction into two
 fields

---
 k2/csrc/fsa_utils.cu | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index db48ef3..5690ada 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -23,6 +23,7 @@
 #endif
 
 #include <algorithm>
+#include <cctype>
 #include <cmath>
 #include <limits>
 #include <sstream>
@@ -40,6 +41,18 @@ namespace k2 {
 
 
 
+/* Read an integer field.  It sets failbit if something other than a space (or a
+   list of ragged labels) follows, so that e.g. "2.5" is not taken for the
+   integer 2 followed by the field ".5".
+*/
+static void ReadInteger(std::istream &is, int32_t *i) {
+  is >> *i;
+  if (is.good()) {
+    int32_t c = is.peek();
+    if (!std::isspace(c) && c != '[') is.setstate(std::ios::failbit);
+  }
+}
+
 /* Create an Fsa from a stream, assuming the Fsa is in k2 format:
 
    src_state dest_state label [aux_label1 aux_label2 ... ] [ragged_labels1 ragged_label2 ] [score]    # noqa
@@ -108,7 +121,8 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       continue;
     }
     int32_t dest_state, label;
-    line_is >> dest_state >> label;
+    ReadInteger(line_is, &dest_state);
+    ReadInteger(line_is, &label);
     if (src_state < 0 || dest_state < 0) {
       K2_LOG(FATAL) << "Invalid line " << line
                     << ": src-state < 0 or dest-state < 0.";
@@ -265,7 +279,9 @@ class OpenFstStreamReader {
   void ProcessLine(std::string &line) {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
-    line_is >> src_state >> dest_state >> label;
+    ReadInteger(line_is, &src_state);
+    ReadInteger(line_is, &dest_state);
+    ReadInteger(line_is, &label);
     if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
@@ -276,7 +292,7 @@ class OpenFstStreamReader {
     }
     std::vector<int32_t> aux_labels(num_aux_labels_);
     for (int32_t i = 0; i < num_aux_labels_; i++)
-      line_is >> aux_labels[i];
+      ReadInteger(line_is, &aux_labels[i]);
     std::vector<std::vector<int32_t> > ragged_labels(num_ragged_labels_);
     for (int32_t i = 0; i < num_ragged_labels_; i++) {
       line_is >> std::ws;
@@ -314,7 +330,9 @@ class OpenFstStreamReader {
       return true;  // empty line.
     int32_t final_state;
     float final_cost;
-    line_is >> final_state >> std::ws;
+    ReadInteger(line_is, &final_state);
+    if (line_is.fail()) return false;
+    if (!line_is.eof()) line_is >> std::ws;
     if (line_is.eof()) {
       final_cost = 0.0;
     } else if (line_is.peek() == 'I') {
-- 
2.43.0


From 2ac4954a320f5043ad516226688a0a1efda6d9ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 29/64] fix: FSAs with arcs leaving the final state were
 reported as valid

---
 k2/csrc/fsa.cu | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index f55b908..128f23d 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -110,6 +110,9 @@ void GetFsaVecBasicProperties(FsaVec &fsa_vec, Array1<int32_t> *properties_out,
 
         int32_t neg_property = 0;
         if (arc.src_state != idx1) neg_property |= kFsaPropertiesValid;
+        // no arcs can leave the final state
+        if (idx1 == this_fsa_num_states - 1)
+          neg_property |= kFsaPropertiesValid;
         if (arc.dest_state <= arc.src_state) {
           neg_property |= kFsaPropertiesTopSortedAndAcyclic;
           if (arc.dest_state < arc.src_state)
-- 
2.43.0


From 3f37d1fc3c435ebeef11a2429ac384cf9365247f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 30/64] fix: to_str() failed for attributes that are no lists
 of integers, one or several per arc

---
 k2/python/k2/fsa.py   | 8 +++++---
 k2/python/k2/utils.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 965ed5c..86412c6 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -276,9 +276,11 @@ class Fsa(object):
         extra_labels = []
         ragged_labels = []
         for name, value in sorted(self.named_tensor_attr(include_scores=False)):
-            if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
-                extra_labels.append(value)
-            elif isinstance(value, k2.RaggedTensor):
+            if value.dtype != torch.int32:
+                continue
+            if isinstance(value, torch.Tensor) and value.ndim == 1:
+                extra_labels.append(value.contiguous())
+            elif isinstance(value, k2.RaggedTensor) and value.num_axes == 2:
                 ragged_labels.append(value)
 
         if self.arcs.num_axes() == 2:
diff --git a/k2/python/k2/utils.py b/k2/python/k2/utils.py
index 6def312..baeb85e 100644
--- a/k2/python/k2/utils.py
+++ b/k2/python/k2/utils.py
@@ -50,9 +50,11 @@ def to_str(fsa: Fsa, openfst: bool = False) -> str:
     extra_labels = []
     ragged_labels = []
     for name, value in sorted(fsa.named_tensor_attr(include_scores=False)):
-        if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
-            extra_labels.append(value)
-        elif isinstance(value, k2.RaggedTensor):
+        if value.dtype != torch.int32:
+            continue
+        if isinstance(value, torch.Tensor) and value.ndim == 1:
+            extra_labels.append(value.contiguous())
+        elif isinstance(value, k2.RaggedTensor) and value.num_axes == 2:
             ragged_labels.append(value)
 
     return _k2.fsa_to_str(fsa.arcs,
-- 
2.43.0


From 475233098cb93c9c051b4d9b0a096f051534f312 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 31/64] fix: comparing symbol tables with different symbols
 raised KeyError

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7a86010..91ba31e 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -264,7 +264,7 @@ class SymbolTable(Generic[Symbol]):
             return False
 
         for s in self.symbols:
-            if self[s] != other[s]:
+            if s not in other or self[s] != other[s]:
                 return False
 
         return True
-- 
2.43.0


From 1de90a56c0ca29074341bb39f618032da331fb67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 32/64] fix: SymbolTable.to_file() used the encoding of the
 locale while from_file() reads utf-8

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 91ba31e..8d41008 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -158,7 +158,7 @@ class SymbolTable(Generic[Symbol]):
           filename:
             Name of the symbol table file. Its format is documented above.
         '''
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             for idx, symbol in sorted(self._id2sym.items()):
                 print(symbol, idx, file=f)
 
-- 
2.43.0


From 37bd39174caa8787abbe33ea60818cc6e91d0ddd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 33/64] fix: refuse symbol tables that give the epsilon symbol
 an id other than 0

---
 k2/python/k2/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 8d41008..a880cae 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -64,6 +64,8 @@ class SymbolTable(Generic[Symbol]):
             assert self._id2sym[idx] == sym
 
         if 0 not in self._id2sym:
+            assert self.eps not in self._sym2id, \
+                f'{self.eps} has to be mapped to 0'
             self._id2sym[0] = self.eps
             self._sym2id[self.eps] = 0
         else:
-- 
2.43.0


From e81b33dd5f923406c27b5c6a554c1622b94b09ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 34/64] fix: keys whose stored bits are all ones could not be
 inserted into a Hash

An empty bucket has all bits set, so it was taken for one holding such a key.
---
 k2/csrc/hash.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/hash.h b/k2/csrc/hash.h
index 5be08b5..1140e60 100644
--- a/k2/csrc/hash.h
+++ b/k2/csrc/hash.h
@@ -331,7 +331,7 @@ class Hash {
       uint64_t new_elem = (value << NUM_KEY_BITS) | key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & KEY_MASK) == key) {
+        if (~cur_elem != 0 && (cur_elem & KEY_MASK) == key) {
           if (old_value) *old_value = (cur_elem >> NUM_KEY_BITS);
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -476,7 +476,7 @@ class Hash {
           bucket_inc = 1 | ((key >> buckets_num_bitsm1_) ^ key);
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & KEY_MASK) == key) {
+        if (~old_elem != 0 && (old_elem & KEY_MASK) == key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
@@ -552,7 +552,7 @@ class Hash {
       uint64_t new_elem =  (value << num_key_bits) | key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & key_mask) == key) {
+        if (~cur_elem != 0 && (cur_elem & key_mask) == key) {
           if (old_value) *old_value = cur_elem >> num_key_bits;
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -688,7 +688,7 @@ class Hash {
       const uint64_t key_mask = (uint64_t(1) << num_key_bits_) - 1;
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & key_mask) == key) {
+        if (~old_elem != 0 && (old_elem & key_mask) == key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
@@ -786,7 +786,7 @@ class Hash {
       uint64_t new_elem = (value << num_kept_key_bits_) | kept_key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & kept_key_mask) == kept_key) {
+        if (~cur_elem != 0 && (cur_elem & kept_key_mask) == kept_key) {
           if (old_value) *old_value = cur_elem >> num_kept_key_bits_;
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -926,7 +926,7 @@ class Hash {
       const uint64_t kept_key_mask = (uint64_t(1) << num_kept_key_bits_) - 1;
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & kept_key_mask) == kept_key) {
+        if (~old_elem != 0 && (old_elem & kept_key_mask) == kept_key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
-- 
2.43.0


From 48254ff8f517fd18f159b392a22c2dcb3c2c8ac6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 35/64] fix: Hash accepted 32 or more implicit key bits

Shifting a 32-bit number by that much is undefined, so the check that the
groups of buckets are big enough passed.
---
 k2/csrc/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/hash.h b/k2/csrc/hash.h
index 1140e60..12b811a 100644
--- a/k2/csrc/hash.h
+++ b/k2/csrc/hash.h
@@ -152,7 +152,7 @@ class Hash {
     // it's not good if that group size is too small; even with
     // a good hashing function, one of those groups may end up
     // becoming full by chance.
-    K2_CHECK_GE(num_buckets >> num_implicit_bits, 32) <<
+    K2_CHECK_GE(static_cast<int64_t>(num_buckets) >> num_implicit_bits, 32) <<
         "Hash being full is too likely; bad configuration.";
   }
 
-- 
2.43.0


From 4989e12b72ffd252b2f0840e416a0ca7fef7db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 36/64] fix: wake up all the threads waiting for the tasks of a
 ThreadPool

---
 k2/csrc/thread_pool.cu | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/thread_pool.cu b/k2/csrc/thread_pool.cu
index cb04ea1..14edfbd 100644
--- a/k2/csrc/thread_pool.cu
+++ b/k2/csrc/thread_pool.cu
@@ -66,7 +66,7 @@ void ThreadPool::ProcessTasks() {
     {
       auto task = std::move(tasks_.front());
       tasks_.pop();
-      if (!tasks_.empty()) not_empty_cond_.notify_one();
+      if (!tasks_.empty()) not_empty_cond_.notify_all();
       ++running_counter_;
       lock.unlock();  // let other threads proceed
       task();
@@ -77,8 +77,8 @@ void ThreadPool::ProcessTasks() {
     --running_counter_;
     if (tasks_.empty() && running_counter_ == 0) {
       finished_ = true;
-      // if WaitAllTasksFinished() is waiting, wake it up
-      empty_cond_.notify_one();
+      // wake up every thread that is waiting in WaitAllTasksFinished()
+      empty_cond_.notify_all();
     }
 
     // the lock is still held here as we assume
-- 
2.43.0


From f2ed089a050c1e559ae4c0644f24c60238a0690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 37/64] fix: data race on the device type of a Semaphore

---
 k2/csrc/context.cu | 14 ++++++--------
 k2/csrc/context.h  |  6 ++++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/k2/csrc/context.cu b/k2/csrc/context.cu
index 978b92d..793622c 100644
--- a/k2/csrc/context.cu
+++ b/k2/csrc/context.cu
@@ -139,10 +139,9 @@ void GetBlockSizesForLambda2(int32_t m, int32_t n, dim3 *block_dim,
 
 void Semaphore::Signal(ContextPtr c) {
   DeviceType device_type = c->GetDeviceType();
-  if (device_type_ == kUnk)
-    device_type_ = device_type;
-  else
-    K2_CHECK_EQ(device_type, device_type_)
+  DeviceType expected = kUnk;
+  if (!device_type_.compare_exchange_strong(expected, device_type))
+    K2_CHECK_EQ(device_type, expected)
         << "Semaphore must always be used with the same device type.";
   if (device_type == kCuda) {
     cudaEvent_t event;
@@ -161,10 +160,9 @@ void Semaphore::Signal(ContextPtr c) {
 
 void Semaphore::Wait(ContextPtr c) {
   DeviceType device_type = c->GetDeviceType();
-  if (device_type_ == kUnk)
-    device_type_ = device_type;
-  else
-    K2_CHECK_EQ(device_type, device_type_)
+  DeviceType expected = kUnk;
+  if (!device_type_.compare_exchange_strong(expected, device_type))
+    K2_CHECK_EQ(device_type, expected)
         << "Semaphore must always be used with the same device type.";
   semaphore_.acquire();
   if (device_type == kCuda) {
diff --git a/k2/csrc/context.h b/k2/csrc/context.h
index 75a3448..837bca8 100644
--- a/k2/csrc/context.h
+++ b/k2/csrc/context.h
@@ -22,6 +22,7 @@
 #define K2_CSRC_CONTEXT_H_
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <deque>
 #include <functional>
@@ -450,8 +451,9 @@ class Semaphore {
   void Wait(ContextPtr c);
 
  private:
-  DeviceType device_type_;  // makes sure it's always used with the same device
-                            // type.
+  // makes sure it's always used with the same device type.  It is atomic as
+  // Signal() and Wait() are called from different threads.
+  std::atomic<DeviceType> device_type_;
   k2std::counting_semaphore semaphore_;
   std::mutex events_mutex_;
   std::deque<cudaEvent_t> events_;
-- 
2.43.0


From 58bef93cd35f3c1ac1d489da59f98b28160779b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 38/64] fix: Nbest.from_lattice changed the scores tensor of
 the lattice it was given

---
 k2/python/k2/nbest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index d2e7814..6a7b516 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,14 +127,16 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        saved_scores = lattice.scores.clone()
-        lattice.scores *= nbest_scale
+        # We sample from a copy since `lattice` should not be changed.
+        scaled_lattice = lattice.detach()
+        scaled_lattice.scores = lattice.scores.detach() * nbest_scale
         # path is a ragged tensor with dtype torch.int32.
         # It has three axes [utt][path][arc_pos]
         path = k2.random_paths(
-            lattice, num_paths=num_paths, use_double_scores=use_double_scores
+            scaled_lattice,
+            num_paths=num_paths,
+            use_double_scores=use_double_scores,
         )
-        lattice.scores = saved_scores
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From 0153e349e30802bab7f2414dde8af38bf35d6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 39/64] fix: levenshtein_alignment renamed an attribute of its
 input

---
 k2/python/k2/fsa_algo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index a81b74c..c595d40 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1418,6 +1418,7 @@ def levenshtein_alignment(
     assert hasattr(refs, "aux_labels")
     assert hasattr(hyps, "aux_labels")
 
+    hyps = hyps.clone()  # the user's object should not be changed
     hyps.rename_tensor_attribute_("aux_labels", "hyp_labels")
 
     lattice = k2.intersect_device(refs,
-- 
2.43.0


From 46beb480e9c8cbdc273d28f12c5f09c7dfe37408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 40/64] fix: assigning scores or labels changed other objects
 and pending gradients

---
 k2/python/k2/autograd.py | 24 ++++++++++++------
 k2/python/k2/fsa.py      | 55 +++++++++++++++++++++++++++++++---------
 2 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/k2/python/k2/autograd.py b/k2/python/k2/autograd.py
index 5d62b47..65c612a 100644
--- a/k2/python/k2/autograd.py
+++ b/k2/python/k2/autograd.py
@@ -63,7 +63,9 @@ class _GetTotScoresFunction(torch.autograd.Function):
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
-        ctx.fsas = fsas
+        # We save a snapshot since the user may change `fsas.scores` before
+        # calling `backward`.
+        ctx.fsas = fsas._snapshot()
         ctx.log_semiring = log_semiring
         ctx.use_double_scores = use_double_scores
 
@@ -154,10 +156,12 @@ class _GetForwardScoresFunction(torch.autograd.Function):
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
-        ctx.fsas = fsas
+        # We save a snapshot since the user may change `fsas.scores` before
+        # calling `backward`.
+        ctx.fsas = fsas._snapshot()
         ctx.log_semiring = log_semiring
         ctx.use_double_scores = use_double_scores
-        ctx.save_for_backward(forward_scores)
+        ctx.save_for_backward(unused_scores, forward_scores)
 
         return forward_scores
 
@@ -167,7 +171,7 @@ class _GetForwardScoresFunction(torch.autograd.Function):
         fsas = ctx.fsas
         log_semiring = ctx.log_semiring
         use_double_scores = ctx.use_double_scores
-        forward_scores, = ctx.saved_tensors
+        _, forward_scores = ctx.saved_tensors
 
         if log_semiring:
             entering_arcs = None
@@ -230,10 +234,12 @@ class _GetBackwardScoresFunction(torch.autograd.Function):
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
-        ctx.fsas = fsas
+        # We save a snapshot since the user may change `fsas.scores` before
+        # calling `backward`.
+        ctx.fsas = fsas._snapshot()
         ctx.log_semiring = log_semiring
         ctx.use_double_scores = use_double_scores
-        ctx.save_for_backward(backward_scores)
+        ctx.save_for_backward(unused_scores, backward_scores)
 
         return backward_scores
 
@@ -243,7 +249,7 @@ class _GetBackwardScoresFunction(torch.autograd.Function):
         fsas = ctx.fsas
         log_semiring = ctx.log_semiring
         use_double_scores = ctx.use_double_scores
-        backward_scores, = ctx.saved_tensors
+        _, backward_scores = ctx.saved_tensors
 
         state_batches = fsas._get_state_batches()
         entering_arc_batches = fsas._get_entering_arc_batches()
@@ -313,7 +319,9 @@ class _GetArcPostFunction(torch.autograd.Function):
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
-        ctx.fsas = fsas
+        # We save a snapshot since the user may change `fsas.scores` before
+        # calling `backward`.
+        ctx.fsas = fsas._snapshot()
         ctx.use_double_scores = use_double_scores
 
         ctx.save_for_backward(forward_scores, backward_scores)
diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 86412c6..c1fa82a 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -254,23 +254,52 @@ class Fsa(object):
             to scores. If False, the whole cache is invalidated.
 
         '''
+        # NOTE: we always replace the dict; the old one still belongs to the
+        # objects returned by `_snapshot()`.
         if scores_only is False:
             self.__dict__['_cache'] = dict()
         else:
-            pattern = re.compile(r'score|arc_cdf|arc_post')
-            to_remove = []
-
-            for key in self.__dict__['_cache']:
-                if pattern.search(key):
-                    to_remove.append(key)
+            # "entering_arcs" depends on the scores, too, since it may be set
+            # in get_forward_scores()
+            pattern = re.compile(r'score|arc_cdf|arc_post|^entering_arcs$')
+            self.__dict__['_cache'] = {
+                key: value
+                for key, value in self.__dict__['_cache'].items()
+                if not pattern.search(key)
+            }
+
+    def _unshare_arcs_(self) -> None:
+        '''Intended for internal use only so its
+        name begins with an underline.
 
-            if 'entering_arcs' in self.__dict__['_cache']:
-                # We also need to remove "entering_arcs"
-                # since it may be set in get_forward_scores()
-                to_remove.append('entering_arcs')
+        Also, it changes `self` in-place.
 
-            for key in to_remove:
-                del self.__dict__['_cache'][key]
+        The memory of `self.arcs` may be shared with other objects, e.g., with
+        the FsaVec that `self` was taken from by indexing, with the tensor it
+        was constructed from, or with an object returned by `_snapshot()`.
+        This function gives `self` a copy of its own that can be modified.
+        '''
+        modified = self.labels._version != self.labels_version
+        self.__dict__['arcs'] = self.arcs.clone()
+        self._tensor_attr['labels'] = self.arcs.values()[:, 2]
+        # -1 keeps the inappropriate modification detectable
+        self.labels_version = -1 if modified else self.labels._version
+
+    def _snapshot(self) -> 'Fsa':
+        '''Return an object containing only the arcs and the cache of `self`.
+
+        It is for use in the backward functions for autograd: they need the
+        scores that were used in the forward pass even if `scores` has been
+        re-assigned since then. Nothing is copied; the cache is shared with
+        `self` until the scores of `self` are changed.
+        '''
+        ans = Fsa.__new__(Fsa)
+        ans.__dict__.update(arcs=self.arcs,
+                            _properties=self.__dict__['_properties'],
+                            _cache=self._cache,
+                            _tensor_attr=dict(),
+                            _non_tensor_attr=dict())
+        return ans
 
     def to_str(self, openfst: bool = False) -> str:
         extra_labels = []
@@ -402,6 +431,7 @@ class Fsa(object):
             assert value.device == self.device
             if name == 'labels':
                 assert value.dtype == torch.int32
+                self._unshare_arcs_()
                 self.arcs.values()[:, 2] = value
                 self.labels_version = self._tensor_attr["labels"]._version
                 # fix_final_labels() will change 0's to -1's and vice versa to
@@ -418,6 +448,7 @@ class Fsa(object):
 
             if name == 'scores':
                 assert value.dtype == torch.float32
+                self._unshare_arcs_()
                 # NOTE: we **reinterpret** the float patterns
                 # to integer patterns here.
                 self.arcs.values()[:, -1] = _k2.as_int(value.detach())
-- 
2.43.0


From ef85f0f7e0dd25baa45985aad5ba622967114399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 41/64] fix: whole_lattice_rescoring changed the lattice it was
 given

---
 k2/python/k2/nbest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 6a7b516..f13d32d 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -321,6 +321,7 @@ def whole_lattice_rescoring(lats: Fsa, G_with_epsilon_loops: Fsa) -> Fsa:
             f'{G_with_epsilon_loops.shape}'
 
     device = lats.device
+    lats = lats.clone()  # the user's object should not be changed
     lats.scores = lats.scores - lats.lm_scores
     # Now lats contains only acoustic scores
 
-- 
2.43.0


From 5f59ea9102c82423637617ec045de720ab8bee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 42/64] fix: generate_nbest_list could be called only once for
 a lattice

---
 k2/python/k2/nbest.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index f13d32d..29300c1 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -388,10 +388,6 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # Note: compile_HLG is from k2-fsa/snowfall
     assert hasattr(lats, 'phones')
 
-    assert not hasattr(lats, 'tokens')
-    lats.tokens = lats.phones
-    # we use tokens instead of phones in the following code
-
     # First, extract `num_paths` paths for each sequence.
     # paths is a k2.RaggedTensor with axes [seq][path][arc_pos]
     paths = k2.random_paths(lats, num_paths=num_paths, use_double_scores=True)
@@ -400,7 +396,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # but it contains token IDs. Note that it also contains 0s and -1s.
     # The last entry in each sublist is -1.
     # Its axes are [seq][path][token_id]
-    token_seqs = k2.ragged.index(lats.tokens, paths)
+    token_seqs = k2.ragged.index(lats.phones, paths)
 
     # Remove epsilons (0s) and -1 from token_seqs
     token_seqs = token_seqs.remove_values_leq(0)
-- 
2.43.0


From e206e8d76b7b590e3f887ee2c82300b9af7119ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 43/64] fix: changing the output of get_tot_scores() etc. in
 place changed the cached scores

---
 k2/python/k2/autograd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/k2/python/k2/autograd.py b/k2/python/k2/autograd.py
index 65c612a..05838ab 100644
--- a/k2/python/k2/autograd.py
+++ b/k2/python/k2/autograd.py
@@ -60,6 +60,8 @@ class _GetTotScoresFunction(torch.autograd.Function):
         # to `fsas`.
         tot_scores = fsas._get_tot_scores(use_double_scores=use_double_scores,
                                           log_semiring=log_semiring).detach()
+        # the cached value must not change if the user changes the output
+        tot_scores = tot_scores.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
@@ -153,6 +155,8 @@ class _GetForwardScoresFunction(torch.autograd.Function):
         forward_scores = fsas._get_forward_scores(
             use_double_scores=use_double_scores,
             log_semiring=log_semiring).detach()
+        # the cached value must not change if the user changes the output
+        forward_scores = forward_scores.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
@@ -231,6 +235,8 @@ class _GetBackwardScoresFunction(torch.autograd.Function):
         backward_scores = fsas._get_backward_scores(
             use_double_scores=use_double_scores,
             log_semiring=log_semiring).detach()
+        # the cached value must not change if the user changes the output
+        backward_scores = backward_scores.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
@@ -316,6 +322,8 @@ class _GetArcPostFunction(torch.autograd.Function):
         # this object, which also has a reference to `fsas`.
         arc_post = fsas._get_arc_post(use_double_scores=use_double_scores,
                                       log_semiring=log_semiring).detach()
+        # the cached value must not change if the user changes the output
+        arc_post = arc_post.clone()
 
         # NOTE: since `fsas`, `log_semiring` and `use_double_scores` are
         # not tensors, they are saved as attributes of `ctx`.
-- 
2.43.0


From 6e58025505c11c00baa746d0ca119edcd6639efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 44/64] fix: backward of swoosh read gradients of shape (n, 1)
 and scalars with a wrong stride

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 02abcd9..06dbbfe 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -234,7 +234,6 @@ class SwooshFunction
     torch::Tensor out_grad = y_grad[0];
     out_grad = out_grad.contiguous();
 
-    int32_t stride = out_grad.stride(-1);
     const float *out_grad_data = out_grad.data_ptr<float>();
 
     auto context = GetContext(out_grad);
@@ -248,7 +247,7 @@ class SwooshFunction
     float coeff = kCoeff;
     K2_EVAL(
         context, g.numel(), lambda_compute_swoosh_backward, (int32_t i)->void {
-          float oi = out_grad_data[i * stride];
+          float oi = out_grad_data[i];
           float gi = g_data[i];  // cast uint8_t to float
           float ii = 1;
           float fi = 1;  // functional grad
-- 
2.43.0


From 7d7db57a85fa119821412fd1f0e1787a99b65e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 45/64] fix: swoosh of a scalar without gradient had shape (1,)

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 06dbbfe..176dc4c 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -154,7 +154,7 @@ class SwooshFunction
     x = x.to(torch::kFloat32);
 
     if (!requires_grad) {
-      torch::Tensor zero = torch::zeros({1}, x.options());
+      torch::Tensor zero = torch::zeros({}, x.options());
       return torch::logaddexp(zero, x - kShift) - kCoeff * x - kOffset;
     }
 
-- 
2.43.0


From 59de467cd52b03f4575ad4c41cff9c21ccb127ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 46/64] fix: contiguous matrices with a dimension of size 0 or
 1 could be refused

---
 k2/csrc/torch_util.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index f2e2524..8d22c77 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -171,15 +171,19 @@ Array2<T> FromTorch(torch::Tensor tensor, Array2Tag) {
       << "Expected scalar type: " << ToScalarType<T>::value
       << ". Given: " << tensor.scalar_type();
 
-  K2_CHECK_EQ(tensor.strides()[1], 1)
+  // The strides of a contiguous tensor with a dimension of size 0 or 1 can
+  // have any value
+  bool contiguous = tensor.is_contiguous();
+  K2_CHECK(contiguous || tensor.strides()[1] == 1)
       << "Expected stride: 1. Given: " << tensor.strides()[1];
 
   auto region = NewRegion(tensor);
-  Array2<T> ans(tensor.sizes()[0],    // dim0
-                tensor.sizes()[1],    // dim1
-                tensor.strides()[0],  // elem_stride0
-                0,                    // byte_offset
-                region);              // region
+  Array2<T> ans(
+      tensor.sizes()[0],                                        // dim0
+      tensor.sizes()[1],                                        // dim1
+      contiguous ? tensor.sizes()[1] : tensor.strides()[0],     // elem_stride0
+      0,                                                        // byte_offset
+      region);                                                  // region
   return ans;
 }
 
-- 
2.43.0


From b1559f591114ce00897e88b108dbabe25a6053cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 47/64] fix: Nbest.intersect() always raised TypeError

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 29300c1..09c5d75 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -219,8 +219,8 @@ class Nbest(object):
         assert self.fsa.device == lats.device, \
                 f'{self.fsa.device} vs {lats.device}'
         assert len(lats.shape) == 3, f'{lats.shape}'
-        assert lats.arcs.dim0() == self.shape.dim0(), \
-                f'{lats.arcs.dim0()} vs {self.shape.dim0()}'
+        assert lats.arcs.dim0() == self.shape.dim0, \
+                f'{lats.arcs.dim0()} vs {self.shape.dim0}'
 
         lats = k2.arc_sort(lats)  # no-op if lats is already arc sorted
 
-- 
2.43.0


From 27150a41b71323785d74d738f2b87948554da3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 48/64] fix: Nbest.top_k() failed if every utterance had fewer
 paths than k

---
 k2/python/k2/nbest.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 09c5d75..1046da4 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -284,6 +284,13 @@ class Nbest(object):
                 'Some utterances contain empty ' \
                 f'n-best: {self.shape.row_splits(1)}'
 
+        if padded_indexes.shape[1] < k:
+            # Every utterance has less than k paths
+            last = padded_indexes[:, -1:]
+            padded_indexes = torch.cat(
+                [padded_indexes,
+                 last.expand(-1, k - padded_indexes.shape[1])], dim=1)
+
         # Select the idx01's of top-k paths of each utterance
         top_k_indexes = padded_indexes[:, :k].flatten().contiguous()
 
-- 
2.43.0


From 050e7138e5f32d6862fcd3f1ca8baf922c9c11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 49/64] fix: get_best_matching_stats() added the scores of
 queries to those of the keys

---
 k2/csrc/nbest.cu | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index 30244f2..97ec615 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -495,9 +495,13 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
     // in the positions of eos and terminator.
     int32_t rindex = seq_len - 2 - suffix_array_data[i] - 1;
     reorder_counts_data[i] = rindex < 0 ? 0 : counts_data[rindex];
-    reorder_scores_data[i] = rindex < 0 ? 0 : scores_data[rindex];
-    reorder_scores_squre_data[i] = rindex < 0 ? 0 :
-                                   scores_data[rindex] * scores_data[rindex];
+    // Only the keys, i.e. the positions with a nonzero count, take part in the
+    // statistics.
+    bool is_key = rindex >= 0 && counts_data[rindex] != 0;
+    reorder_scores_data[i] = is_key ? scores_data[rindex] : 0;
+    reorder_scores_squre_data[i] = is_key ?
+                                   scores_data[rindex] * scores_data[rindex] :
+                                   0;
   }
   ExclusiveSum(reorder_counts, &reorder_counts);
   ExclusiveSum(reorder_scores, &reorder_scores);
-- 
2.43.0


From 340af3bb571aa9ade881f04594c86ef9db2fde40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 50/64] fix: remove_epsilon() of an FsaVec without FSAs aborted

---
 k2/csrc/fsa_algo.cu | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 14a584e..b580223 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -226,6 +226,13 @@ void RecursionWrapper(void (*f)(FsaOrVec &, FsaOrVec *, Ragged<int32_t> *),
   // src is actually an FsaVec.  Just recurse for now.
   K2_CHECK_EQ(src.NumAxes(), 3);
   int32_t num_fsas = src.shape.Dim0();
+  if (num_fsas == 0) {
+    ContextPtr &c = src.Context();
+    *dest = FsaVec(EmptyRaggedShape(c, 3));
+    if (arc_deriv != nullptr)
+      *arc_deriv = Ragged<int32_t>(EmptyRaggedShape(c, 2));
+    return;
+  }
   std::vector<Fsa> srcs(num_fsas), dests(num_fsas);
   std::vector<Ragged<int32_t>> arc_derivs(num_fsas);
   int32_t tot_num_arcs = 0;
-- 
2.43.0


From 38df8b549401b28b1cc3bd6a92edf5bd60008bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 51/64] fix: memory corruption if an arc of a tensor leaves a
 state after the final state

---
 k2/csrc/fsa.cu | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index 128f23d..890e0ed 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -321,6 +321,16 @@ Fsa FsaFromArray1(Array1<Arc> &arcs, bool *error, int32_t final_state) {
     *error = true;
     return Fsa();
   }
+  // No arcs can leave the final state (or any state after it, which would be
+  // out of range of `row_splits1` below).
+  int32_t last_src_state = row_ids1.Back();
+  if (last_src_state >= final_state) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, an arc leaves state "
+                    << last_src_state << " but the final-state is "
+                    << final_state;
+    *error = true;
+    return Fsa();
+  }
   Array1<int32_t> row_splits1(c, final_state + 2);
   RowIdsToRowSplits(c, num_arcs, row_ids1_data, false, final_state + 1,
                     row_splits1.Data());
-- 
2.43.0


From 7cbc60b44ec71767fdc2bd438cdc0210d1d3a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 52/64] fix: memory corruption if an FsaVec tensor has source
 states or sizes out of range

---
 k2/csrc/fsa.cu | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index 890e0ed..521192f 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -410,10 +410,12 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
   }
   int32_t num_ints = t.Dim(0);
   Array1<int32_t> int_array(num_ints, t.GetRegion(), t.ByteOffset());
-  num_fsas = int_array[0];
+  num_fsas = num_ints > 0 ? int_array[0] : -1;
 
-  int32_t arcs_start = 2 + (num_fsas + 1) * 2;
-  if (num_fsas < 0 || num_ints < arcs_start ||
+  // Note: comparing num_fsas with num_ints avoids an overflow of arcs_start.
+  int32_t arcs_start =
+      num_fsas >= num_ints ? num_fsas : 2 + (num_fsas + 1) * 2;
+  if (num_fsas < 0 || num_fsas >= num_ints || num_ints < arcs_start ||
       (num_ints - arcs_start) % 4 != 0) {
     K2_LOG(WARNING) << "Could not convert tensor to FSA, num_ints = "
                     << num_ints << ", num_fsas = " << num_fsas;
@@ -458,16 +460,27 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
                 *row_splits1_data = row_splits1.Data();
   int32_t *row_ids12_data = row_ids12.Data();
   Arc *arcs_data = arcs.Data();
+  Array1<int32_t> bad_src_state(c, 1, 0);
+  int32_t *bad_src_state_data = bad_src_state.Data();
 
   K2_EVAL(
       c, num_arcs, lambda_make_row_ids2, (int32_t arc_idx012)->void {
         int32_t fsa_idx0 = row_ids12_data[arc_idx012],
-                state_idx0x = row_splits1_data[fsa_idx0];
+                state_idx0x = row_splits1_data[fsa_idx0],
+                num_states_this = row_splits1_data[fsa_idx0 + 1] - state_idx0x;
         int32_t state_idx1 = arcs_data[arc_idx012].src_state,
                 state_idx01 = state_idx0x + state_idx1;
+        if (state_idx1 < 0 || state_idx1 >= num_states_this)
+          bad_src_state_data[0] = 1;
         row_ids12_data[arc_idx012] =
             state_idx01;  // we're turning this into the row_ids2.
       });
+  if (bad_src_state[0] != 0) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, "
+                       "src_states of arcs were out of range";
+    *error = true;
+    return Fsa();
+  }
 
   Array1<int32_t> &row_ids2 =
       row_ids12;  // we overwrote the data in the lambda above.
-- 
2.43.0


From 04050418f06294035a0e5b63c10e14d5f27560da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 53/64] fix: assigning scores of a wrong dtype or shape left
 the scores changed

---
 k2/python/k2/fsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index c1fa82a..2a09fba 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -444,10 +444,13 @@ class Fsa(object):
                 self.properties
                 return
 
+            if name == 'scores':
+                assert value.dtype == torch.float32
+                assert value.ndim == 1, value.shape
+
             self._tensor_attr[name] = value
 
             if name == 'scores':
-                assert value.dtype == torch.float32
                 self._unshare_arcs_()
                 # NOTE: we **reinterpret** the float patterns
                 # to integer patterns here.
-- 
2.43.0


From 5a53d906042fd883c7c73d2d686fac6f5335af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 54/64] fix: refused labels were kept by the automaton and
 reported as valid

---
 k2/python/k2/fsa.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 2a09fba..d81736c 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -431,17 +431,25 @@ class Fsa(object):
             assert value.device == self.device
             if name == 'labels':
                 assert value.dtype == torch.int32
-                self._unshare_arcs_()
-                self.arcs.values()[:, 2] = value
-                self.labels_version = self._tensor_attr["labels"]._version
-                # fix_final_labels() will change 0's to -1's and vice versa to
-                # ensure that constraints on where final-labels should appear,
-                # are satisfied.
-                _k2.fix_final_labels(self.arcs, None)
-                self.__dict__['_properties'] = None
-                # access self.properties which will do a validity check on the
-                # modified FSA after getting the properties
-                self.properties
+                old = (self.arcs, self._tensor_attr['labels'],
+                       self.labels_version, self._properties)
+                try:
+                    self._unshare_arcs_()
+                    self.arcs.values()[:, 2] = value
+                    self.labels_version = self._tensor_attr["labels"]._version
+                    # fix_final_labels() will change 0's to -1's and vice versa
+                    # to ensure that constraints on where final-labels should
+                    # appear, are satisfied.
+                    _k2.fix_final_labels(self.arcs, None)
+                    self.__dict__['_properties'] = None
+                    # access self.properties which will do a validity check on
+                    # the modified FSA after getting the properties
+                    self.properties
+                except (RuntimeError, ValueError):
+                    # The labels are not valid; keep the previous ones
+                    (self.__dict__['arcs'], self._tensor_attr['labels'],
+                     self.labels_version, self.__dict__['_properties']) = old
+                    raise
                 return
 
             if name == 'scores':
-- 
2.43.0


From 6de56ade3b01d0a1dae1c8a79727f10c4d7f6d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 55/64] fix: inverting a C++ FsaClass changed the FSAs it
 shares its arcs with

---
 k2/torch/csrc/fsa_algo.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/torch/csrc/fsa_algo.cu b/k2/torch/csrc/fsa_algo.cu
index adcb759..b4dffe8 100644
--- a/k2/torch/csrc/fsa_algo.cu
+++ b/k2/torch/csrc/fsa_algo.cu
@@ -94,6 +94,10 @@ void Invert(FsaClass *lattice) {
         torch::tensor(-1, torch::device(labels.device()).dtype(labels.dtype()));
     aux_labels = torch::where(labels == -1, minus_one, aux_labels);
 
+    // The arcs may be shared with other FSAs, e.g., with the one that
+    // `lattice` was copied from, so we must not change them in place.
+    lattice->fsa = Fsa(lattice->fsa.shape, lattice->fsa.values.Clone());
+
     lattice->SetTensorAttr("aux_labels", labels);
     lattice->SetLabels(aux_labels);
   } else {
-- 
2.43.0


From fbc89067d6ae7bac98974561c1aa507c7a90d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 56/64] fix: copying several attributes of a list of FsaClass
 objects mixed them up

---
 k2/torch/csrc/fsa_class.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/torch/csrc/fsa_class.cu b/k2/torch/csrc/fsa_class.cu
index 90c3de3..ab4fca5 100644
--- a/k2/torch/csrc/fsa_class.cu
+++ b/k2/torch/csrc/fsa_class.cu
@@ -75,9 +75,9 @@ void FsaClass::CopyTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_info.insert(std::make_pair(iter.first, dtype));
     }
   }
-  std::vector<torch::Tensor> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &iter : attrs_info) {
+    std::vector<torch::Tensor> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map_array =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
@@ -119,9 +119,9 @@ void FsaClass::CopyRaggedTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_name.insert(iter.first);
     }
   }
-  std::vector<Ragged<int32_t>> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &name : attrs_name) {
+    std::vector<Ragged<int32_t>> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
-- 
2.43.0


From 2c6a7a2ab917002b6f9a09e193d1a6715feb09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 57/64] fix: modified beam search aborted if there were fewer
 candidates than active paths

---
 k2/torch/csrc/beam_search.cu | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/k2/torch/csrc/beam_search.cu b/k2/torch/csrc/beam_search.cu
index 549d40d..f0f4c9b 100644
--- a/k2/torch/csrc/beam_search.cu
+++ b/k2/torch/csrc/beam_search.cu
@@ -339,10 +339,15 @@ std::vector<std::vector<int32_t>> ModifiedBeamSearch(
       int32_t start = row_splits_data[k];
       int32_t end = row_splits_data[k + 1];
 
+      // In the first few frames there may be fewer candidates than
+      // num_acitve_paths.
+      int32_t num_topk =
+          std::min(num_acitve_paths, (end - start) * vocab_size);
+
       torch::Tensor values, indexes;
       std::tie(values, indexes) =
           log_probs.slice(/*dim*/ 0, start * vocab_size, end * vocab_size)
-              .topk(/*k*/ num_acitve_paths, /*dim*/ 0,
+              .topk(/*k*/ num_topk, /*dim*/ 0,
                     /*largest*/ true, /*sorted*/ true);
 
       auto topk_hyp_indexes = FloorDivide(indexes, vocab_size);
-- 
2.43.0


From 5ceee6b54560ba6c58c538715f7129bae93325f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 58/64] fix: a symbol table ending with a symbol without an ID
 was accepted

---
 k2/torch/csrc/symbol_table.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/torch/csrc/symbol_table.cu b/k2/torch/csrc/symbol_table.cu
index 0154794..9e8de30 100644
--- a/k2/torch/csrc/symbol_table.cu
+++ b/k2/torch/csrc/symbol_table.cu
@@ -28,7 +28,8 @@ SymbolTable::SymbolTable(const std::string &filename) {
   std::ifstream is(filename);
   std::string sym;
   int32_t id;
-  while (is >> sym >> id) {
+  while (is >> sym) {
+    K2_CHECK(is >> id) << "No valid ID for symbol: " << sym;
     if (sym.size() >= 3) {
       // For BPE-based models, we replace ▁ with a space
       // Unicode 9601, hex 0x2581, utf8 0xe29681
-- 
2.43.0


From ed97f4cd9dd705f1b1d4682c59b4dd80a673a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 59/64] fix: one-element and contiguous tensors with unusual
 strides were refused

---
 k2/torch/csrc/utils.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/k2/torch/csrc/utils.h b/k2/torch/csrc/utils.h
index 8c6125e..4471f2f 100644
--- a/k2/torch/csrc/utils.h
+++ b/k2/torch/csrc/utils.h
@@ -85,8 +85,9 @@ Array1<T> Array1FromTorch(torch::Tensor tensor) {
       << "Expected dtype type: " << caffe2::TypeMeta::Make<T>()
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
-  // clone() method, it is valid here, so we won't check its strides.
-  if (tensor.numel() > 0)
+  // clone() method, it is valid here, so we won't check its strides. The same
+  // holds for tensors with only one element, e.g., a one-row slice of a column.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.stride(0), 1)
         << "Expected stride: 1. Given: " << tensor.stride(0);
 
@@ -105,15 +106,18 @@ Array2<T> Array2FromTorch(torch::Tensor tensor) {
       << "Expected dtype type: " << caffe2::TypeMeta::Make<T>()
       << ". Given: " << tensor.scalar_type();
 
-  K2_CHECK_EQ(tensor.stride(1), 1)
+  // The strides of a contiguous tensor with a dimension of size 0 or 1 can
+  // have any value
+  bool contiguous = tensor.is_contiguous();
+  K2_CHECK(contiguous || tensor.stride(1) == 1)
       << "Expected stride: 1. Given: " << tensor.stride(1);
 
   auto region = NewRegion(tensor);
-  Array2<T> ans(tensor.size(0),    // dim0
-                tensor.size(1),    // dim1
-                tensor.stride(0),  // elem_stride0
-                0,                 // byte_offset
-                region);           // region
+  Array2<T> ans(tensor.size(0),                                    // dim0
+                tensor.size(1),                                    // dim1
+                contiguous ? tensor.size(1) : tensor.stride(0),    // elem_stride0
+                0,                                                 // byte_offset
+                region);                                           // region
   return ans;
 }
 
-- 
2.43.0


From d77e1e139c1fab1c8b9c1288b1f4897e27033e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 60/64] fix: IndexSelect from an empty tensor returned too few
 elements

---
 k2/torch/csrc/utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/k2/torch/csrc/utils.h b/k2/torch/csrc/utils.h
index 4471f2f..880b693 100644
--- a/k2/torch/csrc/utils.h
+++ b/k2/torch/csrc/utils.h
@@ -216,9 +216,10 @@ torch::Tensor IndexSelect(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+  if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  // If src is an empty tensor, `index` can contain only -1s.
+  if (src.numel() == 0)
+    return torch::full({index_array.Dim()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = Array1FromTorch<T>(src);
     Array1<T> ans_array =
-- 
2.43.0


From 51c682cdcb05c1e168f605bd49b0336a85974c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 61/64] fix: CreateDenseFsaVec ignored the column stride of
 supervision_segments

---
 k2/torch/csrc/dense_fsa_vec.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/torch/csrc/dense_fsa_vec.cu b/k2/torch/csrc/dense_fsa_vec.cu
index 12140de..4d8f796 100644
--- a/k2/torch/csrc/dense_fsa_vec.cu
+++ b/k2/torch/csrc/dense_fsa_vec.cu
@@ -44,6 +44,7 @@ DenseFsaVec CreateDenseFsaVec(torch::Tensor log_probs,
   int32_t C = log_probs.size(2);
 
   // iterate the supervision_segments to get number of frames for each segment
+  supervision_segments = supervision_segments.contiguous();
   int32_t num_utt = supervision_segments.size(0);
   int32_t stride = supervision_segments.stride(0);
   const int32_t *p_sup = supervision_segments.data_ptr<int32_t>();
-- 
2.43.0


From b8da30d25f187fece9027e4e6661feabfb3faf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 62/64] fix: WAVE files with odd or negative sizes corrupted
 memory or looped forever

---
 k2/torch/csrc/wave_reader.cu | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/torch/csrc/wave_reader.cu b/k2/torch/csrc/wave_reader.cu
index 814ca57..62a1bf0 100644
--- a/k2/torch/csrc/wave_reader.cu
+++ b/k2/torch/csrc/wave_reader.cu
@@ -58,6 +58,7 @@ struct WaveHeader {
   void SeekToDataChunk(std::istream &is) {
     //                              a t a d
     while (is && subchunk2_id != 0x61746164) {
+      K2_CHECK_GE(subchunk2_size, 0);
       const char *p = reinterpret_cast<const char *>(&subchunk2_id);
       is.seekg(subchunk2_size, std::istream::cur);
       is.read(reinterpret_cast<char *>(&subchunk2_id), sizeof(int32_t));
@@ -99,6 +100,8 @@ std::pair<torch::Tensor, float> ReadWaveImpl(std::istream &is) {
 
   // header.subchunk2_size contains the number of bytes in the data.
   // As we assume each sample contains two bytes, so it is divided by 2 here
+  K2_CHECK_GE(header.subchunk2_size, 0);
+  K2_CHECK_EQ(header.subchunk2_size % 2, 0);
   torch::Tensor data = torch::empty({header.subchunk2_size / 2}, torch::kShort);
 
   is.read(reinterpret_cast<char *>(data.data_ptr<int16_t>()),
-- 
2.43.0


From b2b83f71a2d9f0b2490cadc43bc247881ae8cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 63/64] fix: arc map of pruned_ranges_to_lattice was wrong for
 non-contiguous logits

---
 k2/python/csrc/torch/pruned_ranges_to_lattice.cu | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/pruned_ranges_to_lattice.cu b/k2/python/csrc/torch/pruned_ranges_to_lattice.cu
index 415be11..eb13204 100644
--- a/k2/python/csrc/torch/pruned_ranges_to_lattice.cu
+++ b/k2/python/csrc/torch/pruned_ranges_to_lattice.cu
@@ -169,11 +169,13 @@ FsaVec PrunedRangesToLattice(
 
     Array1<int32_t> out_map(context, num_arcs);
     int32_t* out_map_data = out_map.Data();
-    // Used to populate out_map.
-    const int32_t lg_stride_0 = logits.stride(0),
-                  lg_stride_1 = logits.stride(1),
-                  lg_stride_2 = logits.stride(2),
-                  lg_stride_3 = logits.stride(3);
+    // Used to populate out_map. Note: out_map contains indexes into
+    // logits.reshape(-1), so we cannot use the strides of `logits` here, which
+    // may be non-contiguous.
+    const int32_t lg_stride_3 = 1,
+                  lg_stride_2 = logits.size(3),
+                  lg_stride_1 = lg_stride_2 * logits.size(2),
+                  lg_stride_0 = lg_stride_1 * logits.size(1);
 
     // Type of logits can be float32, float64, float16. Though float32 is mainly
     // used, float64 and float16 are also supported for future use.
-- 
2.43.0


From 546d0fa8edcb21991eba750cc5828210d33f67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 64/64] fix: gradients of swoosh with a dropout probability of
 1 were NaN

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 176dc4c..d0a1cce 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -245,6 +245,8 @@ class SwooshFunction
     float *in_grad_data = in_grad.data_ptr<float>();
 
     float coeff = kCoeff;
+    // If dropout_prob is 1, everything was dropped
+    float scale = dropout_prob < 1.0f ? 1.0f / (1.0f - dropout_prob) : 0.0f;
     K2_EVAL(
         context, g.numel(), lambda_compute_swoosh_backward, (int32_t i)->void {
           float oi = out_grad_data[i];
@@ -252,7 +254,7 @@ class SwooshFunction
           float ii = 1;
           float fi = 1;  // functional grad
 
-          fi = ((gi * (1.005f / 255.0f)) - coeff) / (1.0f - dropout_prob);
+          fi = ((gi * (1.005f / 255.0f)) - coeff) * scale;
           ii = oi * fi;
           in_grad_data[i] = ii;
         });
-- 
2.43.0

