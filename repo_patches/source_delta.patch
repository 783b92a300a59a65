From 770e664d820fadd21e20174e3ee5973a9eeb7799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 001/148] fix: row windows of the sparse quotient and
 log-product kernels used the values of the skipped rows

---
 sidetopics/util/se_fast.pyx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 0b6d7b7..41b1f60 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -274,7 +274,8 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int out_start = A_ptr[start]
 
     with nogil:
         while A_row < end:
@@ -283,7 +284,7 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
             if A_row >= start:
                 while e < elemCount:
                     col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f8(B_row,col,B,C)
+                    out_data[i - out_start] = A_data[i] / dotProduct_f8(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -321,7 +322,8 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int out_start = A_ptr[start]
 
     with nogil:
         while A_row < end:
@@ -330,7 +332,7 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
             if A_row >= start:
                 while e < elemCount:
                     col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f4(B_row,col,B,C)
+                    out_data[i - out_start] = A_data[i] / dotProduct_f4(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -509,7 +511,8 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int out_start = A_ptr[start]
         double dotProd = 0.0
         double logOfMin = log (DBL_MIN)
     
@@ -521,7 +524,7 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
                 while e < elemCount:
                     col         = A_indices[i]
                     dotProd     = dotProduct_f8(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
+                    out_data[i - out_start] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
@@ -584,7 +587,8 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int out_start = A_ptr[start]
         float dotProd = 0.0
         float logOfMin = log (FLT_MIN)
 
@@ -596,7 +600,7 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
                 while e < elemCount:
                     col         = A_indices[i]
                     dotProd     = dotProduct_f4(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
+                    out_data[i - out_start] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
-- 
2.43.0


From f93aaebb544c79263d928a68a7681cc0a3ae012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 002/148] fix: sparseScalarProductOfSafeLnDot ignored the
 caller's out matrix for double precision

---
 sidetopics/util/sparse_elementwise.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index dde26ab..f97c0aa 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -281,7 +281,6 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
         # out = A.copy()
         # oldWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8_full(
         #      A.data, A.indices, A.indptr, B, C, out.data))
-        out = A.copy()
         newWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8(
              A.data, A.indices, A.indptr, B, C, out.data, 0, A.shape[0]))
 
-- 
2.43.0


From 9158253a0d1a4828b661f334063758f5edd9325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 003/148] fix: csr_indices returned a list, which numpy reads
 as one index array, so the slow paths failed

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index f97c0aa..5bc2147 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -389,4 +389,4 @@ def csr_indices(ptr, ind):
             rows[totalElemCount : totalElemCount + elemCount] = [r] * elemCount
         totalElemCount += elemCount
 
-    return [rows, ind.tolist()]
+    return (rows, ind.tolist())
-- 
2.43.0


From 7926187b74f9292781a17e8cb7c258ca4fc92bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 004/148] fix: entropyOfDot was NaN with zero probabilities,
 and its slow path read the wrong vocabulary entry

---
 sidetopics/util/se_fast.pyx           | 6 ++++--
 sidetopics/util/sparse_elementwise.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 41b1f60..6d56bbd 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -184,7 +184,8 @@ def entropyOfDot_f8 (double[:,:] topics, double[:,:] vocab):
                 t = 0
                 while t < T:
                     z_dtk   = (topics[d,k] / denom) * vocab[k,t]
-                    result -= z_dtk * log (z_dtk)
+                    if z_dtk > 0: # the limit of x log x is zero
+                        result -= z_dtk * log (z_dtk)
                     t += 1
                 k += 1
             d += 1
@@ -236,7 +237,8 @@ def entropyOfDot_f4 (float[:,:] topics, float[:,:] vocab):
                 t = 0
                 while t < T:
                     z_dtk   = (topics[d,k] / denom) * vocab[k,t]
-                    result -= z_dtk * log (z_dtk)
+                    if z_dtk > 0: # the limit of x log x is zero
+                        result -= z_dtk * log (z_dtk)
                     t += 1
                 k += 1
             d += 1
diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 5bc2147..83d5f5b 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -121,7 +121,9 @@ def entropyOfDot_py (topics, vocab):
         
         for k in range(K):
             for t in range(T):
-                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[d,k])
+                z_dtk = (topics[d,k] / denom) * vocab[k,t]
+                if z_dtk > 0: # the limit of x log x is zero
+                    result -= z_dtk * log (z_dtk)
     
     return result
 
-- 
2.43.0


From f4e5bd99496069966494e1342db477e9fd63ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 005/148] fix: scaledSelfSoftDot ignored its weights

---
 sidetopics/util/sig_fast.pyx     | 8 ++++----
 sidetopics/util/sigmoid_utils.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/sig_fast.pyx b/sidetopics/util/sig_fast.pyx
index ef49f44..cd7b1cd 100644
--- a/sidetopics/util/sig_fast.pyx
+++ b/sidetopics/util/sig_fast.pyx
@@ -113,7 +113,7 @@ def selfSoftDot_f8_i8(double[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -148,7 +148,7 @@ def selfSoftDot_f4_i8(float[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -184,7 +184,7 @@ def selfSoftDot_f8_f8(double[:,:] mat, double[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -219,7 +219,7 @@ def selfSoftDot_f4_f4(float[:,:] mat, float[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index 54a7113..b07ff0c 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -102,5 +102,5 @@ def scaledSelfSoftDot(matrix, scale):
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (scaledSelfSoftDot)")
-    return np.sum(matrix * rowwise_softmax(matrix))
+    return np.sum(scale[:, np.newaxis] * matrix * rowwise_softmax(matrix))
 
-- 
2.43.0


From 5f5b4f54fe137524ac56e30c11eff03c9b6cef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 006/148] fix: vec-transpose of integer and other matrices
 without a native kernel failed on fractional shapes

---
 sidetopics/util/vectrans.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/util/vectrans.py b/sidetopics/util/vectrans.py
index ce1b3b0..1604e10 100644
--- a/sidetopics/util/vectrans.py
+++ b/sidetopics/util/vectrans.py
@@ -86,7 +86,7 @@ def _vec_transpose_csr_jit(data, indices, indptr, shape, p):
     rows = np.ndarray((length,), dtype=np.int32)
     cols = np.ndarray((length,), dtype=np.int32)
     
-    newRows, newCols = shape[1] * p, shape[0] / p
+    newRows, newCols = shape[1] * p, shape[0] // p
     oldRow, oldCol = 0, 0
     
     dataPtr = 0
@@ -118,18 +118,18 @@ def vec_transpose(A, p):
         return np.array (compiled.vec_transpose_f8r (A, p))
     elif A.dtype == np.float32:
         return np.array(compiled.vec_transpose_f4r (A, p))
-    elif A.order == 'F':
+    elif np.isfortran(A):
         raise ValueError ("Not implemented for Fortran order matrices")
     
     # Fall back to pure Python 
     (oldRows, oldCols) = A.shape
-    newRows, newCols = oldCols * p, oldRows / p
+    newRows, newCols = oldCols * p, oldRows // p
     out = np.ndarray((newRows, newCols), dtype=A.dtype)
     
     for oldRow in range(oldRows):
         for oldCol in range(oldCols):
             newRow = oldCol * p + oldRow % p
-            newCol = oldRow / p
+            newCol = oldRow // p
             out[newRow, newCol] = A[oldRow, oldCol]
         
     return out
-- 
2.43.0


From 7f89520fff2fd7954d2c713a909182c668a3cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 007/148] fix: vec-transpose wrote outside its result when the
 scale does not divide the row count

---
 sidetopics/util/vectrans.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sidetopics/util/vectrans.py b/sidetopics/util/vectrans.py
index 1604e10..68dcc75 100644
--- a/sidetopics/util/vectrans.py
+++ b/sidetopics/util/vectrans.py
@@ -46,6 +46,10 @@ def vec(A):
     '''
     return np.reshape(A, (-1,1), order='F')
 
+def _check_scale(rows, p):
+    if p < 1 or rows % p != 0:
+        raise ValueError("The scale %d does not divide the number of rows %d" % (p, rows))
+
 def vec_transpose_csr(A, p):
     '''
     Applies the vec-transpose operator to the given sparse matrix, which is stored in
@@ -58,6 +62,7 @@ def vec_transpose_csr(A, p):
     stacked from top to bottom corresponding to columns read from left to right.
     '''
     (oldRows, oldCols) = A.shape
+    _check_scale(oldRows, p)
     if A.dtype == np.float64:
         return compiled.sparse_vec_transpose_f8r (A.data, A.indices, A.indptr, oldRows, oldCols, p)
     elif A.dtype == np.float32:
@@ -114,6 +119,7 @@ def vec_transpose(A, p):
     column in that matrix into a matrix with p rows. It then returns a matrix of these sub-matrices
     stacked from top to bottom corresponding to columns read from left to right.
     '''
+    _check_scale(A.shape[0], p)
     if A.dtype == np.float64:
         return np.array (compiled.vec_transpose_f8r (A, p))
     elif A.dtype == np.float32:
-- 
2.43.0


From bf87dde68bedfb4acee95830f8aad19344f55532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 008/148] fix: sparse_elementwise.selfSoftDot called kernels
 that are in another module

---
 sidetopics/util/sparse_elementwise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 83d5f5b..9985211 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -8,6 +8,7 @@ import os
 import numpy as np
 import scipy.sparse as ssp
 import sidetopics.util.se_fast as compiled
+import sidetopics.util.sig_fast as compiled_sig
 from math import log
 import sys
 from sidetopics.util.overflow_safe import safe_log
@@ -61,9 +62,9 @@ def selfSoftDot(matrix):
     '''
     assert not np.isfortran(matrix), "Matrix is not stored in row-major form"
     if matrix.dtype == np.float64:
-        return compiled.selfSoftDot_f8(matrix)
+        return compiled_sig.selfSoftDot_f8(matrix)
     elif matrix.dtype == np.float32:
-        return compiled.selfSoftDot_f4(matrix)
+        return compiled_sig.selfSoftDot_f4(matrix)
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (selfSoftDot)")
-- 
2.43.0


From d04632b3678a735c8790528c8e6137541868ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 009/148] fix: pruning by unique word count used np.bool, which
 numpy no longer has, and a broken message

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3ec49ee..4a98dab 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -339,7 +339,7 @@ class DataSet:
         """
         rng = rd.RandomState(seed)
 
-        tmp = self._words.astype(np.bool).astype(np.int32)
+        tmp = self._words.astype(bool).astype(np.int32)
 
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
@@ -479,8 +479,8 @@ class DataSet:
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(np.bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(np.bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
@@ -488,7 +488,7 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
-                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good)), min_unique_word_count, len(tq_good))
+                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
                 
                 # FIXME Need to handle links and feats as well...
                 if (self._feats is not None) or (self._links is not None):
-- 
2.43.0


From 6c06aa0aaf264b08eff773cbcf41c955e528b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 010/148] fix: selecting documents failed when the dataset had
 no categories, or a list of them

---
 sidetopics/model/common.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 4a98dab..90dd7b4 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -301,7 +301,7 @@ class DataSet:
         Maybe this should update the order property as well...
         """
         self._words = self._words[order, :]
-        self._doc_categories = self._doc_categories[list(order)]
+        self._doc_categories = _select_categories(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
         self._links = _reorder_link_matrix(self._links, order)
 
@@ -420,7 +420,7 @@ class DataSet:
             None if self._feats is None else self._feats[train_range],
             None if self._links is None else self._links[train_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(train_range)],
+            doc_categories=_select_categories(self._doc_categories, train_range),
             order=self._order[train_range],
             debug=debug
         )
@@ -429,7 +429,7 @@ class DataSet:
             None if self._feats is None else self._feats[query_range],
             None if self._links is None else self._links[query_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(query_range)],
+            doc_categories=_select_categories(self._doc_categories, query_range),
             order=self._order[query_range],
             debug=debug
         )
@@ -571,13 +571,13 @@ class DataSet:
                        feats=self._feats[trainDocs,:],
                        links=two_dim_reorder(self._links, trainDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select_categories(self._doc_categories, trainDocs),
                        order=self._order[trainDocs]), \
                DataSet(words=self._words[queryDocs,:],
                        feats=self._feats[queryDocs,:],
                        links=two_dim_reorder(self._links, queryDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select_categories(self._doc_categories, queryDocs),
                        order=self._order[queryDocs]), \
                trainDocs
 
@@ -743,6 +743,18 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
     return L, R, docSubset
 
 
+def _select_categories(doc_categories, order):
+    """
+    Returns the categories of the given documents only (in order). The categories
+    may be a list (as read by from_files) or a numpy array.
+    """
+    if doc_categories is None:
+        return None
+    if isinstance(doc_categories, np.ndarray):
+        return doc_categories[order]
+    return [doc_categories[d] for d in order]
+
+
 def _reorder_link_matrix(matrix, order):
     """
     Returns a matrix containing only the given rows (in order).
-- 
2.43.0


From fa39d1206cf62baf62b4839ae324908902b4d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 011/148] fix: deep copies of a dataset called copy methods
 with an argument they do not have

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 90dd7b4..d56376a 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -144,12 +144,12 @@ class DataSet:
     def copy(self, deep=False):
         if deep:
             return DataSet(
-                self._words.copy(deep=True),
-                self._feats.copy(deep=True) if self._feats is not None else None,
-                self._links.copy(deep=True) if self._links is not None else None,
+                self._words.copy(),
+                self._feats.copy() if self._feats is not None else None,
+                self._links.copy() if self._links is not None else None,
                 list(self._word_dict) if self._word_dict is not None else None,
                 list(self._doc_categories) if self._doc_categories is not None else None,
-                self._order.copy(deep=True) if self._order is not None else None
+                self._order.copy() if self._order is not None else None
             )
         else:
             return DataSet(
-- 
2.43.0


From dbb2c53e00020e4520f8bbaf26a3f93df0c18401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 012/148] fix: words_with_min_freq failed without a word
 dictionary, or with a list of words

---
 sidetopics/model/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index d56376a..7287f6d 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -162,11 +162,16 @@ class DataSet:
             )
 
     def words_with_min_freq(self, min_doc_count_incl: int = 10) -> "DataSet":
-        docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)))
+        docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)), axis=0)
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
-        pruned_dict = self._word_dict[list(retain_word_ids)]
+        if self._word_dict is None:
+            pruned_dict = None
+        elif isinstance(self._word_dict, np.ndarray):
+            pruned_dict = self._word_dict[retain_word_ids]
+        else:
+            pruned_dict = [self._word_dict[w] for w in retain_word_ids]
 
         return DataSet(
             pruned_words,
-- 
2.43.0


From 7ab36875c39d6690357a7a2ce5b41232a4d3fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 013/148] fix: doc_lens of a single document was not an array

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 7287f6d..f076f2d 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -218,7 +218,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)))
+        return np.squeeze(np.array(self.words.sum(axis=1)), axis=1)
 
     @property
     def order(self):
-- 
2.43.0


From 03899f394ea984d2d901227c162b6f3d6eaa5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 014/148] fix: document completion could move more occurrences
 than there are, leaving negative counts

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index f076f2d..429c22e 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -474,7 +474,7 @@ class DataSet:
         dat    = self._words.data
         jitter = rng.normal(scale=est_prop * 0.666, size=len(dat))
         evl    = dat + jitter
-        est    = np.around(evl * est_prop)
+        est    = np.clip(np.around(evl * est_prop), 0, dat)
         evl    = dat - est
 
         est = est.astype(self._words.dtype)
-- 
2.43.0


From e8f06438cd443c131a47d2f49b2f4e28f3704633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 015/148] fix: document completion lost the order, and kept the
 categories of documents it removed

---
 sidetopics/model/common.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 429c22e..32ca870 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -483,9 +483,11 @@ class DataSet:
         words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
+        doc_categories, order = self._doc_categories, self._order
+
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)), axis=1)
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)), axis=1)
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
@@ -493,6 +495,8 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
+                doc_categories = _select_categories(self._doc_categories, tq_good)
+                order = order[tq_good]
                 print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
                 
                 # FIXME Need to handle links and feats as well...
@@ -500,8 +504,8 @@ class DataSet:
                     raise ValueError ("Not implemented for features and/or links")
 
         return \
-            DataSet(words_train, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug), \
-            DataSet(words_query, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug)
+            DataSet(words_train, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug), \
+            DataSet(words_query, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug)
 
 
     def link_prediction_split(self, symmetric=True, seed=0xC0FFEE):
-- 
2.43.0


From 67a70377b6439af76d50d7ad77e50e9834f82c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 016/148] fix: link splits lost the order of the documents

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 32ca870..c61fc38 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -528,8 +528,8 @@ class DataSet:
             links_train, links_query = _split(self._links, rng)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories)
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order)
 
 
     def folded_link_prediction_split(self, min_link_count, fold_id, fold_count, symmetric=False):
@@ -551,8 +551,8 @@ class DataSet:
             links_train, links_query, docSubset = _folded_split(self._links, fold_id, fold_count, min_link_count)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories), \
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order), \
             docSubset
 
     def split_on_feature(self, features):
-- 
2.43.0


From 20d5584c1d8db69e855914bbebfd7652c3a9dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 017/148] fix: link prediction splits used a fraction as an
 index

---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index c61fc38..f97eb47 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -623,7 +623,7 @@ def _split(X, rng):
 
     ind = np.arange(nnz)
     rng.shuffle (ind)
-    split_point = nnz / 2
+    split_point = nnz // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
@@ -674,7 +674,7 @@ def _split_symm(X, rng):
 
     ind = np.array([i for i in range(nnz) if row[i] >= col[i]], dtype=np.int32)
     rng.shuffle(ind)
-    split_point = len(ind) / 2
+    split_point = len(ind) // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
-- 
2.43.0


From 1b476c0d077fef800335c466c0dc2dd1c98d796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 018/148] fix: symmetric link splits doubled the weight of
 self-links

---
 sidetopics/model/common.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index f97eb47..6142e66 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -639,20 +639,11 @@ def _symm_csr(dat, row, col, shape):
     where the coorindates are for the upper triangle only. These are then copied
     to create the lower-triangle. The returned matrix is in CSR format.
     """
-    count = len(dat)
+    off_diag = row != col  # the diagonal is its own mirror image
 
-    nu_dat = np.ndarray(shape=(count*2,), dtype=dat.dtype)
-    nu_row = np.ndarray(shape=(count*2,),  dtype=row.dtype)
-    nu_col = np.ndarray(shape=(count*2,),  dtype=col.dtype)
-
-    nu_dat[:count] = dat
-    nu_dat[count:] = dat
-
-    nu_row[:count] = row
-    nu_row[count:] = col
-
-    nu_col[:count] = col
-    nu_col[count:] = row
+    nu_dat = np.concatenate((dat, dat[off_diag]))
+    nu_row = np.concatenate((row, col[off_diag]))
+    nu_col = np.concatenate((col, row[off_diag]))
 
     return ssp.coo_matrix((nu_dat, (nu_row, nu_col)), shape=shape).tocsr()
 
-- 
2.43.0


From 04960cbc5c746c4759f421cacc374944cdfc476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 019/148] fix: split_on_feature needed links, and misread
 features that were not double precision

---
 sidetopics/model/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 6142e66..a323800 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -566,15 +566,15 @@ class DataSet:
         data
         """
         def two_dim_reorder(matrix, row_order, col_order):
-            return (matrix[row_order,:])[:,col_order]
+            return None if matrix is None else (matrix[row_order,:])[:,col_order]
 
         Epsilon = 1E-30
         assert self._feats is not None, "Need features to make this split"
         assert len(features) > 0, "Need at least two features for this to work"
 
-        mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
+        mask      = np.asarray(abs(self._feats[:,features]).sum(axis=1)).reshape(-1)
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.ndarray(buffer=self._feats[:,features[0]].todense(), shape=(self._feats.shape[0],)) > Epsilon)[0]
+        queryDocs = np.where(np.asarray(self._feats[:,[features[0]]].sum(axis=1)).reshape(-1) > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
-- 
2.43.0


From bbbae85795faab07db82c110f6f145c449244f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 020/148] fix: doc_lens of a single document was not an array
 (any matrix type)

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index a323800..bd58a75 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -218,7 +218,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)), axis=1)
+        return np.array(self.words.sum(axis=1)).reshape(-1)
 
     @property
     def order(self):
-- 
2.43.0


From e862ca1c7fbf4bc2965a13d16efc374d50e1ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 021/148] fix: DataSet accepted dense matrices for conversion,
 but did not convert them

---
 sidetopics/model/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index bd58a75..2b8a995 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -39,7 +39,8 @@ class DataSet:
             assert links is None or (type(links) is ssp.csr_matrix or auto_convert_to_sparse), "Links are not stored as a sparse CSR matrix"
             if words.shape[1] < 100:
                 logging.warning("Fewer than 100 words in the document-words matrix, which seems unlikely")
-        else:
+
+        if debug or auto_convert_to_sparse:
             if type(words) is not ssp.csr_matrix:
                 logging.warning("Converting words to sparse CSR matrix")
                 words = ssp.csr_matrix(words)
-- 
2.43.0


From 93730ed5a0897d328f5a80e38a346dad1936fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 022/148] fix: a limited DataSet kept all the documents, only
 its order was shortened

---
 sidetopics/model/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 2b8a995..e8223f3 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -61,6 +61,7 @@ class DataSet:
                 if order is None \
                 else order[:limit]
             num_docs = limit
+            self._reorder(np.arange(limit))
 
         if order is not None:
             self._order = order
-- 
2.43.0


From 205961e1540d40e528c71b7fbd07a37bef0a0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 023/148] fix: the order of a DataSet read from files with an
 order was not recorded

---
 sidetopics/model/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index e8223f3..e506448 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -130,6 +130,7 @@ class DataSet:
                          order=None, limit=limit)
         if order is not None:
             result._reorder(order)
+            result._order = result._order[order]
 
         return result
 
-- 
2.43.0


From 334683e95d9ff92e4239adabd2665b120390cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 024/148] fix: cross-validation put documents in several folds
 when folds do not divide the documents

---
 sidetopics/model/common.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index e506448..6e50c98 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -4,7 +4,6 @@ import numpy as np
 import numpy.random as rd
 import scipy.sparse as ssp
 import pickle as pkl
-from math import ceil
 import logging
 
 from gensim.corpora.dictionary import Dictionary
@@ -399,14 +398,12 @@ class DataSet:
         assert num_folds > 1, "The number of folds should be greater than one"
 
         doc_count = self.doc_count
-        query_size  = ceil(doc_count / num_folds)  # a single fold
-        train_size = doc_count - query_size
+        # folds differ by at most one document, and no document is in two of them
+        start = (doc_count * test_fold_id) // num_folds
+        end   = (doc_count * (test_fold_id + 1)) // num_folds
 
-        start = query_size * test_fold_id
-        end   = start + query_size
-
-        query_range = np.arange(start, end) % doc_count
-        train_range = np.arange(end, end + train_size) % doc_count
+        query_range = np.arange(start, end)
+        train_range = np.arange(end, start + doc_count) % doc_count
 
         return train_range, query_range
 
-- 
2.43.0


From 35a0a8a29c64f3e34d0bd6cd98adfbab446336ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 025/148] fix: features with a mean of one or more were taken
 for an intercept

---
 sidetopics/model/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 6e50c98..06df884 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -291,8 +291,10 @@ class DataSet:
         if self._feats is None:
             return;
 
-        means = self._feats.mean(axis=0)
-        if means.max() < (1-1E-30):
+        # a column is all ones if its mean, and the mean of its squares, are both one
+        squares = self._feats.multiply(self._feats) if ssp.issparse(self._feats) else self._feats * self._feats
+        is_intercept = (self._feats.mean(axis=0) == 1) & (squares.mean(axis=0) == 1)
+        if not is_intercept.any():
             self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
             return True
 
-- 
2.43.0


From 1ff42e8d6ee2016cef6458efe2f401129916bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 026/148] fix: a binary link matrix turned stored zeros into
 links

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 06df884..8b8f276 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -329,7 +329,7 @@ class DataSet:
         Converts the link matrix to a binary 0-1 matrix in-place.
         """
         assert self._links is not None, "Can't call this if there are no links"
-        self._links.data.fill(1)
+        self._links.data[:] = (self._links.data != 0)
 
 
     def prune_and_shuffle(self, min_unique_word_count=0.5, min_link_count=0, seed=0xC0FFEE):
-- 
2.43.0


From f628c17ee79ac480d968ff252e5a075e1b54e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:10 +0000
Subject: [PATCH 027/148] fix: an intercept was not recognised when 1/documents
 is not exact

---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 8b8f276..86d8535 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -291,9 +291,9 @@ class DataSet:
         if self._feats is None:
             return;
 
-        # a column is all ones if its mean, and the mean of its squares, are both one
+        # a column is all ones if its sum, and the sum of its squares, are both the document count
         squares = self._feats.multiply(self._feats) if ssp.issparse(self._feats) else self._feats * self._feats
-        is_intercept = (self._feats.mean(axis=0) == 1) & (squares.mean(axis=0) == 1)
+        is_intercept = (self._feats.sum(axis=0) == self.doc_count) & (squares.sum(axis=0) == self.doc_count)
         if not is_intercept.any():
             self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
             return True
-- 
2.43.0


From 0ec96177fb7f0321e8bcedb386de0bcdb1d1b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:35 +0000
Subject: [PATCH 028/148] fix: precision and recall at m looked at the first m
 + 1 links

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 73a866c..38860dc 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -149,7 +149,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
         for i in range(len(ms)):
             m = ms[i]
             # Calculate the precision at m
-            recv_set = set(recv_indices[:(m+1)])
+            recv_set = set(recv_indices[:m])
             if len (recv_set) == 0:
                 print ("Ruh-ro")
                 continue
-- 
2.43.0


From 5b263b0048085157322ff11604977cc49bd27b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:35 +0000
Subject: [PATCH 029/148] fix: precision at m failed for documents in no group
 (always, without groups), and altered the caller's groups

---
 sidetopics/model/evals.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 38860dc..260c8cd 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -106,12 +106,10 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     docCounts
     '''
     def find_group (outLinkCount, rangeTuples):
-        i = 0
-        while rangeTuples[i][0] == AllGroups[0] \
-            or outLinkCount < rangeTuples[i][0] \
-            or outLinkCount > rangeTuples[i][1]:
-            i += 1
-        return rangeTuples[i]
+        for group in rangeTuples:
+            if group != AllGroups and group[0] <= outLinkCount <= group[1]:
+                return group
+        return None
 
     if at is None:
         at = [100]
@@ -123,7 +121,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     if groups is None:
         groups = [ AllGroups ]
     if not AllGroups in groups:
-        groups.append(AllGroups)
+        groups = list(groups) + [ AllGroups ]
 
     precs_at_m = {group : [0] * len(ms) for group in groups}
     recs_at_m  = {group : [0] * len(ms) for group in groups}
@@ -157,13 +155,15 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
             prec_at_m = len(recv_set.intersection(expt_set)) / m
             rec_at_m  = len(recv_set.intersection(expt_set)) / len(expt_set)
 
-            precs_at_m[g][i] += prec_at_m
-            recs_at_m[g][i]  += rec_at_m
+            if g is not None:
+                precs_at_m[g][i] += prec_at_m
+                recs_at_m[g][i]  += rec_at_m
 
             precs_at_m[AllGroups][i] += prec_at_m
             recs_at_m[AllGroups][i]  += rec_at_m
 
-        docCounts[g] += 1
+        if g is not None:
+            docCounts[g] += 1
         docCounts[AllGroups] += 1
 
     # Return the mean of average-precisions
-- 
2.43.0


From 20a3f72c34f05594199a91d0a981efe26ca85f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:58 +0000
Subject: [PATCH 030/148] fix: the Gibbs sampler wrote outside its counts when
 the random draw was exactly zero

---
 sidetopics/model/lda_gibbs_fast.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index c3c5674..72a147d 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -243,12 +243,12 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
+                    k = 0
                     draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
-                    while draw > 0:
-                        k = (k + 1) % K # shouldn't need mod, but to be safe...
+                    while k < K - 1 and draw > dist[k]:
                         draw -= dist[k]
-                        
+                        k += 1
+
                     z_list[n] = k
                     
                     # Add current word's new topic to suff stats
-- 
2.43.0


From cab5cf980fc805bc1edd4318bdfe28e31ef73e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:58 +0000
Subject: [PATCH 031/148] fix: the Gibbs sampler could not take a single
 document

---
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index 72a147d..6351626 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -307,7 +307,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).reshape(-1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
     
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
-- 
2.43.0


From bd80e125234125a36daa6fd1ce224a44d4b6bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:58 +0000
Subject: [PATCH 032/148] fix: querying a Gibbs LDA model rescaled its word
 distributions

---
 sidetopics/model/lda_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 980f956..f09af00 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -253,7 +253,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, numSamples, model.processed, dtype, name), \
+        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, model.numSamples, model.processed, dtype, name), \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From f10c36b041f39a936895053c07543ce13d1cc3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:58 +0000
Subject: [PATCH 033/148] fix: the Gibbs sampler ignored the seed it was given

---
 sidetopics/model/lda_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index f09af00..f97bd01 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -176,8 +176,8 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
 
 
 def seed_rng(seed):
-    rd.seed(0xC0FFEE)
-    compiled.initGlobalRng(0xC0FFEE)
+    rd.seed(seed)
+    compiled.initGlobalRng(seed)
 
 
 def train (_, model, query, plan):
-- 
2.43.0


From 56d8b034fd7bde25a500c89c500c6c11175092aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:58 +0000
Subject: [PATCH 034/148] fix: short Gibbs runs took no sample at all, so the
 results were NaN

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index f97bd01..1657a5e 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -171,6 +171,7 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
         thin = 5 if iterations <= 100 \
             else 10 if iterations <= 1000 \
             else 50
+        thin = min(thin, max(1, iterations)) # at least one sample is needed
 
     return TrainPlan(iterations + burnIn, burnIn, thin, logFrequency, debug)
 
-- 
2.43.0


From d07aa7f6654a4b384a72309eb54e1f0b932859c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:38 +0000
Subject: [PATCH 035/148] fix: the DMR sampler wrote outside its counts when
 the random draw was exactly zero, and could not take a single document

---
 sidetopics/model/dmr_fast.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 276c3f3..8658d23 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -254,11 +254,11 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
+                    k = 0
                     draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
-                    while draw > 0:
-                        k = (k + 1) % K # shouldn't need mod, but to be safe...
+                    while k < K - 1 and draw > dist[k]:
                         draw -= dist[k]
+                        k += 1
 
                     z_list[n] = k
 
@@ -366,7 +366,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).reshape(-1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
 
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
-- 
2.43.0


From 9734df25847dbdc2b8912ed347313829b3a5c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:07 +0000
Subject: [PATCH 036/148] fix: DMR could only take 16-bit word counts

---
 sidetopics/model/dmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6fa3761..5d04ec6 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -142,7 +142,7 @@ def newQueryState(data, modelState, debug=False):
     
     D,T = data.words.shape
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
-    w_list, docLens = compiled.flatten(data.words)
+    w_list, docLens = compiled.flatten(data.words.astype(np.uint16))
     docLens = np.asarray(docLens, dtype=np.int32)
     if debug: print("Done")
     
-- 
2.43.0


From 0818bdeec229a17e8249efa17acbb10be864ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:07 +0000
Subject: [PATCH 037/148] fix: the DMR sampler used the logarithm of the topic
 prior as the prior

---
 sidetopics/model/dmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 5d04ec6..fb2dd62 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -196,7 +196,7 @@ def train (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     if debug: print ("Burning")
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
@@ -206,7 +206,7 @@ def train (data, model, query, plan):
     if debug: print ("Training")
     sample_count = 0
     for _ in range(0, iterations - burnIn, weightUpdateInterval):
-        alphas[:,:] = X.dot(weights.T)
+        alphas[:,:] = np.exp(X.dot(weights.T))
         sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
                 alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
                 vocabPrior, False, debug)
@@ -339,7 +339,7 @@ def query (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
-- 
2.43.0


From 910f36c1bdfa29bd19fa97c1b63ea1fb555a3d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:07 +0000
Subject: [PATCH 038/148] fix: DMR wrote samples beyond the end of its sample
 store, and over earlier ones

---
 sidetopics/model/dmr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index fb2dd62..de109e6 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -159,6 +159,7 @@ def newTrainPlan (iterations, burnIn = -1, thin = -1, weightUpdateInterval = -1,
         thin = 5 if iterations <= 500 \
             else 10 if iterations <= 1000 \
             else 50
+        thin = min(thin, max(1, iterations)) # at least one sample is needed
 
     if burnIn < 0:
         burnIn = iterations // 4
@@ -205,10 +206,11 @@ def train (data, model, query, plan):
     # True samples
     if debug: print ("Training")
     sample_count = 0
-    for _ in range(0, iterations - burnIn, weightUpdateInterval):
+    for start in range(0, iterations - burnIn, weightUpdateInterval):
+        batch = min(weightUpdateInterval, iterations - burnIn - start)
         alphas[:,:] = np.exp(X.dot(weights.T))
-        sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
-                alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
+        sample_count += compiled.sample (batch, thin, w_list, z_list, docLens, \
+                alphas, ndk, nkv, nk, n_dk_samples[:,:,sample_count:], topicSum, vocabSum, \
                 vocabPrior, False, debug)
 
         if debug: # Print out the perplexity so far
@@ -218,7 +220,8 @@ def train (data, model, query, plan):
             perp = perplexity_from_like(likely, data)
             print ("Sample-Count = %3d  Perplexity = %7.2f" % (sample_count, perp))
 
-        updateWeights(n_dk_samples, sample_count, X, weights, debug)
+        if sample_count > 0:
+            updateWeights(n_dk_samples, sample_count, X, weights, debug)
     
 #     compiled.freeGlobalRng()
     
-- 
2.43.0


From 3ce23b88f61b90f4594f67f306570cfac66742f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:07 +0000
Subject: [PATCH 039/148] fix: querying a DMR model rescaled its word
 distributions and took more samples than it can hold

---
 sidetopics/model/dmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index de109e6..f3100db 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -348,12 +348,12 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     # True samples
-    sample_count = compiled.sample (iterations, thin, w_list, z_list, docLens, \
+    sample_count = compiled.sample (iterations - burnIn, thin, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
     
     return \
-        ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
+        ModelState (K, T, weights, topicPrior, vocabPrior, model.n_dk_samples, topicSum, vocabSum, model.numSamples, dtype, name), \
         QueryState (w_list, z_list, docLens, topicSum, sample_count)
 
 
-- 
2.43.0


From f8cf08ca05df6d2f749b40f1422989bd23153d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 040/148] fix: a copy of a CVB model had its counts in place of
 its variances

---
 sidetopics/model/lda_cvb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7479cf7..d048dee 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -76,9 +76,9 @@ def newModelFromExisting(model):
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-        None if model.v_dk is None else model.n_dk.copy(), \
-        None if model.v_kt is None else model.n_kt.copy(), \
-        None if model.v_k  is None else model.n_k.copy(),  \
+        None if model.v_dk is None else model.v_dk.copy(), \
+        None if model.v_kt is None else model.v_kt.copy(), \
+        None if model.v_k  is None else model.v_k.copy(),  \
         model.dtype,       \
         model.name)
 
-- 
2.43.0


From a9aa672771d0a35b6f634ab8f0fe808c6bc9c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 041/148] fix: training a CVB model further replaced its topic
 counts by their variances

---
 sidetopics/model/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index d048dee..399ac02 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -319,7 +319,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
                                  # sum of old and new, and can just be copied across
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
             m_v_kt[:,:] = q_v_kt
-            m_n_k[:]    = q_v_k
+            m_v_k[:]    = q_v_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
-- 
2.43.0


From 2c6e79ac8f0f1addc1c5ce75f727d08423cc3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 042/148] fix: single-precision CVB added the mean instead of
 the variance of an assignment to the variances

---
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 4a5965a..6b47293 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -501,7 +501,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             q_n_kt[k,t] += diff
                             q_n_k[k]    += diff
 
-                            diff         = mems[k] - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
+                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
                             q_v_dk[d,k] += diff
                             q_v_kt[k,t] += diff
                             q_v_k[k]    += diff
-- 
2.43.0


From 93bfd35db5821172d51f6d2f6da35e3f8d566966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 043/148] fix: double-precision CVB computed its updates from
 single-precision terms

---
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 6b47293..e26e476 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -567,7 +567,7 @@ def iterate_f64(int iterations, int D_query, int D_train, int K, int T, \
         double sot, esot
         double topicPrior = <double> topicPriorDbl
         double vocabPrior = <double> vocabPriorDbl
-        float term1, term2, term3
+        double term1, term2, term3
 
     try:
         with nogil:
-- 
2.43.0


From 5d59efb28de7265904dd1bb281dc850e0dae317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 044/148] fix: the entropy of topic assignments was NaN when an
 assignment had no chance

---
 sidetopics/model/lda_cvb0_fast.pyx | 6 ++++--
 sidetopics/model/lda_cvb_fast.pyx  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb0_fast.pyx b/sidetopics/model/lda_cvb0_fast.pyx
index 0c8a989..981d2c0 100644
--- a/sidetopics/model/lda_cvb0_fast.pyx
+++ b/sidetopics/model/lda_cvb0_fast.pyx
@@ -610,7 +610,8 @@ def jagged_entropy_f32 (float[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
@@ -637,7 +638,8 @@ def jagged_entropy_f64 (double[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index e26e476..11abacd 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -675,7 +675,8 @@ def jagged_entropy_f32 (float[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
@@ -702,7 +703,8 @@ def jagged_entropy_f64 (double[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
-- 
2.43.0


From f32e622ff902896c64f41e3f05d462e1fe06e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 045/148] fix: the CVB bounds subtracted the entropy of the
 assignments instead of adding it

---
 sidetopics/model/lda_cvb.py  | 4 ++--
 sidetopics/model/lda_cvb0.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 399ac02..e63d57b 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -462,9 +462,9 @@ def var_bound(data, modelState, queryState):
         # The entropy of z_dnk. Have to do this in a loop as z_dnk is
         # is jagged in it's third dimension.
         if modelState.dtype == np.float32:
-            bound -= compiled.jagged_entropy_f32 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f32 (z_dnk, docLens)
         elif modelState.dtype == np.float64:
-            bound -= compiled.jagged_entropy_f64 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f64 (z_dnk, docLens)
         else:
             raise ValueError ("No implementation defined for dtype " + str(modelState.dtype))
     except OverflowError:
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 0316bfb..34a2d83 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -431,9 +431,9 @@ def log_likelihood_expected(data, modelState, queryState):
         # The entropy of z_dnk. Have to do this in a loop as z_dnk is
         # is jagged in it's third dimension.
         if modelState.dtype == np.float32:
-            bound -= compiled.jagged_entropy_f32 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f32 (z_dnk, docLens)
         elif modelState.dtype == np.float64:
-            bound -= compiled.jagged_entropy_f64 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f64 (z_dnk, docLens)
         else:
             raise ValueError ("No implementation defined for dtype " + str(modelState.dtype))
     except OverflowError:
-- 
2.43.0


From 0c419366c074a11bdd00cd982348a19f9fce5bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 046/148] fix: the CVB bounds mixed the model's topic-word
 counts with the query's topic counts

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index e63d57b..cc287b0 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -435,7 +435,7 @@ def var_bound(data, modelState, queryState):
     K     = modelState.K
     n_kt  = modelState.n_kt
     n_dk  = queryState.n_dk
-    n_k   = queryState.n_k
+    n_k   = modelState.n_k
     z_dnk = queryState.z_dnk
     a     = modelState.topicPrior
     b     = modelState.vocabPrior
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 34a2d83..a05081a 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -404,7 +404,7 @@ def log_likelihood_expected(data, modelState, queryState):
     K     = modelState.K
     n_kt  = modelState.n_kt
     n_dk  = queryState.n_dk
-    n_k   = queryState.n_k
+    n_k   = modelState.n_k
     z_dnk = queryState.z_dnk
     a     = modelState.topicPrior
     b     = modelState.vocabPrior
-- 
2.43.0


From b2fca9b36f7e9ac7c2ebd5348c81103b5717e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 047/148] fix: CVB models could not take a single document

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index cc287b0..d21f800 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -177,7 +177,7 @@ def wordDists(model):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index a05081a..77191c2 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,7 +162,7 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
-- 
2.43.0


From ec81410a6aa8a7d9edf90d6042d07e066838cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:36 +0000
Subject: [PATCH 048/148] fix: LDA trained for more iterations than asked for
 when they were fewer than the log frequency

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 sidetopics/model/lda_svb.py  | 2 +-
 sidetopics/model/lda_vb.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index d21f800..a52c2a3 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 77191c2..1b0f535 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -228,7 +228,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 9fb64b3..0211ecd 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -192,7 +192,7 @@ def train (data, modelState, queryState, trainPlan):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = np.zeros(shape=(logPoints,))
     boundValues  = np.zeros(shape=(logPoints,))
     likelyValues = np.zeros(shape=(logPoints,))
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index b87e766..731fd09 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -185,7 +185,7 @@ def train (data, modelState, queryState, trainPlan):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = np.zeros(shape=(logPoints,))
     boundValues  = np.zeros(shape=(logPoints,))
     likelyValues = np.zeros(shape=(logPoints,))
-- 
2.43.0


From 34466e7ee08a86d6ba5580cc03d92362e2ecb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:36 +0000
Subject: [PATCH 049/148] fix: evaluating the likelihood of a CVB model altered
 the model and the query by rounding errors

---
 sidetopics/model/lda_cvb.py  | 11 ++---------
 sidetopics/model/lda_cvb0.py | 11 ++---------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index a52c2a3..2fbba6b 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -399,8 +399,8 @@ def log_likelihood (data, modelState, queryState):
     if np.isscalar(a) or type(a) is float:
         a = constantArray((modelState.K,), a, n_dk.dtype)
 
-    n_dk += a[np.newaxis, :]
-    n_kt += b
+    n_dk = n_dk + a[np.newaxis, :]
+    n_kt = n_kt + b
 
     # Scale to create distributions over doc-topics and topic-vocabs
     doc_norm = n_dk.sum(axis = 1)
@@ -413,13 +413,6 @@ def log_likelihood (data, modelState, queryState):
     # faster still by not materializing the (admittedly sparse) matrix
     ln_likely = sparseScalarProductOfSafeLnDot(data.words.astype(n_dk.dtype), n_dk, n_kt).sum()
 
-    # Rescale back to word-counts
-    n_dk *= doc_norm[:,np.newaxis]
-    n_kt *= voc_norm[:,np.newaxis]
-
-    n_dk -= a[np.newaxis, :]
-    n_kt -= b
-
     return ln_likely
 
 
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 1b0f535..ed9fc34 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -368,8 +368,8 @@ def log_likelihood_point(data, modelState, queryState):
     W = data.words if data.words.dtype is modelState.dtype \
         else data.words.astype(modelState.dtype)
 
-    n_dk += a[np.newaxis, :]
-    n_kt += b
+    n_dk = n_dk + a[np.newaxis, :]
+    n_kt = n_kt + b
 
     # Scale to create distributions over doc-topics and topic-vocabs
     doc_norm = n_dk.sum(axis = 1)
@@ -382,13 +382,6 @@ def log_likelihood_point(data, modelState, queryState):
     # faster still by not materializing the (admittedly sparse) matrix
     ln_likely = sparseScalarProductOfSafeLnDot(W, n_dk, n_kt).sum()
 
-    # Rescale back to word-counts
-    n_dk *= doc_norm[:,np.newaxis]
-    n_kt *= voc_norm[:,np.newaxis]
-
-    n_dk -= a[np.newaxis, :]
-    n_kt -= b
-
     return ln_likely
 
 
-- 
2.43.0


From 86b5eeeb64a9aaeb6b5a165104e283711ba26a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:36 +0000
Subject: [PATCH 050/148] fix: CVB models could not be trained with, or copied
 with, a scalar topic prior

---
 sidetopics/model/lda_cvb.py  | 4 ++--
 sidetopics/model/lda_cvb0.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 2fbba6b..e8c9dd0 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -71,7 +71,7 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
+        None if model.topicPrior is None else np.copy(model.topicPrior)[()], \
         model.vocabPrior, \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
@@ -227,7 +227,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         modelState.K, modelState.topicPrior, modelState.vocabPrior, \
         modelState.n_dk, modelState.n_kt, modelState.n_k, \
         modelState.v_dk, modelState.v_kt, modelState.v_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index ed9fc34..7dc6620 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -73,7 +73,7 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
+        None if model.topicPrior is None else np.copy(model.topicPrior)[()], \
         model.vocabPrior, \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
@@ -216,7 +216,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         queryState.W_list, queryState.docLens, queryState.n_dk, queryState.n_kt, queryState.n_k, queryState.z_dnk
     K, topicPrior_, vocabPrior, m_n_dk, m_n_kt, m_n_k = \
         modelState.K, modelState.topicPrior, modelState.vocabPrior, modelState.n_dk, modelState.n_kt, modelState.n_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
-- 
2.43.0


From dae82546a76c5208afebcd2ef5b933cf3810848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:24 +0000
Subject: [PATCH 051/148] fix: converting the links of a dataset to binary
 altered those of the datasets it shares them with

---
 sidetopics/model/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 86d8535..119e94d 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -329,6 +329,7 @@ class DataSet:
         Converts the link matrix to a binary 0-1 matrix in-place.
         """
         assert self._links is not None, "Can't call this if there are no links"
+        self._links = self._links.copy() # which other datasets may share
         self._links.data[:] = (self._links.data != 0)
 
 
-- 
2.43.0


From 46d2bca5e12011ae5028f1ab369432f5744035c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 052/148] fix: training a CVB model further left the model's
 counts in those of the query, which counted them again in the next run

---
 sidetopics/model/lda_cvb.py  | 27 ++++++++++++++-------------
 sidetopics/model/lda_cvb0.py | 17 +++++++++--------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index e8c9dd0..20f5c6f 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -304,22 +304,23 @@ def train (data, modelState, queryState, trainPlan, query=False):
         boundValues.append  (var_bound_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
         likelyValues.append (log_likely_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
 
-    # Now return the results
-    if query: # Model is unchanged, query is changed
-        if m_n_dk is not None:
-            np.subtract(q_n_kt, m_n_kt, out=q_n_kt) # q_n_kt -= m_n_kt
-            np.subtract(q_v_kt, m_v_kt, out=q_v_kt)
-            np.subtract(q_n_k,  m_n_k,  out=q_n_k)  # q_n_k  -= m_n_k
-            np.subtract(q_v_k,  m_v_k,  out=q_v_k)  # q_n_k  -= m_n_k
-    else: # train # Model is changed. Query is changed
+    # Now return the results. Recall we _added_ the model's counts to the query's before
+    # training, so take them away again.
+    if m_n_dk is not None:
+        np.subtract(q_n_kt, m_n_kt, out=q_n_kt) # q_n_kt -= m_n_kt
+        np.subtract(q_v_kt, m_v_kt, out=q_v_kt)
+        np.subtract(q_n_k,  m_n_k,  out=q_n_k)  # q_n_k  -= m_n_k
+        np.subtract(q_v_k,  m_v_k,  out=q_v_k)  # q_n_k  -= m_n_k
+
+    if not query: # Model is changed. Query is changed
         if m_n_dk is not None: # Amend existing
             m_n_dk = np.vstack((m_n_dk, q_n_dk))
-            m_n_kt[:,:] = q_n_kt # Recall we _added_ the m_n_kt counts to the query
-            m_n_k[:]    = q_n_k  # before training, so now the query-counts contain the
-                                 # sum of old and new, and can just be copied across
+            np.add(m_n_kt, q_n_kt, out=m_n_kt)
+            np.add(m_n_k,  q_n_k,  out=m_n_k)
+
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
-            m_v_kt[:,:] = q_v_kt
-            m_v_k[:]    = q_v_k
+            np.add(m_v_kt, q_v_kt, out=m_v_kt)
+            np.add(m_v_k,  q_v_k,  out=m_v_k)
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 7dc6620..e004307 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -287,16 +287,17 @@ def train (data, modelState, queryState, trainPlan, query=False):
         boundValues.append  (var_bound_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
         likelyValues.append (log_likely_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
 
-    # Now return the results
-    if query: # Model is unchanged, query is changed
-        if m_n_dk is not None:
-            np.subtract(q_n_kt, m_n_kt, out=q_n_kt) # q_n_kt -= m_n_kt
-            np.subtract(q_n_k,  m_n_k,  out=q_n_k)  # q_n_k  -= m_n_k
-    else: # train # Model is changed (or flat-out created). Query is changed
+    # Now return the results. Recall we _added_ the model's counts to the query's before
+    # training, so take them away again.
+    if m_n_dk is not None:
+        np.subtract(q_n_kt, m_n_kt, out=q_n_kt) # q_n_kt -= m_n_kt
+        np.subtract(q_n_k,  m_n_k,  out=q_n_k)  # q_n_k  -= m_n_k
+
+    if not query: # Model is changed (or flat-out created). Query is changed
         if m_n_dk is not None: # Amend existing
             m_n_dk = np.vstack((m_n_dk, q_n_dk))
-            m_n_kt[:,:] = q_n_kt
-            m_n_k[:]    = q_n_k
+            np.add(m_n_kt, q_n_kt, out=m_n_kt)
+            np.add(m_n_k,  q_n_k,  out=m_n_k)
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
-- 
2.43.0


From 8a28ffd22415151a2d7f7738154dbcf5b8bf33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:54 +0000
Subject: [PATCH 053/148] fix: querying an LDA VB model altered its word
 distributions

---
 sidetopics/model/lda_vb_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c6a0a10..3ed7891 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -407,6 +407,9 @@ def train(data, model, query, plan, updateVocab=True):
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
             grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
 
+        if not updateVocab:
+            continue # Querying, so only the topics are inferred
+
         if rateAlgor == RateAlgorBatch:
             wordDists[:, :] = grad[:, :]
         else:
-- 
2.43.0


From 808900c5f837cf54da3e2d628b43f3fa71171057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:54 +0000
Subject: [PATCH 054/148] fix: LDA VB could not be run on a single document

---
 sidetopics/model/lda_vb_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 3ed7891..cfcff24 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -122,7 +122,7 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
@@ -133,7 +133,7 @@ def newQueryState(data, modelState, debug=False):
     topicDists *= docLens[:, np.newaxis]
     topicDists += modelState.topicPrior[np.newaxis, :]
 
-    return QueryState(docLens, topicDists, debug)
+    return QueryState(docLens, topicDists, False)
 
 
 def pruneQueryState (query, indices):
-- 
2.43.0


From 307a14456da4cdd13fc5b5a0d8cfce7b839f3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:52 +0000
Subject: [PATCH 055/148] fix: the likelihood of an LDA VB model could not be
 had for documents whose counts are of another type

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index cfcff24..b82868d 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -203,7 +203,7 @@ def log_likelihood (data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
+    wordLikely = sparseScalarProductOfSafeLnDot(data.words.astype(model.dtype), tops, wordDists(model)).sum()
 
     return wordLikely
 
-- 
2.43.0


From 3c3bb0332376a84f4aed13fcbaf7701487025a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 056/148] fix: LDA VB took no vector as a vocabulary prior, and
 mistook numpy scalars for vectors

---
 sidetopics/model/lda_vb_python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index b82868d..6ad3a7c 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -89,7 +89,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype) # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype) # From Griffiths and Steyvers 2004
     if vocabPrior is None:
         vocabPrior = VocabPrior
@@ -399,7 +399,7 @@ def train(data, model, query, plan, updateVocab=True):
     # Start traininng
     d = -1
     for b in range(batchCount * iterations):
-        grad.fill(vocabPrior)
+        grad[:, :] = vocabPrior
         # firstD = d
         for s in range(batchSize):
             d = d + 1 if (d + 1) < D else 0
@@ -807,7 +807,7 @@ def var_bound(data, model, query, z_dnk = None):
 
     # E[ln p(vocabs|vocabPrior)]
     #
-    if type(model.vocabPrior) is float or type(model.vocabPrior) is int:
+    if np.isscalar(model.vocabPrior):
         prob_vocabs = K * (fns.gammaln(wordPrior * T) - T * fns.gammaln(wordPrior)) \
                + np.sum((wordPrior - 1) * (diWordDists - diSumWordDists[:, np.newaxis] ))
     else:
-- 
2.43.0


From 69cd520cd55090b2f33214a4e276f3315a4718bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 057/148] fix: mixture models could not be run on a single
 document

---
 sidetopics/model/mom_em.py    | 4 ++--
 sidetopics/model/mom_gibbs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b08f882..b5d2aef 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -110,7 +110,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
     return ModelState(K, topicPrior, vocabPrior, wordDistParam, corpusTopicDistParam, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
@@ -127,7 +127,7 @@ def newQueryState(data, modelState, debug):
     if debug:
         print("Ignoring setting of debug to True")
 
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 917be31..a80defe 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -97,7 +97,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
     return ModelState(K, topicPrior, vocabPrior, wordDists, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
@@ -113,7 +113,7 @@ def newQueryState(data, modelState, debug):
     '''
     if debug:
         print("Ignoring setting of debug to True")
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
-- 
2.43.0


From 93fdc12557a871e4dca76f29df036492e0fda497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 058/148] fix: copies of mixture models shared their priors,
 and priors could not be whole numbers

---
 sidetopics/model/mom_em.py    | 6 +++---
 sidetopics/model/mom_gibbs.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b5d2aef..8d11ea4 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -52,8 +52,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        model.topicPrior.copy(), \
+        np.copy(model.vocabPrior)[()], \
         None if model.wordDistParam is None else model.wordDistParam.copy(),
         None if model.corpusTopicDistParam is None else model.corpusTopicDistParam.copy(),
         model.processed, \
@@ -86,7 +86,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype)
     if vocabPrior is None:
         vocabPrior = VOCAB_PRIOR
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index a80defe..8058ae3 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -45,8 +45,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        model.topicPrior.copy(), \
+        np.copy(model.vocabPrior)[()], \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
@@ -78,7 +78,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype)  # From Griffiths and Steyvers 2004
     if vocabPrior is None:
         vocabPrior = VocabPrior
-- 
2.43.0


From fcd7cc501f19fefc548a3dddd25494b693a11996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 059/148] fix: training a mixture model with a log frequency
 failed, as its bound used fields it lacks

---
 sidetopics/model/mom_em.py | 48 +++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 8d11ea4..43f6fcd 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -392,37 +392,33 @@ def var_bound(data, model, query, topicDistOverride=None):
     '''
     Determines the variational bounds.
     '''
-    bound = 0
-
-    # Unpack the the structs, for ease of access and efficiency
-    docLens, topicMeans = \
-        query.docLens, query.topicDists
-    K, topicPrior, vocabPrior, wordDists, corpusTopicDist, dtype = \
-        model.K, model.topicPrior, model.vocabPrior, model.wordDists, model.corpusTopicDist, model.dtype
-
-    tops = topicDistOverride \
+    resps = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
 
-    # Initialize z matrix if necessary
-    W = data.words
-    D, T = W.shape
-
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    topicLikely = topicMeans.dot(fns.digamma(corpusTopicDist) - fns.digamma(corpusTopicDist.sum()))
-
-
-    # Expected joint
-    like = W.dot(safe_log(wordDists).T) # D*K
-    like += corpusTopicDist[np.newaxis,:]
-    like *= safe_log(topicMeans)
-
-    # Entropy
-    ent = (-topicMeans * safe_log(topicMeans)).sum()
-
-    return like.sum() + ent
+    corpusParam = corpusTopicDistDirichletParam(model)
+    wordParam = wordDistsDirichletParam(model)
+    topicPrior = model.topicPrior
+    vocabPrior = np.zeros((wordParam.shape[1],), dtype=model.dtype) + model.vocabPrior
 
+    lnCorpusTopicDist = fns.digamma(corpusParam) - fns.digamma(corpusParam.sum())
+    lnWordDist = fns.digamma(wordParam) - fns.digamma(wordParam.sum(axis=1))[:, np.newaxis]
 
+    # E[ln p(theta)] + E[ln p(phi)]
+    bound = fns.gammaln(topicPrior.sum()) - fns.gammaln(topicPrior).sum() \
+        + ((topicPrior - 1) * lnCorpusTopicDist).sum()
+    bound += model.K * (fns.gammaln(vocabPrior.sum()) - fns.gammaln(vocabPrior).sum()) \
+        + ((vocabPrior - 1)[np.newaxis, :] * lnWordDist).sum()
 
+    # E[ln p(z|theta)] + E[ln p(x|z,phi)]
+    bound += (resps * lnCorpusTopicDist[np.newaxis, :]).sum()
+    bound += (resps * (data.words @ lnWordDist.T)).sum()
 
+    # H[q(z)] + H[q(theta)] + H[q(phi)]
+    bound -= fns.xlogy(resps, resps).sum()
+    bound -= fns.gammaln(corpusParam.sum()) - fns.gammaln(corpusParam).sum() \
+        + ((corpusParam - 1) * lnCorpusTopicDist).sum()
+    bound -= fns.gammaln(wordParam.sum(axis=1)).sum() - fns.gammaln(wordParam).sum() \
+        + ((wordParam - 1) * lnWordDist).sum()
 
+    return bound
-- 
2.43.0


From 125bc77d98c77e3a157b8f28ecfdfd9227315cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 060/148] fix: querying a mixture model with no iterations
 failed

---
 sidetopics/model/mom_em.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 43f6fcd..31e810f 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -310,7 +310,6 @@ def query(data: DataSet, model: ModelState, queryState: QueryState, plan: TrainP
             logging.info(f"Stopping query after {itr + 1} iterations as change in topic distibution is minimal")
             break
 
-    logging.info(f"Returning query results after {itr + 1} iterations")
     return model, QueryState(queryState.docLens, topicDist, True)
 
 
-- 
2.43.0


From f40326e6bf61c1552fea71f74b9d7ad2238f1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 061/148] fix: short sampling plans of mixture models had a
 thinning of zero

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 8058ae3..27f2536 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -140,7 +140,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     if burnIn is None:
         burnIn = iterations // 4
     if thinning is None:
-        thinning = min(1, iterations // 10)
+        thinning = max(1, iterations // 10)
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, burnIn, thinning)
 
-- 
2.43.0


From ecf011b8f6903e2557009e6d77fe4dc95f1c4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 062/148] fix: sampling a mixture model with a log frequency
 failed

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 27f2536..581d28d 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -282,7 +282,7 @@ def train(data, model, query, plan, updateVocab=True):
 
             iters.append(itr)
             bnds.append(var_bound(data, m, q))
-            likes.append(log_likelihood(data, m, q))
+            likes.append(log_likelihood_point(data, m, q))
 
             perp = perplexity_from_like(likes[-1], W.sum())
             print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (itr, perp, bnds[-1]))
-- 
2.43.0


From 3f7c26d06d828578ea5b89c74680f9ab855b4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 063/148] fix: mixture memberships were sampled with the prior
 less one, so a cluster once empty stayed so or had negative weight

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 581d28d..9d24bdd 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -183,7 +183,7 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-    priorNum = memberships.sum(axis=0) + alpha - 1
+    priorNum = memberships.sum(axis=0) + alpha
     prior = priorNum.copy()
     sample_dists = W.dot(safe_log(wordDists).T)  # d x k
 
-- 
2.43.0


From 01214c653ade067e5af06e49a70477aa37b1b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 064/148] fix: the memberships a mixture sampler starts from
 were not distributions

---
 sidetopics/model/mom_gibbs.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 9d24bdd..fc92c4f 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -121,8 +121,6 @@ def newQueryState(data, modelState, debug=False):
     dist /= dist.sum()
 
     topicDists = rd.dirichlet(dist, size=data.doc_count).astype(modelState.dtype)
-    topicDists *= docLens[:, np.newaxis]
-    topicDists += modelState.topicPrior[np.newaxis, :]
 
     return QueryState(docLens, topicDists, False)
 
-- 
2.43.0


From a2e5dc595a652654066d66ce74b1dc5daf25e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:20 +0000
Subject: [PATCH 065/148] fix: short queries of a mixture sampler returned NaN
 memberships

---
 sidetopics/model/mom_gibbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index fc92c4f..c50d3d9 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -328,6 +328,10 @@ def query(data, model, queryState, queryPlan):
             sample_accum += topicDists
             sample_count += 1
 
+    if sample_count == 0:  # too few iterations to get past the burn-in
+        sample_accum += topicDists
+        sample_count = 1
+
     sample_accum /= sample_count
     return model, QueryState(queryState.docLens, sample_accum, True)
 
-- 
2.43.0


From 0fc8122d8e10622d6d7df1f6a97c8430f058291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:34 +0000
Subject: [PATCH 066/148] fix: the likelihood of a sampled mixture was that of
 an admixture

---
 sidetopics/model/mom_gibbs.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index c50d3d9..5d05851 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -11,7 +11,6 @@ import scipy.special as fns
 from sidetopics.util.misc import constantArray
 
 from sidetopics.model.evals import perplexity_from_like
-from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 from sidetopics.util.overflow_safe import safe_log
 
 from collections import namedtuple
@@ -162,20 +161,20 @@ def topicDists(queryState):
     return queryState.topicDists
 
 
-# TODO Verify this is correct
 def log_likelihood_point(data, model, query, topicDistOverride=None):
     '''
     Return the log-likelihood of the given data according to the model
     and the parameters inferred for datapoints in the query-state object
-
-    Actually returns a vector of D document specific log likelihoods
     '''
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    return wordLikely
-    # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
+
+    # ln p(x|topic=k, word_dist) + ln p(topic=k) for all documents, for all k
+    lls = data.words @ safe_log(wordDists(model)).T
+    lls += safe_log(tops)
+
+    return fns.logsumexp(lls, axis=1).sum()
 
 
 def sample_memberships(W, alpha, wordDists, memberships):
-- 
2.43.0


From f92a15804c11d2158b0dde95a838b03f0933a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:32 +0000
Subject: [PATCH 067/148] fix: the expected likelihood of a mixture failed for
 a single document

---
 sidetopics/model/mom_em.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 31e810f..762107b 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -342,7 +342,7 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
     #     lls += np.log(corpusTopicDist(model))[np.newaxis, :]
 
     # p(X = x|z=k, beta)
-    doc_lens = np.squeeze(np.array(data.words.sum(axis=1)))
+    doc_lens = np.array(data.words.sum(axis=1)).reshape(-1)
 
     beta = wordDistsDirichletParam(model)  # K x T
     beta_sum = beta.sum(axis=1)  # K x 1
-- 
2.43.0


From b22602bf29d6552a24a1479e8eeda98ef29f1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 068/148] fix: a topic model of fewer than ten iterations made
 none when transforming

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7cc7a..eaa84a5 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -197,7 +197,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         self.bound_ = math.nan
 
         self.iterations = iterations
-        self.query_iterations = query_iterations or self.iterations // 10
+        self.query_iterations = query_iterations or max(1, self.iterations // 10)
         self.perp_tolerance = perp_tolerance or 0.1
         self.use_approximations = use_approximations
         self.log_frequency = log_frequency
-- 
2.43.0


From 89f767c1d0863366a4f80bf311dcc9c69b0a6217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 069/148] fix: topic models could not be copied

---
 sidetopics/model/sklearn/lda_cvb.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index eaa84a5..1da25ee 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -230,10 +230,12 @@ class TopicModel(BaseEstimator, TransformerMixin):
         Slightly shallow copy, last query state is not amended
         :return:
         """
-        result = TopicModel()
-        result.set_params(**result.get_params())
-        result._model_state = _lda_cvb0.newModelFromExisting(self._model_state)
+        result = TopicModel(**self.get_params())
+        if self._model_state is not None:
+            module = TopicModelType[self.kind].value
+            result._model_state = module.newModelFromExisting(self._model_state)
         result._last_query_state = self._last_query_state
+        result._last_X = self._last_X
         return result
     
     
-- 
2.43.0


From 15f1c499e7054027817f6866fb324cd10406379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 070/148] fix: scores of mixture models lacked a logarithm

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 1da25ee..814c985 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -559,7 +559,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # sum to get overall likelihood across all topics, adding back in the factor we used
             # to control overflow.
-            result = adj_per_doc_likes.sum(axis=1)
+            result = np.log(adj_per_doc_likes.sum(axis=1))
             result += max_log_like
 
             return result
-- 
2.43.0


From fea59deed0985be5eb922ba54ba7534613004647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 071/148] fix: mixture models took no single weighting for all
 documents when given as a matrix

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 814c985..8a00792 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -547,7 +547,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
             # Get the log-likelihoods for each component
             per_doc_log_likes = (X.words @ lnComps.T)
             if lnWeights.ndim == 1 or ((lnWeights.shape[0] == 1) and (X.words.shape[0] > 1)):
-                per_doc_log_likes += lnWeights[np.newaxis, :]
+                per_doc_log_likes += lnWeights.reshape(1, -1)
             else:
                 per_doc_log_likes += lnWeights
 
-- 
2.43.0


From cf6da340c4a7809dcc31a9282a19cb1824c85378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 072/148] fix: log-likelihoods of documents were those of their
 words

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 8a00792..f46b56b 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -539,7 +539,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
                 words = words.astype(components.dtype)
 
             #       Returns X.words * np.log(weightings @ components)
-            return sparseScalarProductOfSafeLnDot(words, weightings, components)
+            return np.asarray(sparseScalarProductOfSafeLnDot(words, weightings, components).sum(axis=1)).reshape(-1)
         elif model_type.is_mixture():
             lnWeights = safe_log(weightings)
             lnComps = safe_log(components)
-- 
2.43.0


From ec560595de59b6be55b25bc75f16dc5ef22ed060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 073/148] fix: a Gibbs-sampled topic model could not be scored
 with given assignments

---
 sidetopics/model/sklearn/lda_cvb.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index f46b56b..7dba6d7 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -462,16 +462,6 @@ class TopicModel(BaseEstimator, TransformerMixin):
             if not method.is_point_estimate():
                 raise ValueError("Only support point scoring methods for point estimates of y. "
                                  "Pass in the full query-state to get a Bayesian estimate")
-            query_state = self.make_or_resume_query_state(X, should_resume=False)
-            query_state_fields = dir(query_state)
-            if "topicDists" in query_state_fields:
-                query_state = query_state._replace(topicDists=(y * X.doc_lens[:, np.newaxis]).astype(self._model_state.dtype))
-            elif "n_dk" in query_state_fields:
-                n_dk = (y * X.doc_lens[:, np.newaxis]).astype(self._model_state.dtype)
-                n_k = n_dk.sum(axis=0)
-                query_state = query_state._replace(n_dk=n_dk, n_k=n_k)
-            else:
-                raise ValueError("Can't amend query-state")
         elif y_query_state is not None:
             query_state = y_query_state
             y = module.topicDists(y_query_state)
-- 
2.43.0


From 5a37f8d80fb64f5a0c10e08c07fc3264eaf7d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:55 +0000
Subject: [PATCH 074/148] fix: perplexities of a Gibbs-sampled topic model
 could not be had

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 7dba6d7..a33e102 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -19,6 +19,7 @@ from typing import List, Tuple, NamedTuple
 import importlib
 
 from sidetopics.model.common import DataSet
+from sidetopics.model.evals import perplexity_from_like
 import sidetopics.model.lda_cvb0 as _lda_cvb0
 import sidetopics.model.lda_cvb as _lda_cvb
 import sidetopics.model.lda_vb as _lda_vb
@@ -475,7 +476,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
         if method.is_perplexity():
             logging.info("Converting log likelihood to perplexity")
-            return module.perplexity_from_like(
+            return perplexity_from_like(
                 log_prob,
                 X.word_count
             )
-- 
2.43.0


From 761dfd018be22812dd23e228b2f82289bc6e14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 075/148] fix: scoring a topic model forgot the state to resume
 from, and failed for expected likelihoods

---
 sidetopics/model/sklearn/lda_cvb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index a33e102..6f9e41a 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -454,11 +454,12 @@ class TopicModel(BaseEstimator, TransformerMixin):
         elif (y is None) and (y_query_state is None):
             if not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
-                y = self.transform(X)
+                query_state = self.find_query_state_via_transform(X, {}, persist_query_state=False)
             else:
                 test_infer, test_eval = X.doc_completion_split()
-                y = self.transform(test_infer)
+                query_state = self.find_query_state_via_transform(test_infer, {}, persist_query_state=False)
                 X = test_eval
+            y = module.topicDists(query_state)
         elif y is not None:
             if not method.is_point_estimate():
                 raise ValueError("Only support point scoring methods for point estimates of y. "
-- 
2.43.0


From e5ab2df55bb10a8f891369f2fa81c717aa1aba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 076/148] fix: assignments given out by a topic model changed
 as it went on

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 6f9e41a..93fd1b5 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -383,7 +383,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         self._bound = math.nan
         self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))
 
-        ret_val = module.topicDists(inferred_query_state)
+        ret_val = np.array(module.topicDists(inferred_query_state))
         logging.info(f"Obtained a {ret_val.shape} topic-assignments matrix after {iters} iterations")
         return ret_val
 
-- 
2.43.0


From 5c7aa934012695b63fe3c5f6d1881edac6670e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 077/148] fix: transforming left the bound of the last fit in
 place

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 93fd1b5..4fea958 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -380,7 +380,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         self._model_state, inferred_query_state = module.query(X, self._model_state, input_query, query_plan)
 
         self.transform_metrics_ = None
-        self._bound = math.nan
+        self.bound_ = math.nan
         self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))
 
         ret_val = np.array(module.topicDists(inferred_query_state))
-- 
2.43.0


From facc407b1612a41d956c06704c0cb3f3462bf8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:17 +0000
Subject: [PATCH 078/148] fix: scikit-learn's LDA could not be made without a
 tolerance, or for mini-batches

---
 sidetopics/model/sklearn/lda_cvb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 4fea958..d44cb28 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -611,7 +611,7 @@ class WrappedSckitLda(LatentDirichletAllocation):
                 max_iter=iterations,
                 random_state=RandomState(seed),
                 verbose=int(debug),
-                perp_tol=perp_tolerance
+                perp_tol=perp_tolerance or 0.1
             )
         else:
             super().__init__(
@@ -620,12 +620,12 @@ class WrappedSckitLda(LatentDirichletAllocation):
                 topic_word_prior=topic_word_prior,
                 learning_method='online',
                 learning_decay=rate_b,
-                learning_offsetfloat=rate_a,
+                learning_offset=rate_a,
                 batch_size=batchSize,
                 max_iter=iterations,
                 random_state=RandomState(seed),
                 verbose=int(debug),
-                perp_tol=perp_tolerance
+                perp_tol=perp_tolerance or 0.1
             )
         self.skip_init = False
         self.default_scoring_method = default_scoring_method
-- 
2.43.0


From 321b8a275ceab8dd7386d1aef5dc9deb6da408f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:45 +0000
Subject: [PATCH 079/148] fix: the wrappers of scikit-learn's LDA and gensim's
 HDP could not be cloned, and the former not be fitted

---
 sidetopics/model/sklearn/lda_cvb.py | 39 +++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index d44cb28..453b0e6 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -629,12 +629,27 @@ class WrappedSckitLda(LatentDirichletAllocation):
             )
         self.skip_init = False
         self.default_scoring_method = default_scoring_method
+        self.iterations = iterations
+        self.query_iterations = query_iterations
+        self.perp_tolerance = perp_tolerance
+        self.use_approximations = use_approximations
+        self.log_frequency = log_frequency
+        self.batchSize = batchSize
+        self.rate_delay = rate_delay
+        self.forgetting_rate = forgetting_rate
+        self.rate_a = rate_a
+        self.rate_b = rate_b
+        self.rate_algor = rate_algor
+        self.burn_in = burn_in
+        self.thin = thin
+        self.debug = debug
+        self.seed = seed
 
-    def _init_latent_vars(self, n_features: int) -> None:
+    def _init_latent_vars(self, n_features: int, *args, **kwargs) -> None:
         if self.skip_init:
             return
         else:
-            super()._init_latent_vars(n_features)
+            super()._init_latent_vars(n_features, *args, **kwargs)
 
     def fit(self,
             X: Union[DataSet, np.ndarray],
@@ -798,6 +813,26 @@ class WrappedScikitHdp(HdpTransformer):
                 random_state=RandomState(seed)
             )
         self.default_scoring_method = default_scoring_method
+        self.dictionary = dictionary
+        self.n_components = n_components
+        self.doc_topic_prior = doc_topic_prior
+        self.topic_word_prior = topic_word_prior
+        self.iterations = iterations
+        self.query_iterations = query_iterations
+        self.perp_tolerance = perp_tolerance
+        self.use_approximations = use_approximations
+        self.log_frequency = log_frequency
+        self.batchSize = batchSize
+        self.rate_delay = rate_delay
+        self.forgetting_rate = forgetting_rate
+        self.rate_a = rate_a
+        self.rate_b = rate_b
+        self.rate_algor = rate_algor
+        self.burn_in = burn_in
+        self.thin = thin
+        self.debug = debug
+        self.seed = seed
+        self.expected_corpus_size = expected_corpus_size
 
     @property
     def components_(self) -> np.ndarray:
-- 
2.43.0


From e9962bea0ffea167053d57805125e2d6f29cc984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:58 +0000
Subject: [PATCH 080/148] fix: collapsed variational LDA could not be trained
 with a vector of topic priors in another type

---
 sidetopics/model/lda_cvb.py  | 2 ++
 sidetopics/model/lda_cvb0.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 20f5c6f..8d51c24 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -107,6 +107,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
 
     if topicPrior is None:
         topicPrior = constantArray((K,), (50.0 / K) + 0.5, dtype=dtype) # From Griffiths and Steyvers 2004
+    elif not np.isscalar(topicPrior):
+        topicPrior = np.asarray(topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = 0.1 + 0.5
 
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index e004307..a7553bb 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -106,6 +106,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
 
     if topicPrior is None:
         topicPrior = constantArray((K,), (50.0 / K) + 0.5, dtype=dtype) # From Griffiths and Steyvers 2004
+    elif not np.isscalar(topicPrior):
+        topicPrior = np.asarray(topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = 0.1 + 0.5
 
-- 
2.43.0


From ff0eb8367666ac41a4909930bf07d420712de0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 081/148] fix: the command line could not find its models,
 which it imported by the package's old name

---
 sidetopics/model/mtm3.py   |  2 +-
 sidetopics/run/__main__.py | 58 +++++++++++++++++++-------------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 7f36378..3ad0dbc 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -170,7 +170,7 @@ def lda_topics(ldaQuery):
 
 
 def _newQueryStateFromCtm(data, model):
-    import model.ctm_bohning as ctm
+    import sidetopics.model.ctm_bohning as ctm
 
     ctm_model = ctm.newModelAtRandom(data, model.K, VocabPrior, model.dtype)
     ctm_query = ctm.newQueryState(data, model)
diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index f260cb8..b7b67c4 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -48,15 +48,15 @@ StmYvBohningFakeOnline = "stm_yv_bohning_fake_online"
 
 ModelNames = ', '.join([CtmBouchard, CtmBohning, StmYvBouchard, StmYvBohning, StmYvBohningFakeOnline, StmUyvBohning, LdaCvb, LdaCvbZero, LdaVb, LdaSvb, LdaGibbs, Rtm, Mtm, Lro, Dmr, MomEm, MomGibbs])
 
-from model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
-from model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
-from model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
-from model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
-
-from model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
-from model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
-from model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
-from model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
+from sidetopics.model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
+from sidetopics.model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
+from sidetopics.model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
+from sidetopics.model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
+
+from sidetopics.model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
+from sidetopics.model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
+from sidetopics.model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
+from sidetopics.model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
 LDA_SIM_MODEL_NAME = SIM_MODEL_NAME_PREFIX + SIM_MODEL_NAME_SUFFIX
 
 DefaultPriorCov = 0.001
@@ -182,64 +182,64 @@ def run(args):
 
     print ("Building template model... ", end="")
     if args.model == CtmBouchard:
-        import model.ctm as mdl
+        import sidetopics.model.ctm as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == CtmBohning:
-        import model.ctm_bohning as mdl
+        import sidetopics.model.ctm_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBouchard:
-        import model.stm_yv as mdl
+        import sidetopics.model.stm_yv as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohning:
-        import model.stm_yv_bohning as mdl
+        import sidetopics.model.stm_yv_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohningFakeOnline:
-        import model.stm_yv_bohning_fake_online as mdl
+        import sidetopics.model.stm_yv_bohning_fake_online as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == MomEm:
-        import model.mom_em as mdl
+        import sidetopics.model.mom_em as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == MomGibbs:
-        import model.mom_gibbs as mdl
+        import sidetopics.model.mom_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == StmUyvBohning:
-        import model.stm_uv_vec_y_bohning as mdl
+        import sidetopics.model.stm_uv_vec_y_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K=K, Q=Q, P=P,  tv=tv, ltv=ltv, fv=fv, lfv=lfv, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaCvb:
-        import model.lda_cvb as mdl
+        import sidetopics.model.lda_cvb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaCvbZero:
-        import model.lda_cvb0 as mdl
+        import sidetopics.model.lda_cvb0 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaVb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaSvb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaGibbs:
-        import model.lda_gibbs as mdl
+        import sidetopics.model.lda_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Rtm:
-        import model.rtm as mdl
+        import sidetopics.model.rtm as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm:
-        import model.mtm2 as mdl
+        import sidetopics.model.mtm2 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm2:
-        import model.mtm3 as mdl
+        import sidetopics.model.mtm3 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Dmr:
-        import model.dmr as mdl
+        import sidetopics.model.dmr as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Lro:
-        import model.lro_vb as mdl
+        import sidetopics.model.lro_vb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == SimLda:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.LDA, dtype=output_dtype)
     elif args.model == SimTfIdf:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.TF_IDF, dtype=output_dtype)
     else:
         raise ValueError ("Unknown model identifier " + args.model)
-- 
2.43.0


From 3caac7d40a6392a16d1c9e47deb96948fe64da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 082/148] fix: the command line pruned with a parameter that is
 no more

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index b7b67c4..6a0640a 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -165,7 +165,7 @@ def run(args):
     #
     data = DataSet.from_files(args.words, args.feats, args.links, limit=args.limit)
     data.convert_to_dtype(input_dtype)
-    data.prune_and_shuffle(min_doc_len=MinDocLen, min_link_count=MinLinkCountPrune)
+    data.prune_and_shuffle(min_unique_word_count=MinDocLen, min_link_count=MinLinkCountPrune)
 
     print ("The combined word-count of the %d documents is %.0f, drawn from a vocabulary of %d distinct terms" % (data.doc_count, data.word_count, data.words.shape[1]))
     if data.add_intercept_to_feats_if_required():
-- 
2.43.0


From 84bdf2494aaabf3799d8b745020cbb063f512d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 083/148] fix: ranking results of folds could not be combined
 when a group had no documents

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 6a0640a..4e68fdb 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1187,7 +1187,7 @@ def combine_map (old_avgs, old_counts, new_avgs, new_counts):
                { g:cnt for g,cnt in new_counts.items() }
 
     upd_counts = { g:old_count + new_counts[g] for g,old_count in old_counts.items() }
-    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / upd_counts[g] \
+    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / max(1, upd_counts[g]) \
                       for o,n in zip(lst,new_avgs[g])] \
                    for g,lst in old_avgs.items() }
 
-- 
2.43.0


From 6e1b5c1de1cc31d622b38752c99bf2d8690bb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 084/148] fix: evaluations of rankings ran no folds unless told
 how many

---
 sidetopics/run/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 4e68fdb..a96dc12 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -611,7 +611,7 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
     model_files = []
     assert num_folds > 1, "Need at least two folds for this to make any sense whatsoever"
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = num_folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -872,7 +872,7 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
 
     if ldaModel is not None:
         (_, _, _, _, ldaModel, ldaTopics, _) = ldaModel
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -967,7 +967,7 @@ def insample_lro_style_prec_rec (data, mdl, sample_model, train_plan, folds, tar
         else:
             return data
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
-- 
2.43.0


From 170372bed70d1465ee8a795aaff54ce7e93523e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 085/148] fix: evaluating by feature failed when no LDA model
 was given

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index a96dc12..d56eeee 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1163,7 +1163,7 @@ def subsetLda(ldaModel, ldaTopics, doc_indices):
     :return:
     '''
     if ldaModel is None:
-        return None
+        return None, None
     else:
         if ldaModel.name == LDA_GIBBS_MODEL_NAME:
             return ldaModel, pruneLdaGibbsQueryState(ldaTopics, doc_indices)
-- 
2.43.0


From 4fa512562fee362b2d9e232713bdf8dd291ede27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 086/148] fix: a given LDA model was unpacked twice

---
 sidetopics/run/__main__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index d56eeee..fb0dcda 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -870,8 +870,6 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
         else:
             return data
 
-    if ldaModel is not None:
-        (_, _, _, _, ldaModel, ldaTopics, _) = ldaModel
     if target_folds is None or target_folds < 1:
         target_folds = folds
 
-- 
2.43.0


From 96f5ce88d62952fc70c8911f45da759f56de3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 087/148] fix: the hashtags to predict were left in the
 documents queried, and not looked for

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index fb0dcda..a68d4d9 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -516,7 +516,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
             train_data, query_data = data.cross_valid_split(fold, num_folds)
 
             query_data_train_words, query_data_check_words = \
-                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), hashtag_train_prop)
+                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), 1 - hashtag_train_prop)
             query_data = query_data.copy_with_changes(words=query_data_train_words)
 
             # Train the model
-- 
2.43.0


From d01b3a7c90e961c4dc134d658f045ade59ac0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 088/148] fix: precision at m counted a document once for every
 time it had the hashtag

---
 sidetopics/run/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index a68d4d9..7790577 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -518,6 +518,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
             query_data_train_words, query_data_check_words = \
                 soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), 1 - hashtag_train_prop)
             query_data = query_data.copy_with_changes(words=query_data_train_words)
+            query_data_check_words = csr_clip(query_data_check_words, 0, 1)
 
             # Train the model
             print ("Duplicating model template... ", end="")
-- 
2.43.0


From 77c56565ce45e539b39f953cc82e8f70ec75d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 089/148] fix: the popularity of a single word could not be had

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 7790577..6d0671c 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -341,7 +341,7 @@ def popular_indices(data, word_indices, count=50):
     :param count: how many hashtag indices should we return
     :return: the indices of the most popular hashtags
     '''
-    word_counts  = np.squeeze(np.array(data.words[:,word_indices].sum(axis=0)))
+    word_counts  = np.asarray(data.words[:,word_indices].sum(axis=0)).reshape(-1)
 
     popular_word_count_indices = word_counts.argsort()[-count:][::-1]
     popular_word_indices = [word_indices[i] for i in popular_word_count_indices]
-- 
2.43.0


From a7e7b08af28dab1ddb2c2ae730542afe1177cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 090/148] fix: mixture models and CVB0 could not be evaluated
 from the command line

---
 sidetopics/model/lda_cvb0.py  | 3 +++
 sidetopics/model/mom_em.py    | 2 ++
 sidetopics/model/mom_gibbs.py | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index a7553bb..06d762b 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -388,6 +388,9 @@ def log_likelihood_point(data, modelState, queryState):
     return ln_likely
 
 
+log_likelihood = log_likelihood_point  # as evaluations run from the command line expect
+
+
 def log_likelihood_expected(data, modelState, queryState):
     """
     Determines the variational bounds. Values are mutated in place, but are
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 762107b..7d984f7 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -386,6 +386,8 @@ def log_likelihood_point(data: DataSet, model: ModelState, query: QueryState = N
     return lls.sum()
 
 
+log_likelihood = log_likelihood_point  # as evaluations run from the command line expect
+
 
 def var_bound(data, model, query, topicDistOverride=None):
     '''
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 5d05851..d082218 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -177,6 +177,9 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     return fns.logsumexp(lls, axis=1).sum()
 
 
+log_likelihood = log_likelihood_point  # as evaluations run from the command line expect
+
+
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-- 
2.43.0


From b7b0a57ebe8d26398e5345fb00c755e81fea2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:18 +0000
Subject: [PATCH 091/148] fix: evaluations of hashtags did not stop after the
 given number of folds

---
 sidetopics/run/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 6d0671c..363720f 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -562,6 +562,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
 
             # Save the model
             model_files = save_if_necessary(model_files, model_dir, model, data, fold, train_itrs, train_vbs, train_likes, train_tops, None, mdl)
+            folds_finished += 1
         except Exception as e:
             traceback.print_exc()
             print("Abandoning fold %d due to the error : %s" % (fold, str(e)))
-- 
2.43.0


From 67a9523e18fa8a12d79fa9f178804d33d835c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:31 +0000
Subject: [PATCH 092/148] fix: the wrappers of scikit-learn's LDA and gensim's
 HDP could not score whole-number counts, or rounded assignments to them

---
 sidetopics/model/sklearn/lda_cvb.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 453b0e6..e5301d6 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -749,7 +749,7 @@ class WrappedSckitLda(LatentDirichletAllocation):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        log_probs = sparseScalarProductOfSafeLnDot(X.words.astype(np.float64), y.astype(np.float64), component_dists.astype(np.float64)).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
@@ -933,12 +933,7 @@ class WrappedScikitHdp(HdpTransformer):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        if y.dtype != X.words.dtype:
-            y =  y.astype(X.words.dtype)
-        if component_dists.dtype != X.words.dtype:
-            component_dists =  component_dists.astype(X.words.dtype)
-
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        log_probs = sparseScalarProductOfSafeLnDot(X.words.astype(np.float64), y.astype(np.float64), component_dists.astype(np.float64)).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
-- 
2.43.0


From df07b3a99f04a2a44ea41a7178525e44b35d285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:31 +0000
Subject: [PATCH 093/148] fix: gensim's HDP gave assignments without the last
 topics if no document had them

---
 sidetopics/model/sklearn/lda_cvb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index e5301d6..b00cccd 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -874,7 +874,10 @@ class WrappedScikitHdp(HdpTransformer):
             X = matutils.Sparse2Corpus(sparse=X, documents_columns=False)
         if y is not None:
             raise ValueError("y is not allowed for wrapped scikit learn LDA")
-        return super().transform(X)
+        found = super().transform(X)  # lacks the topics after the last one found in any document
+        result = np.zeros((found.shape[0], self.n_components), dtype=found.dtype)
+        result[:, :found.shape[1]] = found
+        return result
 
     def score(self, X: Union[DataSet, np.ndarray], y: np.ndarray = None, y_query_state: object = None,
               method: Union[ScoreMethod, str] = None, **kwargs) -> float:
-- 
2.43.0


From 68458a72457323dca95b76769255cb9aa336a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 094/148] fix: the document-topic distributions of the
 correlated topic model could not be had

---
 sidetopics/model/ctm_bohning.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 6159fb8..4ef35bd 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
-- 
2.43.0


From 13076a74bf7942ec2b0ae5a712691c3ec38b9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 095/148] fix: the correlated topic model could not be queried
 about a single document

---
 sidetopics/model/ctm_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 4ef35bd..8582684 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -150,7 +150,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
-- 
2.43.0


From 132da7dff56b44b3b949c468f911977bb1b93b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 096/148] fix: queries of the correlated topic model gave back
 neither the variances nor, in its quick mode, the means they found

---
 sidetopics/model/ctm_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 8582684..42c8bc4 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -361,7 +361,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
-- 
2.43.0


From ffe6ee9de4f0680ff5e442719e61fcc324b95065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 097/148] fix: the topic model with features could not be
 queried about a single document

---
 sidetopics/model/stm_yv_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 9d2eb83..b7325cc 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -136,7 +136,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
-- 
2.43.0


From 1e8b78fa02d4d748231e4b2efef82c16c3df9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 098/148] fix: the first vocabulary update of the topic model
 with features mixed the words of one document with the topics of another

---
 sidetopics/model/stm_yv_bohning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index b7325cc..6326d7d 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -211,7 +211,8 @@ def train (data, modelState, queryState, trainPlan):
     inds = np.append(inds, [W.shape[0]])
     
     # Initialize some working variables
-    R = W.copy()
+    expMeans = np.exp(means - means.max(axis=1)[:, np.newaxis])
+    R = sparseScalarQuotientOfDot(W, expMeans, vocab)
     
     aI_P = 1./lfv  * ssp.eye(P, dtype=dtype)
     
@@ -336,6 +337,7 @@ def train (data, modelState, queryState, trainPlan):
         
     revert_sort = np.argsort(sortIdx, kind=STABLE_SORT_ALG)
     means       = means[revert_sort,:]
+    expMeans    = expMeans[revert_sort,:]
     varcs       = varcs[revert_sort,:]
     docLens     = docLens[revert_sort]
     
-- 
2.43.0


From fe00e6aee9f9753a71e5cf6fdfe27cf16adf5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:27 +0000
Subject: [PATCH 099/148] fix: the document-topic distributions of the topic
 model with features could not be had

---
 sidetopics/model/stm_yv_bohning.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 6326d7d..3dec74d 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -550,3 +550,6 @@ def isOk(mat):
 def wordDists(model):
     return model.vocab
 
+def topicDists(query):
+    return rowwise_softmax(query.means)
+
-- 
2.43.0


From 4bbfa29d56fd5989df91b36a5943a7689d431c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:34 +0000
Subject: [PATCH 100/148] fix: the correlated topic model could not be trained
 in single precision in its quick mode

---
 sidetopics/model/ctm_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 42c8bc4..5c9b77d 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan):
             isigT = la.inv(sigT)
 
         # FIXME Undo debug
-        sigT  = np.eye(K)
+        sigT  = np.eye(K, dtype=dtype)
         isigT = la.inv(sigT)
         
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
-- 
2.43.0


From 5a16a7e7876fed34ba5c681ce79bfcc0e41e1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:35 +0000
Subject: [PATCH 101/148] fix: the vocabulary updates of the topic model with
 features weighed words by the topics of an iteration before

---
 sidetopics/model/stm_yv_bohning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 3dec74d..214212a 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -212,7 +212,7 @@ def train (data, modelState, queryState, trainPlan):
     
     # Initialize some working variables
     expMeans = np.exp(means - means.max(axis=1)[:, np.newaxis])
-    R = sparseScalarQuotientOfDot(W, expMeans, vocab)
+    R = W.copy()
     
     aI_P = 1./lfv  * ssp.eye(P, dtype=dtype)
     
@@ -256,6 +256,7 @@ def train (data, modelState, queryState, trainPlan):
                     means, varcs, Ab, docLens)
 
             # Update the vocabulary
+            R = sparseScalarQuotientOfDot(W, expMeans, vocab, out=R)
             vocab *= (R.T.dot(expMeans)).T  # Awkward order to maintain sparsity (R is sparse, expMeans is dense)
             vocab += vocabPrior
             vocab = normalizerows_ip(vocab)
-- 
2.43.0


From db1de634174b08a83e189a789bd640b8f807dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:35 +0000
Subject: [PATCH 102/148] fix: two features that say the same blew up the
 weights of the topic model with features

---
 sidetopics/model/stm_yv_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 214212a..d5b6d35 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -219,7 +219,7 @@ def train (data, modelState, queryState, trainPlan):
     print("Creating posterior covariance of A, this will take some time...")
     XTX = X.T.dot(X)
     R_A = XTX
-    leastSquares = lambda feats, targets: la.lstsq(feats, targets, lapack_driver="gelsy")[0].T
+    leastSquares = lambda feats, targets: la.lstsq(feats, targets, cond=10 * max(feats.shape) * np.finfo(targets.dtype).eps, lapack_driver="gelsy")[0].T
     if ssp.issparse(R_A):         # dense inverse typically as fast or faster than sparse
         R_A = to_dense_array(R_A) # inverse and the result is usually dense in any case
         leastSquares = lambda feats, targets: np.array([ssp.linalg.lsqr (feats, targets[:,k])[0] for k in range(K)])
-- 
2.43.0


From 40d2ff35297f5444dc123a5ceee60362d3a2be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:23 +0000
Subject: [PATCH 103/148] fix: copies of Gibbs-sampled models shared the
 vocabulary prior with the original

---
 sidetopics/model/dmr.py       | 2 +-
 sidetopics/model/lda_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index f3100db..4b689e3 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -117,7 +117,7 @@ def newModelFromExisting(model):
         model.T, \
         model.weights.copy(), \
         None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        None if model.vocabPrior is None else model.vocabPrior.copy(), \
         None if model.n_dk_samples is None else model.n_dk_samples.copy(), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 1657a5e..325028a 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -112,7 +112,7 @@ def newModelFromExisting(model):
         model.K, \
         model.T, \
         None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        None if model.vocabPrior is None else model.vocabPrior.copy(), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
         model.numSamples, \
-- 
2.43.0


From 19dcc06a57236d4655545dc9862c8d67ce6ccdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:23 +0000
Subject: [PATCH 104/148] fix: Gibbs-sampled models could not be trained with a
 vocabulary prior given as a whole number, DMR with none given as a number

---
 sidetopics/model/dmr.py       | 2 ++
 sidetopics/model/lda_gibbs.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 4b689e3..5c95346 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -98,6 +98,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
         topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
+    elif type(vocabPrior) == float or type(vocabPrior) == int:
+        vocabPrior = constantArray((T,), vocabPrior, dtype=dtype)
         
     n_dk_samples = None # These start out at none until we actually
     topicSum     = None
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 325028a..a438412 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -94,7 +94,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
         topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
-    elif type(vocabPrior) is float:
+    elif type(vocabPrior) == float or type(vocabPrior) == int:
         vocabPrior = constantArray((T,), vocabPrior, dtype=dtype) # Also from G&S
 
     topicSum  = None # These start out at none until we actually
-- 
2.43.0


From 61555b3d410060b247896e199fced44378ee130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:23 +0000
Subject: [PATCH 105/148] fix: querying Gibbs-sampled models gave back a model
 with the topics of the queried documents

---
 sidetopics/model/dmr.py       | 2 +-
 sidetopics/model/lda_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 5c95346..fbb14fb 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -355,7 +355,7 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     return \
-        ModelState (K, T, weights, topicPrior, vocabPrior, model.n_dk_samples, topicSum, vocabSum, model.numSamples, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, sample_count)
 
 
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index a438412..2aba509 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -254,7 +254,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, model.numSamples, model.processed, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From 4db0db2f0d997b59826624a088f07f57f3f95734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:42 +0000
Subject: [PATCH 106/148] fix: the random topics that queried tokens start with
 biased the topics drawn by Gibbs-sampled models

The samplers keep the vocabulary fixed in queries, but the counts of the
initial, random topics of all queried tokens were added to it beforehand and
never removed. They outweigh the counts of words that are rare in the model.
---
 sidetopics/model/dmr.py       | 3 ++-
 sidetopics/model/lda_gibbs.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index fbb14fb..48b1774 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -341,7 +341,8 @@ def query (data, model, query, plan):
     topicSum = np.zeros((D,K), dtype=dtype)
     vocabSum = model.vocabSum
     
-    compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
+    # the vocabulary is kept fixed, so only the documents' topics are counted
+    compiled.sumSuffStats(w_list, z_list, docLens, ndk, np.zeros_like(nkv), np.zeros_like(nk))
     
     # Burn in
     alphas = np.exp(X.dot(weights.T))
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 2aba509..78c0d61 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -241,7 +241,8 @@ def query (data, model, query, plan):
     topicSum = np.zeros((D,K), dtype=dtype)
     vocabSum = model.vocabSum
 
-    compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
+    # the vocabulary is kept fixed, so only the documents' topics are counted
+    compiled.sumSuffStats(w_list, z_list, docLens, ndk, np.zeros_like(nkv), np.zeros_like(nk))
 
     # Burn in
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
-- 
2.43.0


From 72870a5d7d61630da03d8366ca47f7b8b4e5b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:42 +0000
Subject: [PATCH 107/148] fix: queries of Gibbs-sampled models put words rarer
 than one in a million in the first topic

Word probabilities were rounded down to whole millionths, so such words were
impossible under every topic, and those a little less rare had wrong odds.
---
 sidetopics/model/dmr.py       | 2 +-
 sidetopics/model/lda_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 48b1774..723042c 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -335,7 +335,7 @@ def query (data, model, query, plan):
     n_dk_samples = np.zeros((D,K,num_samples), dtype=np.uint16)
 
     ndk = np.zeros((D, K), dtype=np.uint16)
-    nkv = (wordDists(model) * 1000000).astype(np.int32)
+    nkv = (wordDists(model) * 1000000000).astype(np.int32) # rare words need many digits, the sum has to fit in 31 bits
     nk  = nkv.sum(axis=1).astype(np.int32)
     
     topicSum = np.zeros((D,K), dtype=dtype)
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 78c0d61..4322265 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -234,7 +234,7 @@ def query (data, model, query, plan):
     D = docLens.shape[0]
 
     ndk = np.zeros((D, K), dtype=np.int32)
-    nkv = (wordDists(model) * 1000000).astype(np.int32)
+    nkv = (wordDists(model) * 1000000000).astype(np.int32) # rare words need many digits, the sum has to fit in 31 bits
     nk  = nkv.sum(axis=1).astype(np.int32)
     adjustedVocabPrior = np.zeros((T,), dtype=model.dtype) # already incorporated into nkv
 
-- 
2.43.0


From 34e6e2694e184e4f1fd8ec6ac5ecdc26291387c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:01 +0000
Subject: [PATCH 108/148] fix: the TF-IDF recommender could not be trained, and
 would have given whole-number counts weights of zero

np.bool is gone from NumPy, np.reciprocal rounds whole numbers down to zero,
and np.squeeze leaves no axis for a single document or word.
---
 sidetopics/model/sim_based_rec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 5c73813..cb27286 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -175,13 +175,13 @@ def train (data, model, query, trainPlan, isQuery=False):
     # Step 1: Learn the topics using vanilla LDA
     if method == TF_IDF:
         # First do TF
-        docLens = np.squeeze(np.array(data.words.sum(axis=1)))
+        docLens = np.array(data.words.sum(axis=1), dtype=np.float64).reshape(-1)
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
 
-        occ  = data.words.astype(np.bool).astype(dtype)
-        docCount = np.squeeze(np.array(occ.sum(axis=0)))
+        occ  = data.words.astype(bool).astype(dtype)
+        docCount = np.array(occ.sum(axis=0)).reshape(-1)
         docCount += 1
         idf = np.log(D / docCount)
 
-- 
2.43.0


From f9f375f817056dd73bca37c9d4b3a6e5a84ae552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:01 +0000
Subject: [PATCH 109/148] fix: the TF-IDF recommender could not rank a single
 document, and dropped links with documents of which no word has weight

Their similarities were 0/0, so they compared as false with any minimum.
---
 sidetopics/model/sim_based_rec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index cb27286..e41e30a 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -373,7 +373,7 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
     for src in docSubset:
         outRow += 1
 
-        probs = np.squeeze(np.asarray(dst_reps.dot(src_reps[src,:].T).todense()))
+        probs = np.asarray(dst_reps.dot(src_reps[src,:].T).todense()).reshape(-1)
         probs /= dst_norms
         probs /= src_norms[src]
 
@@ -397,8 +397,9 @@ def csr_row_norms(X):
 
     X2 = ssp.csr_matrix((norm_dat, X.indices, X.indptr), shape=X.shape)
 
-    norms = np.squeeze(np.array(X2.sum(axis=1)))
+    norms = np.array(X2.sum(axis=1), dtype=np.float64).reshape(-1)
     norms **= 0.5
+    norms[norms == 0] = 1 # nothing is similar to a document without weights, avoid 0/0
 
     return norms
 
-- 
2.43.0


From 74c98930f58135bbb103323ca2dab7b331e50eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:01 +0000
Subject: [PATCH 110/148] fix: the relational topic model could not be started

Its topic prior ends with a zero, for the intercept, with which no Dirichlet
can be drawn. A single document had no length.
---
 sidetopics/model/rtm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 07dd63f..4541954 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -118,11 +118,13 @@ def newQueryState(data, modelState):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
-    topicDists  = rd.dirichlet(modelState.topicPrior, size=data.doc_count).astype(modelState.dtype)
+    K = modelState.K
+    topicDists  = np.zeros((data.doc_count, K + 1), dtype=modelState.dtype) # the final element is for the intercept
+    topicDists[:, :K] = rd.dirichlet(modelState.topicPrior[:K], size=data.doc_count)
     topicDists *= docLens[:, np.newaxis]
     topicDists += modelState.topicPrior[np.newaxis, :]
     topicDists[:, modelState.K] = docLens
-- 
2.43.0


From 8dac25edceaebbfacac44e840467c2d3086d2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:01 +0000
Subject: [PATCH 111/148] fix: the relational topic model could not be queried

---
 sidetopics/model/rtm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 4541954..d7794ba 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -470,7 +470,7 @@ def train(data, model, query, plan, updateVocab=True):
                 if debug: print("Topic Prior is now " + str(topicPrior))
         else:
             for d in range(D):
-                _ = _update_topics_at_d(d, W, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
+                _ = _update_topics_at_d(d, data, weights, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
 
     topicMeans = _convertMeansToDirichletParam(docLens, topicMeans, topicPrior)
 
-- 
2.43.0


From 79187d48e24b6d0714d0dfdce57a78e2f6b46c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:01 +0000
Subject: [PATCH 112/148] fix: the document-topic distributions of the
 matrix-variate topic model could not be had

---
 sidetopics/model/mtm3.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 3ad0dbc..2932014 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -95,9 +95,7 @@ def is_undirected_link_predictor():
     return False
 
 def topicDists(queryState):
-    result  = np.exp(queryState.topicMean - queryState.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(queryState.outMeans)
 
 def newModelFromExisting(model, withLdaModel=None):
     '''
-- 
2.43.0


From 6faa63d81454ec3e001d37dc30c9f4aa78da1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 113/148] fix: link predictors dropped true links whose score
 only rounding took below the minimum

---
 sidetopics/model/lro_vb.py        | 2 +-
 sidetopics/model/mtm3.py          | 2 +-
 sidetopics/model/rtm.py           | 2 +-
 sidetopics/model/sim_based_rec.py | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/lro_vb.py b/sidetopics/model/lro_vb.py
index 4f360dc..0a74816 100644
--- a/sidetopics/model/lro_vb.py
+++ b/sidetopics/model/lro_vb.py
@@ -348,7 +348,7 @@ def link_probs(model, train_tops, query_tops, min_link_probs, docSubset=None):
     for src in docSubset:
         outRow    += 1
         probs      = scale * dst_offs.dot(src_tops[src,:])
-        relevant   = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant   = np.where(probs >= min_link_probs[outRow] - (1E-9 + 1E-6 * abs(min_link_probs[outRow])))[0]
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 2932014..204a1d5 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -761,7 +761,7 @@ def link_probs(model, train_tops, query_tops, min_link_probs, docSubset=None):
 
         srcTopDist = softmax(query_tops.outMeans[src, :])
         probs      = dstTopDists.dot(srcTopDist)
-        relevant   = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant   = np.where(probs >= min_link_probs[outRow] - (1E-9 + 1E-6 * abs(min_link_probs[outRow])))[0]
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index d7794ba..a0f8d7b 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -885,7 +885,7 @@ def link_probs(model, topics, min_link_probs):
     for d in range(D):
         probs = (topicMeans[d] * topicMeans).dot(weights)
         probs = _probit_inplace(probs)
-        relevant = np.where(probs >= min_link_probs[d])[0]
+        relevant = np.where(probs >= min_link_probs[d] * (1 - 1E-6))[0] # avoid losing links to rounding
 
         rows.extend([d] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index e41e30a..e8f2f05 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -377,7 +377,7 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
         probs /= dst_norms
         probs /= src_norms[src]
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant = np.where(probs >= min_link_probs[outRow] - (1E-9 + 1E-6 * abs(min_link_probs[outRow])))[0]
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
@@ -434,7 +434,7 @@ def link_probs_lda(model, train_tops, query_tops, min_link_probs, docSubset=None
         probs[probs < 1E-30] = 1E-30
         probs = SQRT_TWO / probs
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant = np.where(probs >= min_link_probs[outRow] - (1E-9 + 1E-6 * abs(min_link_probs[outRow])))[0]
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
-- 
2.43.0


From a0843fb1e14ead59fd80953a37d6d9ee75ef49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 114/148] fix: the likelihood of links in the matrix-variate
 topic model read the destinations' topics transposed

---
 sidetopics/model/mtm3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 204a1d5..e230610 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -573,7 +573,7 @@ def log_likelihood (data, modelState, queryState):
     queryState object.
     '''
     probs = rowwise_softmax(queryState.outMeans)
-    doc_dist = colwise_softmax(queryState.inMeans)
+    doc_dist = colwise_softmax(queryState.inMeans).T.copy()
 
     word_likely = np.sum( \
         sparseScalarProductOfSafeLnDot(\
-- 
2.43.0


From e18fff3b057450cf261e5804255a34370d17e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 115/148] fix: the matrix-variate topic model could not be
 trained on, or asked about, a single document

---
 sidetopics/model/mtm3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index e230610..61dd833 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -184,7 +184,7 @@ def _newQueryStateFromCtm(data, model):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     outMeans = ctm_query.means
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -214,7 +214,7 @@ def _newQueryStateFromLda(data, model, ldaQueryState):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     outMeans = np.log(lda_topics(ldaQueryState))
     m = outMeans.mean()
@@ -256,7 +256,7 @@ def newQueryState(data, modelState, withLdaTopics=None):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
     
     outMeans = normalizerows_ip(rd.random((D,K)).astype(dtype))
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -298,7 +298,7 @@ def train (data, modelState, queryState, trainPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Unpack the the structs, for ease of access and efficiency
     iterations, epsilon, logFrequency, diagonalPriorCov, debug = trainPlan.iterations, trainPlan.epsilon, trainPlan.logFrequency, trainPlan.fastButInaccurate, trainPlan.debug
@@ -506,7 +506,7 @@ def query(data, modelState, queryState, queryPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Book-keeping for logs
     boundIters, boundValues, likelyValues = [], [], []
@@ -651,7 +651,7 @@ def var_bound(data, modelState, queryState):
     top_sums  += expMeansOut * (L_weights.dot(expMeansIn) / lse_at_k[np.newaxis, :])
 
     # E[p(Z,Y)]
-    linkLens = np.squeeze(np.array(L.sum(axis=1)))
+    linkLens = np.asarray(L.sum(axis=1)).reshape(-1)
     bound += np.sum(outMeans * top_sums)
     bound -= np.sum((docLens + linkLens) * np.log(np.sum(expMeansOut, axis=1)))
 
-- 
2.43.0


From 71cd530d8a5666c9d6cf263315d2fe5a11392965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 116/148] fix: unlikely links did not count when topics were
 inferred by the relational topic model

---
 sidetopics/model/rtm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index a0f8d7b..af23732 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -371,7 +371,7 @@ def _sum_of_scores_at_d(d, data, docLens, weights, topicMeans):
 
     :return:
     '''
-    minNonZero  = 1E-300 if topicMeans.dtype is np.float64 else 1E-30
+    minNonZero  = 1E-300 if topicMeans.dtype == np.float64 else 1E-30
     K           = topicMeans.shape[1] - 1
     links       = data.links
     linked_docs = links[d, :].indices
-- 
2.43.0


From 6b1a48434256ea212fcea9c7fa25dfb8bcb0665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 117/148] fix: link predictors were asked for links in an
 interface only half of them have

---
 sidetopics/run/__main__.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 363720f..1253d30 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -785,6 +785,27 @@ def save_model(model_dir, model, data, fold, train_itrs, train_vbs, train_likes,
     return model_file
 
 
+def predict_links(mdl, model, train_tops, links, docSubset=None):
+    '''
+    Scores the links between the documents a model was trained on, keeping for each
+    document those which score at least as well as the worst of the given links.
+
+    Directed predictors take the topics of the sources and of the destinations, and
+    may be limited to some of the sources. Undirected ones take a single set of topics.
+
+    :param links: a row for every document
+    :param docSubset: the documents whose links should be predicted, all by default
+    :return: a matrix of scores, with a row for each document whose links are predicted
+    '''
+    if mdl.is_undirected_link_predictor():
+        min_link_probs = mdl.min_link_probs(model, train_tops, links)
+        probs          = mdl.link_probs(model, train_tops, min_link_probs)
+        return probs if docSubset is None else probs.tocsr()[docSubset, :]
+
+    min_link_probs = mdl.min_link_probs(model, train_tops, train_tops, links, docSubset)
+    return mdl.link_probs(model, train_tops, train_tops, min_link_probs, docSubset)
+
+
 def link_split_map (data, mdl, sample_model, train_plan, folds, model_dir = None):
     '''
     Train on all the words and half the links. Predict the remaining links.
@@ -825,8 +846,7 @@ def link_split_map (data, mdl, sample_model, train_plan, folds, model_dir = None
 
         print("Training perplexity is %.2f " % perplexity_from_like(mdl.log_likelihood(train_data, model, train_tops), train_data.word_count))
 
-        min_link_probs       = mdl.min_link_probs(model, train_tops, query_data.links)
-        predicted_link_probs = mdl.link_probs(model, train_tops, min_link_probs)
+        predicted_link_probs = predict_links(mdl, model, train_tops, query_data.links)
 
         map = mean_average_prec (query_data.links, predicted_link_probs)
         print ("Fold %2d: Mean-Average-Precision %6.3f" % (fold, map))
@@ -892,8 +912,7 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
 
         print ("Training perplexity is %.2f " % perplexity_from_like(mdl.log_likelihood(train_data, model, train_tops), train_data.word_count))
 
-        min_link_probs       = mdl.min_link_probs(model, train_tops, query_data.links)
-        predicted_link_probs = mdl.link_probs(model, train_tops, min_link_probs)
+        predicted_link_probs = predict_links(mdl, model, train_tops, query_data.links)
         expected_links       = query_data.links
 
         precs, recs, doc_counts = mean_prec_rec_at (expected_links, predicted_link_probs, at=ms, groups=[(0,3), (3,5), (5,10), (10,1000)])
@@ -997,8 +1016,7 @@ def insample_lro_style_prec_rec (data, mdl, sample_model, train_plan, folds, tar
         print ("Training perplexity is %.2f " % perplexity_from_like(mdl.log_likelihood(train_data, model, train_tops), train_data.word_count))
 
         # Infer the expected link probabilities
-        min_link_probs       = mdl.min_link_probs(model, train_tops, train_tops, query_data.links, docSubset)
-        predicted_link_probs = mdl.link_probs(model, train_tops, train_tops, min_link_probs, docSubset)
+        predicted_link_probs = predict_links(mdl, model, train_tops, query_data.links, docSubset)
         expected_links       = query_data.links[docSubset, :]
 
         # Evaluation 1/3: Precision and Recall at M
-- 
2.43.0


From 29accabcf32fce0ca1d38e2de41dd810d55b0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 118/148] fix: the vocabulary prior given on the command line
 became LDA's topic prior

---
 sidetopics/run/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 1253d30..b17f90a 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -213,10 +213,10 @@ def run(args):
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaVb:
         import sidetopics.model.lda_vb_python as mdl
-        templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
+        templateModel = mdl.newModelAtRandom(data, K, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaSvb:
         import sidetopics.model.lda_vb_python as mdl
-        templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
+        templateModel = mdl.newModelAtRandom(data, K, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaGibbs:
         import sidetopics.model.lda_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
-- 
2.43.0


From 2c041ee981282c875113375e32f68604592fae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:25 +0000
Subject: [PATCH 119/148] fix: asking the command line not to debug turned
 debugging on

---
 sidetopics/run/__main__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index b17f90a..79d90f3 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -123,7 +123,7 @@ def run(args):
                     help="Number of cross validation folds.")
     parser.add_argument('--truncate-folds', dest='eval_fold_count', type=int, default=-1, metavar=' ', \
                     help="If set, stop running after the given number of folds had been processed")
-    parser.add_argument('--debug', '-b', dest='debug', type=bool, default=False, metavar=' ', \
+    parser.add_argument('--debug', '-b', dest='debug', type=parse_bool, default=False, metavar=' ', \
                     help="Display a debug message, with the bound, after every variable update")
     parser.add_argument('--dtype', '-t', dest='dtype', default="f4:f4", metavar=' ', \
                     help="Datatype to use, values are i4, f4 and f8. Specify two, a data dtype and model dtype, delimited by a colon")
@@ -349,6 +349,20 @@ def popular_indices(data, word_indices, count=50):
     return popular_word_indices
 
 
+def parse_bool(bool_str):
+    '''
+    Parses a boolean, case is not sensitive. Note bool() itself takes any text, even
+    "False", to be true
+    '''
+    value = bool_str.strip().lower()
+    if value in ['true', 't', 'yes', 'y', '1']:
+        return True
+    elif value in ['false', 'f', 'no', 'n', '0', '']:
+        return False
+    else:
+        raise ValueError("Can't parse boolean " + bool_str)
+
+
 def parse_dtypes(dtype_str):
     '''
     Parse one or two dtype strings, delimited by a colon if there are two
-- 
2.43.0


From 5b7cec175aa58b4c0331aa1fc3803549d230ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 120/148] fix: training with Bouchard's bound failed unless
 iterations were a multiple of the logging interval

---
 sidetopics/model/ctm.py    | 9 +++++----
 sidetopics/model/stm_yv.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 1f2ade9..df06b9e 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -182,9 +182,10 @@ def train (dataset, modelState, queryState, trainPlan):
     K, topicMean, sigT, vocab, vocabPrior, dtype = modelState.K, modelState.topicMean, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters   = np.zeros(shape=(iterations // logFrequency,))
-    boundValues  = np.zeros(shape=(iterations // logFrequency,))
-    likelyValues = np.zeros(shape=(iterations // logFrequency,))
+    logPoints    = 0 if logFrequency == 0 else -(-iterations // logFrequency) # rounded up
+    boundIters   = np.zeros(shape=(logPoints,))
+    boundValues  = np.zeros(shape=(logPoints,))
+    likelyValues = np.zeros(shape=(logPoints,))
     bvIdx = 0
     
     debugFn = _debug_with_bound if debug else _debug_with_nothing
@@ -300,7 +301,7 @@ def train (dataset, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] >= 30:
                 lastPerp = perplexity_from_like(likelyValues[bvIdx - 1], n.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likelyValues, bvIdx)
+                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likelyValues, bvIdx + 1)
                     return modelState, queryState, (boundIters, boundValues, likelyValues)
             bvIdx += 1
             
diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index e8653fd..7778671 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    likeValues  = np.zeros(shape=(iterations // logFrequency,))
+    logPoints    = 0 if logFrequency == 0 else -(-iterations // logFrequency) # rounded up
+    boundIters  = np.zeros(shape=(logPoints,))
+    boundValues = np.zeros(shape=(logPoints,))
+    likeValues  = np.zeros(shape=(logPoints,))
     bvIdx = 0
     
     _debug_with_bound.old_bound = 0
@@ -313,7 +314,7 @@ def train (data, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] > 50:
                 lastPerp = perplexity_from_like(likeValues[bvIdx - 1], n.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likeValues, bvIdx)
+                    boundIters, boundValues, likeValues = clamp (boundIters, boundValues, likeValues, bvIdx + 1)
                     return modelState, queryState, (boundIters, boundValues, likeValues)
             bvIdx += 1
 
-- 
2.43.0


From 428a5e0de669b8419db4166bf5428377cf89a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 121/148] fix: LDA models were not recognised once trained, so
 that no link predictor could be given one

---
 sidetopics/model/lda_vb_python.py | 7 +++++++
 sidetopics/model/mtm3.py          | 2 +-
 sidetopics/run/__main__.py        | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 6ad3a7c..0c3ef6c 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -143,6 +143,13 @@ def pruneQueryState (query, indices):
     return QueryState(query.docLens[indices], query.topicDists[indices,:], query.processed)
 
 
+def is_name_of_model(name):
+    '''
+    Is this the name of a model of this kind. Training amends the name.
+    '''
+    return name == MODEL_NAME or name.startswith("lda/svbp/")
+
+
 def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=False, debug=False, batchSize=0,
                  rate_delay=0.6, forgetting_rate=0.6, rate_a=2, rate_b=0.5, rate_algor=RateAlgorBatch):
     '''
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 61dd833..917a73b 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -155,7 +155,7 @@ def newModelAtRandom(data, K, outDocCov=0.001, dtype=DTYPE, withLdaModel=None):
 def lda_vocab(ldaModel):
     if ldaModel.name == lda_gibbs.MODEL_NAME:
         return lda_gibbs.wordDists(ldaModel)
-    elif ldaModel.name == lda_vb.MODEL_NAME:
+    elif lda_vb.is_name_of_model(ldaModel.name):
         return lda_vb.wordDists(ldaModel)
     else:
         raise ValueError("Unknown LDA implementation")
diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 79d90f3..240dc38 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -49,7 +49,7 @@ StmYvBohningFakeOnline = "stm_yv_bohning_fake_online"
 ModelNames = ', '.join([CtmBouchard, CtmBohning, StmYvBouchard, StmYvBohning, StmYvBohningFakeOnline, StmUyvBohning, LdaCvb, LdaCvbZero, LdaVb, LdaSvb, LdaGibbs, Rtm, Mtm, Lro, Dmr, MomEm, MomGibbs])
 
 from sidetopics.model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
-from sidetopics.model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
+from sidetopics.model.lda_vb_python import is_name_of_model as is_lda_vb_model_name
 from sidetopics.model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
 from sidetopics.model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
 
@@ -1199,7 +1199,7 @@ def subsetLda(ldaModel, ldaTopics, doc_indices):
     else:
         if ldaModel.name == LDA_GIBBS_MODEL_NAME:
             return ldaModel, pruneLdaGibbsQueryState(ldaTopics, doc_indices)
-        elif ldaModel.name == LDA_VB_MODEL_NAME:
+        elif is_lda_vb_model_name(ldaModel.name):
             return ldaModel, pruneLdaVbQueryState(ldaTopics, doc_indices)
         else:
             raise ValueError("Can't prune queries for LDA models of type " + ldaModel.name)
-- 
2.43.0


From 1815b279c895d70009df4bee2ae0d76a6309af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:45 +0000
Subject: [PATCH 122/148] fix: documents which only link to those trained on
 could not be queried with latent random offsets

---
 sidetopics/model/lro_vb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sidetopics/model/lro_vb.py b/sidetopics/model/lro_vb.py
index 0a74816..ba636f8 100644
--- a/sidetopics/model/lro_vb.py
+++ b/sidetopics/model/lro_vb.py
@@ -192,6 +192,11 @@ def train (data, model, query, trainPlan, isQuery=False):
     offs = tops.copy()
     topsSum = tops.T.dot(tops)
 
+    if isQuery and data.links.shape[0] != data.links.shape[1]:
+        # these documents link to those trained on, none link to them, so nothing sets
+        # their offsets apart from their topics
+        return model, QueryState(ldaQuery, offs), ([0], [0], [0])
+
     # Step 2: reverse the links matrix so we can talk about the origin (not target) of links
     inlinks = data.links.T.tocsr()
 
-- 
2.43.0


From 7b515ce7cd3e85672c78bce4fff350ce54266c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 123/148] fix: appending an intercept turned single-precision
 features to double, which models then refused

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 119e94d..cb5f4e6 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -295,7 +295,7 @@ class DataSet:
         squares = self._feats.multiply(self._feats) if ssp.issparse(self._feats) else self._feats * self._feats
         is_intercept = (self._feats.sum(axis=0) == self.doc_count) & (squares.sum(axis=0) == self.doc_count)
         if not is_intercept.any():
-            self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
+            self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1), dtype=self._feats.dtype)), "csr")
             return True
 
         return False
-- 
2.43.0


From 7311eb1d47d692aae5b5aefffbc5e845762b47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 124/148] fix: the first mini-batch took LDA's word
 distributions past what it says they are, and below zero

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 0c3ef6c..6ec971a 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -421,7 +421,7 @@ def train(data, model, query, plan, updateVocab=True):
             wordDists[:, :] = grad[:, :]
         else:
             if rateAlgor == RateAlgorTimeKappa:
-                stepSize[:] = (b + plan.rate_delay)**(-plan.forgetting_rate)
+                stepSize[:] = min(1.0, (b + plan.rate_delay)**(-plan.forgetting_rate)) # overshooting makes the distributions negative
             elif rateAlgor == RateAlgorVariance:
                 update_inplace_v(gradStep, ex_grad, change=grad)
                 gtg = stepSize.copy()
-- 
2.43.0


From 430c567ac74ac3b4642ff358ddd6bddc3c8656ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 125/148] fix: queries with a mini-batch plan went through some
 documents more often than through others

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 6ec971a..81e64d7 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -380,7 +380,7 @@ def train(data, model, query, plan, updateVocab=True):
     iters, bnds, likes = [], [], []
 
     # A few parameters for handling adaptive step-sizes in SGD
-    if plan.rate_algor == RateAlgorBatch:
+    if plan.rate_algor == RateAlgorBatch or not updateVocab: # a query only infers topics, document by document
         batchSize  = D
         batchCount = 1
     else:
-- 
2.43.0


From c8559ea3a4b86bb1897aa010f2616944c1d9c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 126/148] fix: mini-batches estimated LDA's word distributions
 as if the batch were the whole corpus

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 81e64d7..0ceb64e 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -412,7 +412,7 @@ def train(data, model, query, plan, updateVocab=True):
             d = d + 1 if (d + 1) < D else 0
 
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
-            grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
+            grad[:, wordIdx] += (float(D) / batchSize) * W[d, :].data[np.newaxis, :] * z
 
         if not updateVocab:
             continue # Querying, so only the topics are inferred
-- 
2.43.0


From 53bdefdf50eb923f3732efade0094c4d8e946f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 127/148] fix: DMR lost most words of documents with 65,536 or
 more of them, instead of refusing these

---
 sidetopics/model/dmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 723042c..87beab1 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -144,6 +144,7 @@ def newQueryState(data, modelState, debug=False):
     
     D,T = data.words.shape
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
+    assert data.doc_lens.max() < 65536, "This only works for documents with fewer than 65,536 words"
     w_list, docLens = compiled.flatten(data.words.astype(np.uint16))
     docLens = np.asarray(docLens, dtype=np.int32)
     if debug: print("Done")
-- 
2.43.0


From 9a5442756b6fec57a74b1c56537a3fbda97498dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 128/148] fix: the Bouchard models expanded their bound around
 a point which squared the variances of the topics once more

---
 sidetopics/model/ctm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index df06b9e..7578d3d 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -509,7 +509,7 @@ def negJakkolaOfDerivedXi(means, varcs, s, d = None):
     
     # COPY AND PASTE BETWEEN THIS AND negJakkola()
     if d is not None:
-        vec = (np.sqrt (means[d,:]**2 - 2 * means[d,:] * s[d] + s[d]**2 + varcs[d,:]**2))
+        vec = (np.sqrt (means[d,:]**2 - 2 * means[d,:] * s[d] + s[d]**2 + varcs[d,:]))
         return 0.5/vec * (1./(1 + np.exp(-vec)) - 0.5)
     else:
         mat = _deriveXi(means, varcs, s)
@@ -544,7 +544,7 @@ def jakkolaOfDerivedXi(means, varcs, s, d = None):
     
     # COPY AND PASTE BETWEEN THIS AND negJakkola()
     if d is not None:
-        vec = (np.sqrt (means[d,:]**2 -2 *means[d,:] * s[d] + s[d]**2 + varcs[d,:]**2))
+        vec = (np.sqrt (means[d,:]**2 -2 *means[d,:] * s[d] + s[d]**2 + varcs[d,:]))
         return 0.5/vec * (1./(1 + np.exp(-vec)) - 0.5)
     else:
         mat = _deriveXi(means, varcs, s)
@@ -568,7 +568,7 @@ def _deriveXi (means, varcs, s):
     Derives a value for xi. This is not normally needed directly, as we
     normally just work with the negJakkola() function of it
     '''
-    return np.sqrt(means**2 - 2 * means * s[:,np.newaxis] + (s**2)[:,np.newaxis] + varcs**2)   
+    return np.sqrt(means**2 - 2 * means * s[:,np.newaxis] + (s**2)[:,np.newaxis] + varcs)   
 
 last = 0
 def _debug_with_bound (itr, var_value, var_name, W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n):
-- 
2.43.0


From acc43b50cf4d709ecf5d02e4ebe3065836760473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 129/148] fix: the Bouchard models took the coefficient of
 their bound now for once, now for twice its value

---
 sidetopics/model/ctm.py    | 14 +++++++-------
 sidetopics/model/stm_yv.py |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 7578d3d..8d3ea77 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -260,11 +260,11 @@ def train (dataset, modelState, queryState, trainPlan):
         # parameters also that handle the log-sum-exp approximation.
         
         # Update the Variances
-        varcs = np.reciprocal(n[:,np.newaxis] * lxi + isigT.flat[::K+1])
+        varcs = np.reciprocal(2 * n[:,np.newaxis] * lxi + isigT.flat[::K+1])
         debugFn (itr, varcs, "varcs", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # Update the Means
-        vMat   = (s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
+        vMat   = (2 * s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
         rhsMat = vMat + isigT.dot(topicMean)
         # for d in range(D):
         #     means[d,:] = la.inv(isigT + ssp.diags(n[d] * lxi[d,:], 0)).dot(rhsMat[d,:])
@@ -274,7 +274,7 @@ def train (dataset, modelState, queryState, trainPlan):
         debugFn (itr, means, "means", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # Update the approximation parameters
-        lxi = 2 * negJakkolaOfDerivedXi(means, varcs, s)
+        lxi = negJakkolaOfDerivedXi(means, varcs, s)
         debugFn (itr, lxi, "lxi", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # s can sometimes grow unboundedly
@@ -348,22 +348,22 @@ def query(dataset, modelState, queryState, queryPlan):
     lastPerp = 1E+300 if dtype is np.float64 else 1E+30
     for itr in range(iterations):
         # Update the Means
-        vMat   = (s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
+        vMat   = (2 * s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
         rhsMat = vMat + isigT.dot(topicMean)
         for d in range(D):
             try:
-                means[d,:] = la.inv(isigT + ssp.diags(n[d] * lxi[d,:], 0)).dot(rhsMat[d,:])
+                means[d,:] = la.inv(isigT + ssp.diags(2 * n[d] * lxi[d,:], 0)).dot(rhsMat[d,:])
             except ValueError as e:
                 print(str(e))
                 print ("Ah")
         debugFn (itr, means, "means", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # Update the Variances
-        varcs = 1./(n[:,np.newaxis] * lxi + isigT.flat[::K+1])
+        varcs = 1./(2 * n[:,np.newaxis] * lxi + isigT.flat[::K+1])
         debugFn (itr, varcs, "varcs", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # Update the approximation parameters
-        lxi = 2 * negJakkolaOfDerivedXi(means, varcs, s)
+        lxi = negJakkolaOfDerivedXi(means, varcs, s)
         debugFn (itr, lxi, "lxi", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # s can sometimes grow unboundedly
diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 7778671..d9c9c53 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -276,19 +276,19 @@ def train (data, modelState, queryState, trainPlan):
         debugFn (itr, A, "A", W, X, XTX, F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # Update the Means
-        vMat   = (s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
+        vMat   = (2 * s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
         rhsMat = vMat + X.dot(A.T).dot(isigT) # TODO Verify this
-        lhsMat = np.reciprocal(np.diag(isigT)[np.newaxis,:] + n[:,np.newaxis] *  lxi)  # inverse of D diagonal matrices...
+        lhsMat = np.reciprocal(np.diag(isigT)[np.newaxis,:] + n[:,np.newaxis] * 2 * lxi)  # inverse of D diagonal matrices...
         means = lhsMat * rhsMat # as LHS is a diagonal matrix for all d, it's equivalent
                                 # do doing a hadamard product for all d
         debugFn (itr, means, "means", W, X, XTX, F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # Update the Variances
-        varcs = 1./(n[:,np.newaxis] * lxi + isigT.flat[::K+1])
+        varcs = 1./(2 * n[:,np.newaxis] * lxi + isigT.flat[::K+1])
         debugFn (itr, varcs, "varcs", W, X, XTX, F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # Update the approximation parameters
-        lxi = 2 * ctm.negJakkolaOfDerivedXi(means, varcs, s)
+        lxi = ctm.negJakkolaOfDerivedXi(means, varcs, s)
         debugFn (itr, lxi, "lxi", W, X, XTX, F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n)
         
         # s can sometimes grow unboundedly
-- 
2.43.0


From 91d8c0786301b64ccf12309850a81ec31393d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 130/148] fix: queries of CTM shared out words by the initial
 scores throughout, instead of by the current ones

---
 sidetopics/model/ctm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 8d3ea77..b9e67a3 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -337,16 +337,17 @@ def query(dataset, modelState, queryState, queryPlan):
     # Necessary temp variables (notably the count of topic to word assignments
     # per topic per doc)
     isigT = la.inv(sigT)
-    expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
-    R = sparseScalarQuotientOfDot(W, expMeans, vocab)
-    S = expMeans * R.dot(vocab.T)
-        
     # Enable logging or not. If enabled, we need the inner product of the feat matrix
     debugFn = _debug_with_bound if debug else _debug_with_nothing
     
     # Iterate over parameters
     lastPerp = 1E+300 if dtype is np.float64 else 1E+30
     for itr in range(iterations):
+        # Share out the words between the topics
+        expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
+        R = sparseScalarQuotientOfDot(W, expMeans, vocab)
+        S = expMeans * R.dot(vocab.T)
+
         # Update the Means
         vMat   = (2 * s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
         rhsMat = vMat + isigT.dot(topicMean)
-- 
2.43.0


From b60c2fe77cfd6c2949c14660f3c596c6e2d488d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 131/148] fix: the bound of CTM left out the largest score of
 each document, and took a determinant for its logarithm

---
 sidetopics/model/ctm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index b9e67a3..68906f7 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -427,7 +427,7 @@ def var_bound(data, modelState, queryState):
     
     # Distribution over document topics
     bound -= (D*K)/2. * LN_OF_2_PI
-    bound -= D/2. * la.det(sigT)
+    bound -= D/2. * np.linalg.slogdet(sigT)[1]
     diff   = means - topicMean[np.newaxis,:]
     bound -= 0.5 * np.sum (diff.dot(isigT) * diff)
     bound -= 0.5 * np.sum (varcs * np.diag(isigT)[np.newaxis,:]) # = -0.5 * sum_d tr(V_d \Sigma^{-1}) when V_d is diagonal only.
@@ -447,6 +447,7 @@ def var_bound(data, modelState, queryState):
     
     expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
     bound -= -np.sum(sparseScalarProductOfSafeLnDot(W, expMeans, vocab).data)
+    bound += np.sum(docLens * means.max(axis=1)) # which was taken out of expMeans
     
     bound -= np.sum(docLens[:,np.newaxis] * lxi * ((s*s)[:,np.newaxis] - (xi * xi)))
     bound += np.sum(0.5 * docLens[:,np.newaxis] * (s[:,np.newaxis] + xi))
-- 
2.43.0


From 739ae884dcf502a3af17c4d0eaf23cf0b0261fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 132/148] fix: the Bouchard models could not be queried for, or
 trained on, a single document

---
 sidetopics/model/ctm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 68906f7..b8e8395 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -131,7 +131,7 @@ def newQueryState(data, modelState):
     W   = data.words
     D,T = W.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(W.sum(axis=1)))
+    docLens = np.asarray(W.sum(axis=1)).ravel()
     
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
-- 
2.43.0


From 5c4a391180682469c3422f1aa48a4e05f7c967c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 133/148] fix: measuring the bound of STM (Bouchard) turned
 scores far below a document's largest into minus infinity

---
 sidetopics/model/stm_yv.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index d9c9c53..36bbb02 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -483,8 +483,7 @@ def var_bound(data, modelState, queryState, XTX = None):
     # so neither are included here.
     
     row_maxes = means.max(axis=1)
-    means -= row_maxes[:,np.newaxis]
-    expMeans = np.exp(means, out=means)
+    expMeans = np.exp(means - row_maxes[:,np.newaxis])
     bound -= -np.sum(sparseScalarProductOfSafeLnDot(W, expMeans, vocab).data)
     
     bound -= np.sum(docLens[:,np.newaxis] * lxi * ((s*s)[:,np.newaxis] - (xi * xi)))
@@ -494,9 +493,6 @@ def var_bound(data, modelState, queryState, XTX = None):
     
     bound -= np.dot(s, docLens)
     
-    means = np.log(expMeans, out=expMeans)
-    means += row_maxes[:,np.newaxis]
-    
     return bound
 
 
-- 
2.43.0


From 6a45c8dc238b63b5bd8f3cf757803106884fc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:11 +0000
Subject: [PATCH 134/148] fix: text_to_numpy cut off decimals in all files
 whose first line has none

---
 sidetopics/run/text_to_numpy.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index e0ea142..ed6a33f 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -15,11 +15,23 @@ def die(errmsg):
     print (errmsg)
     exit(-1)
 
+def dtype_for(infile):
+    '''
+    Integers if that's what every number in the file is (and they fit), otherwise floats
+    '''
+    with open(infile, "r") as f:
+        for line in f:
+            for text in line.split():
+                digits = text[1:] if text[0] in "+-" else text
+                if not digits.isdigit() or int(digits) > np.iinfo(np.int32).max:
+                    return np.float32
+    return np.int32
+
 def save_as_numpy_sparse (infile, row_count):
     with open (infile, "r") as f:
         first_line = f.readline()
         col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+    dtype = dtype_for(infile)
 
     matrix = sp.lil_matrix((row_count, col_count), dtype=dtype)
     row = 0
@@ -46,7 +58,7 @@ def save_as_numpy (infile, row_count):
     with open (infile, "r") as f:
         first_line = f.readline()
         col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+    dtype = dtype_for(infile)
 
     matrix = np.ndarray(shape=(row_count, col_count), dtype=dtype)
     row = 0
-- 
2.43.0


From 837aa137d5c16e9d1e4c1375f0d0f36087d1cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:11 +0000
Subject: [PATCH 135/148] fix: text_to_numpy dropped negative numbers from
 sparse matrices

---
 sidetopics/run/text_to_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index ed6a33f..26743a5 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -40,7 +40,7 @@ def save_as_numpy_sparse (infile, row_count):
             try:
                 vals = [float(fstr) for fstr in line.split()]
                 for (col, val) in enumerate(vals):
-                    if val > 0:
+                    if val != 0:
                         matrix[row, col] = val
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
-- 
2.43.0


From 0f2381fcf49e6c2d03bb864d78116485a3041200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:11 +0000
Subject: [PATCH 136/148] fix: selectusers passed over the group after each
 exhausted one, and failed once all were

---
 sidetopics/run/selectusers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index f80b502..20b4c70 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -79,9 +79,9 @@ def select_group_contribs(user_counts, target):
     candidates = [g for g in group_counts.keys()]
     group_contribs = {g:0 for g in candidates}
     total_assigned = 0
-    while total_assigned < target:
+    while total_assigned < target and len(candidates) > 0:
         group_target = 1 + (target - total_assigned) // len(candidates)
-        for group in candidates:
+        for group in list(candidates): # as groups are removed on the way
             if group_counts[group] < group_target:
                 group_contribs[group] += group_counts[group]
                 total_assigned        += group_counts[group]
-- 
2.43.0


From 8f6f3374395c398eb82ac8626408a31143aca0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:11 +0000
Subject: [PATCH 137/148] fix: reshape_results failed on results without any
 documents in the upper ranges

---
 sidetopics/run/reshape_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 3af598e..8ffec35 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -156,7 +156,7 @@ def roll_up_and_average(dic, dst, srcs):
         for m in Ms:
             dic[dst][m] += dic[src][m] * dic[src][DocCount]
     for m in Ms:
-        dic[dst][m] = dic[dst][m] / dic[dst][DocCount]
+        dic[dst][m] = dic[dst][m] / max(dic[dst][DocCount], 1) # ranges may be empty
 
 
 def read_mrr(line, file):
-- 
2.43.0


From 85ed1ea133d471b1472a218ebe3deb58f7c4763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:11 +0000
Subject: [PATCH 138/148] fix: reshape_results escaped every quote twice over

---
 sidetopics/run/reshape_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 8ffec35..cd478a9 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -237,7 +237,8 @@ def write_all_results(path, results_dict):
     def quoteText(value):
         # Use Pascal / Excel style quote escaping
         value = value.replace(TextLeftQuote,  TextQuoteEscape + TextLeftQuote)
-        value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
+        if TextRightQuote != TextLeftQuote:
+            value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
         value = TextLeftQuote + value + TextRightQuote
         return value
 
-- 
2.43.0


From 6eb31a69ce540ff3d7b91921f20e9981164f3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:11 +0000
Subject: [PATCH 139/148] fix: reshape_results dropped all that follows results
 without an average precision

---
 sidetopics/run/reshape_results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index cd478a9..a1180cf 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -175,8 +175,8 @@ def read_map(line, file):
         line = line.strip()
         if line.startswith(MapPrefix):
             return float(line[len(MapPrefix):]), file.readline()
-        if line == "":
-            return -1, line
+        if line == "": # end of this batch, though not of the file
+            return -1, "\n"
         line = file.readline()
 
     return -1, line
-- 
2.43.0


From 34ad1e28d9d113dd82c5d2e3091828168a441094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:24 +0000
Subject: [PATCH 140/148] fix: arxiv_to_aan took the 'and' after a comma for
 part of the last author's name

---
 sidetopics/run/arxiv_to_aan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/arxiv_to_aan.py b/sidetopics/run/arxiv_to_aan.py
index b48ee6f..7de8ed6 100644
--- a/sidetopics/run/arxiv_to_aan.py
+++ b/sidetopics/run/arxiv_to_aan.py
@@ -7,7 +7,7 @@ import re
 LatexEscape = re.compile(r"\\['`^" + '"' + r"H~ckl=b.druvtoi]")
 Dashes = re.compile(r"^-{15,}$")
 StartsWithWhiteSpace = re.compile(r"^\s{2,}\S.*$")
-BibTextNameDelimiter = re.compile(r"(?:\s*,\s*|\s+and\s+)")
+BibTextNameDelimiter = re.compile(r"(?:\s*,\s*and\s+|\s*,\s*|\s+and\s+)")
 
 class PaperMetadata():
 
-- 
2.43.0


From 5ad7be55c6612a3c64bf89fcb46b87e7020aee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:46 +0000
Subject: [PATCH 141/148] fix: report generation accepts the models its help
 names (ctm_bohning, ...)

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 931e700..75058b3 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -77,10 +77,10 @@ def run(args):
     
     if args.model.endswith(Bohning):
         bounds = [Bohning]
-        model  = args.model[:-len(Bohning)]
+        model  = args.model[:-len(Bohning)].rstrip('_')
     elif args.model.endswith(Bouchard):
         bounds = [Bouchard]
-        model  = args.model[:-len(Bouchard)]
+        model  = args.model[:-len(Bouchard)].rstrip('_')
     else:
         bounds = [Bouchard, Bohning]
         model = args.model
-- 
2.43.0


From 68b08797d237166837290c8f6f2f764b343e8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:46 +0000
Subject: [PATCH 142/148] fix: report templates are looked for in the folder
 they are in

---
 sidetopics/run/report_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 75058b3..73e66d3 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -17,7 +17,7 @@ from os.path import sep
 CtmTemplateFileName = "CtmResultsSheet-Template.ipynb"
 StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
-TemplateDir = os.path.dirname (os.path.dirname (__file__)) + os.path.sep + 'notebooks'
+TemplateDir = os.path.dirname (os.path.dirname (os.path.dirname (os.path.abspath (__file__)))) + os.path.sep + 'notebooks'
 CodeDir     = os.path.dirname(TemplateDir)
 CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
 StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
-- 
2.43.0


From 3e2e9730df4ef58c9437c5aa40eb818e9378049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:46 +0000
Subject: [PATCH 143/148] fix: a report does not list files which merely start
 like an output (backups, partial copies)

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 73e66d3..a5bdfe5 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -19,8 +19,8 @@ StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
 TemplateDir = os.path.dirname (os.path.dirname (os.path.dirname (os.path.abspath (__file__)))) + os.path.sep + 'notebooks'
 CodeDir     = os.path.dirname(TemplateDir)
-CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
-StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
+CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}\.pkl$"
+StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}\.pkl$"
 
 CtmReportFileFormat = "ctm_%s_k_%d.ipynb"
 StmReportFileFormat = "stm_yv_%s_k_%d_p_%d.ipynb"
-- 
2.43.0


From dd3e1a96e48d4213fedf51bb0d132d4586c536c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:46 +0000
Subject: [PATCH 144/148] fix: report generation returns the list of files
 created, as documented

---
 sidetopics/run/report_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index a5bdfe5..d363190 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -96,13 +96,14 @@ def run(args):
     if model == Ctm:
         if args.dataset != Tweets:
             raise ValueError ("No report template for CTM run on datasets other than Tweets (you specified " + args.dataset + ")")
-        generate_reports_ctm(bounds, topicCounts, args.output_files, args.report_dir, args.template_dir)
+        results = generate_reports_ctm(bounds, topicCounts, args.output_files, args.report_dir, args.template_dir)
     elif model == StmYv:
-        generate_reports_stm_yv(bounds, topicCounts, latentSizes, args.output_files, args.report_dir, args.template_dir, args.dataset)
+        results = generate_reports_stm_yv(bounds, topicCounts, latentSizes, args.output_files, args.report_dir, args.template_dir, args.dataset)
     else:
         raise ValueError ("No such model " + model + " (derived from " + args.model + ")")
     
-    
+    return [reportFile for reportFile, folds in results.items() if folds > 0]
+
 
 def _generate_report(fnameRegex, rawOutDir, reportFile, templateDir, modelType, bound, dataset=Tweets):
     '''
-- 
2.43.0


From 2d6c63781b28393574ba443205d2a0371d50d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:43 +0000
Subject: [PATCH 145/148] fix: ctm_grad_arb.topicDists asked a query state for
 a mean it does not have

---
 sidetopics/model/ctm_grad_arb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 6159fb8..4ef35bd 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
-- 
2.43.0


From d9706231b2fcae4030431f2834e4e3126c7505f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:43 +0000
Subject: [PATCH 146/148] fix: ctm_grad_arb could not be queried for a single
 document

---
 sidetopics/model/ctm_grad_arb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 4ef35bd..8582684 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -150,7 +150,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
-- 
2.43.0


From ccad2dd46d6e41e9637a7812ea5d197d5e9604d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:43 +0000
Subject: [PATCH 147/148] fix: ctm_grad_arb.query returned some of the state it
 was given rather than what it found

---
 sidetopics/model/ctm_grad_arb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 8582684..42c8bc4 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -361,7 +361,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
-- 
2.43.0


From 1a1de5640427843bfb264c6f8416b1bdf3f71ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:11 +0000
Subject: [PATCH 148/148] fix: ctm_grad_arb mixed precisions when trained in
 single precision

---
 sidetopics/model/ctm_grad_arb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 42c8bc4..5c9b77d 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan):
             isigT = la.inv(sigT)
 
         # FIXME Undo debug
-        sigT  = np.eye(K)
+        sigT  = np.eye(K, dtype=dtype)
         isigT = la.inv(sigT)
         
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
-- 
2.43.0

