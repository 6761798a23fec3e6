From d3a0877feddb4d00e76737e7aa6284c0ca2b9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 01/32] fix: index the symmetric scaling vector by row in the
 SGS factor initialisation

The scaling vector has one entry per row but was indexed by the position of
the diagonal entry in the non-zero array, which is out of bounds and wrong.
---
 src/async_ilu_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..7a18982 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -118,8 +118,8 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]]
+				                   * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From c907d6abb4f25d1564ed7c53249816e581b1e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 02/32] fix: make the parallel prefix sum correct for any team
 size

The old version used the natural instead of the binary logarithm of the number
of threads, accessed entries out of bounds when there were more threads than
entries, wrote past the end of the array and assumed that as many threads are
granted as requested.
---
 src/utils/prefix_sum.cpp | 73 ++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 48 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..c9166d8 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -1,22 +1,11 @@
 
 #include <omp.h>
 #include <algorithm>
-#include <cmath>
+#include <vector>
 
 namespace blasted {
 
 
-template <typename T>
-static inline T power(const T x, const int exponent)
-{
-    T ans = static_cast<T>(1);
-    for (int i = 0; i < exponent; i++) {
-        ans *= x;
-    }
-    return ans;
-}
-
-
 template <typename IndexType>
 void prefix_sum(IndexType *const counts, const int num_entries)
 {
@@ -26,49 +15,37 @@ void prefix_sum(IndexType *const counts, const int num_entries)
         return;
     }
 
-    const int nthreads = omp_get_max_threads();
-    const IndexType def_num_witems = (num_entries - 1) / nthreads + 1;
+    // One total for each chunk; never more chunks than entries
+    const int max_chunks = std::min(omp_get_max_threads(), num_entries);
+    std::vector<IndexType> totals(max_chunks, 0);
+    IndexType *const chunk_totals = totals.data();
 
-#pragma omp parallel
+#pragma omp parallel num_threads(max_chunks)
     {
+        // We may get fewer threads than we asked for
+        const int nthreads = omp_get_num_threads();
         const int thread_id = omp_get_thread_num();
-        const IndexType startidx = thread_id * def_num_witems;
-        const IndexType endidx =
-            std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
-
-#pragma omp barrier
-
-        IndexType partial_sum = startval;
-        for (IndexType i = startidx + 1; i < endidx; ++i) {
-            auto nnz = counts[i];
+        const int base = num_entries / nthreads, rem = num_entries % nthreads;
+        const int startidx = thread_id * base + std::min(thread_id, rem);
+        const int endidx = startidx + base + (thread_id < rem ? 1 : 0);
+
+        // Exclusive scan of this thread's chunk
+        IndexType partial_sum = 0;
+        for (int i = startidx; i < endidx; i++) {
+            const IndexType count = counts[i];
             counts[i] = partial_sum;
-            partial_sum += nnz;
-        }
-        if (thread_id != nthreads - 1) {
-            counts[endidx] = partial_sum;
+            partial_sum += count;
         }
-    }
+        chunk_totals[thread_id] = partial_sum;
 
-    counts[0] = 0;
-
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
-    for (int ilvl = 0; ilvl < levels; ilvl++) {
-        const IndexType factor = power(2, (ilvl + 1));
-        const IndexType lvl_num_witems = factor * def_num_witems;
-        const int ntasks = (nthreads - 1) / factor + 1;
+#pragma omp barrier
 
-#pragma omp parallel for
-        for (int itask = 0; itask < ntasks; itask++) {
-            const IndexType startidx = std::min(
-                num_entries, lvl_num_witems / 2 + itask * lvl_num_witems + 1);
-            const IndexType endidx =
-                std::min(num_entries, (itask + 1) * lvl_num_witems + 1);
-            const IndexType baseval = counts[startidx - 1];
-            for (int i = startidx; i < endidx; i++) {
-                counts[i] += baseval;
-            }
-        }
+        // Shift by the sum of all previous chunks
+        IndexType offset = 0;
+        for (int ithr = 0; ithr < thread_id; ithr++)
+            offset += chunk_totals[ithr];
+        for (int i = startidx; i < endidx; i++)
+            counts[i] += offset;
     }
 }
 
-- 
2.43.0


From 42c3673a6db2d06b11bc472804d08d34081505ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 03/32] fix: finish a column BGS sweep before the next one
 resets its accumulators

Without the barrier a thread could reset temp for the next sweep while others
were still subtracting the contributions of the previous sweep from it.
---
 src/solverops_sgs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solverops_sgs.cpp b/src/solverops_sgs.cpp
index e54e2ef..d6ffecc 100644
--- a/src/solverops_sgs.cpp
+++ b/src/solverops_sgs.cpp
@@ -247,7 +247,8 @@ void CSC_BGS_Preconditioner<scalar,index>::apply(const scalar *const rr,
 				temp[j] = rr[j]*dblocks[j];
 			}
 
-#pragma omp for schedule(dynamic, thread_chunk_size) nowait
+			// All updates to temp must be over before the next sweep resets it
+#pragma omp for schedule(dynamic, thread_chunk_size)
 			for(index j = cmat.nbcols-1; j >= 0; j--)
 			{
 				zz[j] = temp[j];
-- 
2.43.0


From 5e45a027c8a871cea366f7367f1b1ac712f263d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 04/32] fix: use the row length of the buffer in CSR
 updateBlock

The buffer is a row-major bsi x bsj block, as in submitBlock; using bsi as the
row length adds wrong entries and reads out of bounds for non-square blocks.
---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..47def26 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -678,7 +678,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From 3b6b27dc8d1bfb7ef440c336432069a5068c654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 05/32] fix: take the number of non-zeros of a wrapped CSR
 matrix from the last row pointer

It was read from one past the end of the row pointers.
---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 47def26..12a3f49 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -494,7 +494,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From 4064378c9f7356633f556341d3c5dc5d5acd3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 06/32] fix: set the dimensions of a BSR matrix constructed
 from a non-zero structure

The number of block-rows given to the constructor was ignored.
---
 src/blockmatrices.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 12a3f49..6b519cb 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -176,6 +176,9 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	constexpr int bs2 = bs*bs;
+	mat.nbrows = n_brows;
+	mat.nbstored = brptrs[n_brows];
+	mat.nnzb = mat.nbstored;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
 	mat.diagind.resize(mat.nbrows);
-- 
2.43.0


From 10492f9a013831cd4b5f11792af883e1709be2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 07/32] fix: give the BSR matrix taking over a raw matrix all
 its row pointers

The array of block-row pointers has one more entry than there are block-rows.
---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 6b519cb..d56d12b 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -216,7 +216,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
-- 
2.43.0


From b24054c75ea54ce77f231f82c29da2d2d4275342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 08/32] fix: initialise nbstored of an empty RawBSRMatrix

---
 include/srmatrixdefs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/srmatrixdefs.hpp b/include/srmatrixdefs.hpp
index c8d60f2..0037a12 100644
--- a/include/srmatrixdefs.hpp
+++ b/include/srmatrixdefs.hpp
@@ -146,7 +146,7 @@ struct RawBSRMatrix
 	/// Default constructor
 	RawBSRMatrix()
 		: browptr{nullptr}, bcolind{nullptr}, vals{nullptr}, diagind{nullptr}, browendptr{nullptr},
-		  nbrows{0}, nnzb{0}
+		  nbrows{0}, nnzb{0}, nbstored{0}
 	{ }
 
 	/// Set data pointers
-- 
2.43.0


From 7dd0fbf16b0d600c75a54578c057f5bcbe5c3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 09/32] fix: pass the diagnostics and threading flags of scalar
 ILU(0) variants in order

The level-scheduled and reordered scalar ILU(0) preconditioners passed the
threading flags where the base class expects the diagnostics flag, so the
requested diagnostics were not computed and sequential factorization ran with
threads.
---
 src/solverops_ilu0.cpp        | 2 +-
 src/solverops_levels_ilu0.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..b5db623 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -403,7 +403,7 @@ ReorderedAsyncILU0_SRPreconditioner<scalar,index>
                                       const FactInit finit, const ApplyInit ainit,
                                       const bool threadedfactor, const bool threadedapply)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix),nbuildsweeps,napplysweeps,true, tcs,
-	                                           finit, ainit, threadedfactor,threadedapply),
+	                                           finit, ainit, false, threadedfactor, threadedapply),
 	  reord{reorderscale}
 { }
 
diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 5d88abdc012b90e8963721a8531f4a2914c898b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 10/32] fix: report allocation failures as std::bad_alloc

Aligned allocations were never checked, so a failure ended in a null pointer
dereference. Freed storage is no longer referred to when the allocation that
was to replace it fails.
---
 include/arrayview.hpp         | 19 ++++++++++++++++++-
 src/rawsrmatrixutils.cpp      |  2 +-
 src/scmatrix.cpp              |  2 ++
 src/solverops_ilu0.cpp        |  1 -
 src/solverops_jacobi.cpp      |  3 +--
 src/solverops_levels_ilu0.cpp |  1 -
 src/solverops_levels_sgs.cpp  |  1 -
 src/solverops_sgs.cpp         |  1 -
 src/solverops_sgs_sai.cpp     |  1 -
 9 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/arrayview.hpp b/include/arrayview.hpp
index c560d65..f032853 100644
--- a/include/arrayview.hpp
+++ b/include/arrayview.hpp
@@ -5,6 +5,8 @@
 #ifndef BLASTED_ARRAY_VIEW_H
 #define BLASTED_ARRAY_VIEW_H
 
+#include <cstddef>
+#include <new>
 #include <type_traits>
 #include <boost/align/aligned_alloc.hpp>
 
@@ -14,9 +16,19 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
+/// Allocates aligned memory to be released with aligned_free
+/** \throw std::bad_alloc if the memory is not available
+ */
+inline void *aligned_alloc(const std::size_t alignment, const std::size_t size)
+{
+	void *const ptr = boost::alignment::aligned_alloc(alignment, size);
+	if(!ptr && size > 0)
+		throw std::bad_alloc();
+	return ptr;
+}
+
 template <typename T>
 class ArrayView;
 
@@ -92,6 +104,11 @@ public:
 		if(owner)
 			aligned_free(const_cast<typename std::remove_const<T>::type*>(data));
 
+		// do not refer to the freed memory if the allocation fails
+		data = nullptr;
+		len = 0;
+		owner = false;
+
 		data = (T*)aligned_alloc(CACHE_LINE_LEN, size*sizeof(T));
 		len = size;
 		owner = true;
diff --git a/src/rawsrmatrixutils.cpp b/src/rawsrmatrixutils.cpp
index 51e738a..7c2595b 100644
--- a/src/rawsrmatrixutils.cpp
+++ b/src/rawsrmatrixutils.cpp
@@ -23,7 +23,6 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
 template <typename mscalar, typename mindex>
@@ -171,6 +170,7 @@ void alignedDestroyRawBSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	aligned_free(rmat.vals);
 	if(rmat.nnzb != rmat.nbstored)
 		aligned_free(rmat.browendptr);
+	rmat = RawBSRMatrix<scalar,index>();
 }
 
 template void alignedDestroyRawBSRMatrix(RawBSRMatrix<double,int>& rmat);
diff --git a/src/scmatrix.cpp b/src/scmatrix.cpp
index fbd00f7..8651635 100644
--- a/src/scmatrix.cpp
+++ b/src/scmatrix.cpp
@@ -141,6 +141,8 @@ void alignedDestroyRawBSCMatrix(RawBSCMatrix<scalar,index>& cmat)
 	aligned_free(cmat.browind);
 	aligned_free(cmat.vals);
 	aligned_free(cmat.diagind);
+	cmat.bcolptr = cmat.browind = cmat.diagind = nullptr;
+	cmat.vals = nullptr;
 }
 
 template <typename scalar, typename index>
diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index b5db623..e90ef93 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -13,7 +13,6 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
 template <typename scalar, typename index, int bs, StorageOptions stor>
diff --git a/src/solverops_jacobi.cpp b/src/solverops_jacobi.cpp
index bab2018..40a77c8 100644
--- a/src/solverops_jacobi.cpp
+++ b/src/solverops_jacobi.cpp
@@ -12,7 +12,6 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
 template <typename scalar, typename index, int bs, StorageOptions stor>
@@ -150,7 +149,7 @@ template <typename scalar, typename index>
 PrecInfo JacobiSRPreconditioner<scalar,index>::compute()
 {
 	if(!dblocks) {
-		dblocks = (scalar*)boost::alignment::aligned_alloc(CACHE_LINE_LEN,mat.nbrows*sizeof(scalar));
+		dblocks = (scalar*)aligned_alloc(CACHE_LINE_LEN,mat.nbrows*sizeof(scalar));
 #ifdef DEBUG
 		std::cout << " CSR MatrixView: precJacobiSetup(): Initial setup.\n";
 #endif
diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index b4e5e3e..4bd2375 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -25,7 +25,6 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
 template <typename scalar, typename index, int bs, StorageOptions stor>
diff --git a/src/solverops_levels_sgs.cpp b/src/solverops_levels_sgs.cpp
index a58dfcd..afb5d35 100644
--- a/src/solverops_levels_sgs.cpp
+++ b/src/solverops_levels_sgs.cpp
@@ -25,7 +25,6 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
 template <typename scalar, typename index, int bs, StorageOptions stor>
diff --git a/src/solverops_sgs.cpp b/src/solverops_sgs.cpp
index d6ffecc..d1d31ab 100644
--- a/src/solverops_sgs.cpp
+++ b/src/solverops_sgs.cpp
@@ -11,7 +11,6 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
 template <typename scalar, typename index, int bs, StorageOptions stor>
diff --git a/src/solverops_sgs_sai.cpp b/src/solverops_sgs_sai.cpp
index 20f8347..8ba0c61 100644
--- a/src/solverops_sgs_sai.cpp
+++ b/src/solverops_sgs_sai.cpp
@@ -8,7 +8,6 @@
 
 namespace blasted {
 
-using boost::alignment::aligned_alloc;
 using boost::alignment::aligned_free;
 
 template <typename scalar, typename index, int bs, StorageOptions stopt>
-- 
2.43.0


From 8e31e17132b62a41c3af1d044ac24ba00cdc4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 11/32] fix: allocate space for all stored blocks when copying
 a raw BSR matrix

All nbstored blocks are copied, which can be more than browptr[nbrows].
---
 src/rawsrmatrixutils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rawsrmatrixutils.cpp b/src/rawsrmatrixutils.cpp
index 7c2595b..2bc521a 100644
--- a/src/rawsrmatrixutils.cpp
+++ b/src/rawsrmatrixutils.cpp
@@ -124,8 +124,8 @@ RawBSRMatrix<scalar,index> copyRawBSRMatrix(const CRawBSRMatrix<scalar,index>& m
 	RawBSRMatrix<scalar,index> nmat;
 	nmat.nbrows = mat.nbrows;
 	nmat.browptr = (index*)aligned_alloc(CACHE_LINE_LEN,(mat.nbrows+1)*sizeof(index));
-	nmat.bcolind = (index*)aligned_alloc(CACHE_LINE_LEN,mat.browptr[mat.nbrows]*sizeof(index));
-	nmat.vals = (scalar*)aligned_alloc(CACHE_LINE_LEN,mat.browptr[mat.nbrows]*bs*bs*sizeof(scalar));
+	nmat.bcolind = (index*)aligned_alloc(CACHE_LINE_LEN,mat.nbstored*sizeof(index));
+	nmat.vals = (scalar*)aligned_alloc(CACHE_LINE_LEN,mat.nbstored*bs*bs*sizeof(scalar));
 	nmat.diagind = (index*)aligned_alloc(CACHE_LINE_LEN,mat.nbrows*sizeof(index));
 	nmat.nnzb = mat.nnzb;
 	nmat.nbstored = mat.nbstored;
-- 
2.43.0


From c217ba007c71bf257c4456763796152cb21a2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 12/32] fix: sort the blocks of each block-row when converting
 COO to BSR

Blocks were stored in the order in which the rows of the block-row reach them,
but the preconditioners and kernels need sorted block-columns, with all blocks
left of the diagonal stored before it.
---
 src/coomatrix.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..1b2ca6c 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -322,10 +322,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 	bcolidxs.reserve(nnz/bs);
 	std::vector<bool> tallybrows(bmat.nbrows, false);
 
-	/** If nonzeros in each row were sorted by column initially, 
-	 * blocks in each block-row would end up sorted by block-column.
-	 */
-
 	for(index irow = 0; irow < nrows; irow++)
 	{
 		const index curbrow = irow/bs;
@@ -345,8 +341,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 			// if it does not exist, add the current block col index
 			if(it == bcolidxs.end()) {
 				bcolidxs.push_back(curbcol);
-				if(curbcol == curbrow)
-					bmat.diagind[curbrow] = bnnz;
 				bnnz++;
 			}
 		}
@@ -360,6 +354,15 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 		if(bmat.browptr[i] == 0)
 			bmat.browptr[i] = bmat.browptr[i+1];
 
+	// sort each block-row by block-columns and locate the diagonal blocks
+	for(index i = 0; i < bmat.nbrows; i++)
+	{
+		std::sort(bcolidxs.begin()+bmat.browptr[i], bcolidxs.begin()+bmat.browptr[i+1]);
+		for(index j = bmat.browptr[i]; j < bmat.browptr[i+1]; j++)
+			if(bcolidxs[j] == i)
+				bmat.diagind[i] = j;
+	}
+
 	bmat.bcolind.resize(bnnz);
 	bmat.vals.resize(bnnz*bs*bs);
 
-- 
2.43.0


From c5e85f111d5c158310dcd73b25533c81f7b83960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 13/32] fix: mark missing diagonal entries when converting COO
 to CSR

Their positions were left uninitialised; now they are -1 as in BSR matrices.
---
 src/coomatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 1b2ca6c..5ca695e 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -278,6 +278,7 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToCSR() const
 
 	for(index i=0; i < nrows; i++)
 	{
+		cmat.diagind[i] = -1;             // if there's no diagonal entry, we leave this as -1
 		for(index j = rowptr[i]; j < rowptr[i+1]; j++)
 		{
 			if(entries[j].colind == entries[j].rowind)
-- 
2.43.0


From ce04af816f99821dd94ed59585ac9ea67aa54de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 14/32] fix: refuse truncated and malformed Matrix Market files

Entries were not checked to have been read at all, indices were not checked to
be in range, additional data, trailing characters and complex values were
silently misread, and a file ending before its size line was an endless loop.
---
 src/coomatrix.cpp | 68 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 5ca695e..a1d0ab3 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -18,6 +18,7 @@
  */
 
 #include <cassert>
+#include <cctype>
 #include <algorithm>
 #include <fstream>
 #include <sstream>
@@ -61,7 +62,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.scalartype = COMPLEX;
 	else if(typeofmatrix[3] == "integer")
 		descr.scalartype = INTEGER;
-	else if(typeofmatrix[3] == "patter")
+	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
 		std::cout << "! Invalid scalar type!\n";
@@ -89,9 +90,11 @@ template <typename index>
 std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescription& descr)
 {
 	// read and discard lines until the first line that does not begin with '%'
-	std::string line = "%";
-	while(line[0] == '%')
-		std::getline(fin, line);
+	std::string line;
+	do {
+		if(!std::getline(fin, line))
+			throw MatrixReadException("! getSizeFromMatrixMarket: No size line!");
+	} while(line[0] == '%');
 
 	// parse matrix size line
 	std::istringstream iss(line);
@@ -111,11 +114,17 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 		}
 	}
 
+	if(sizestr.size() != (descr.storagetype == COORDINATE ? 3 : 2))
+		throw MatrixReadException("! getSizeFromMatrixMarket: Too many terms in the size line!");
+
 	std::vector<index> sizes(sizestr.size());
 	for(int i = 0; i < static_cast<int>(sizes.size()); i++)
 	{
 		try {
-			sizes[i] = std::stoi(sizestr[i]);
+			size_t length = 0;
+			sizes[i] = std::stoi(sizestr[i], &length);
+			if(length != sizestr[i].size() || sizes[i] < 0)
+				throw MatrixReadException("! getSizeFromMatrixMarket: Invalid size!");
 		}
 		catch(const std::invalid_argument& e) {
 			std::cout << "! getSizeFromMatrixMarket: Invalid size!!\n";
@@ -130,6 +139,28 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 	return sizes;
 }
 
+/// Reads one number, which must be followed by white space or the end of the file
+template <typename T>
+static void readNumber(std::ifstream& fin, T& number)
+{
+	if(!(fin >> number))
+		throw MatrixReadException("! Invalid or missing entry in the matrix file!");
+
+	const int next = fin.peek();
+	if(next != std::ifstream::traits_type::eof() && !std::isspace(next))
+		throw MatrixReadException("! Invalid entry in the matrix file!");
+}
+
+/// Makes sure that nothing but white space is left in the file
+static void checkEndOfData(std::ifstream& fin)
+{
+	std::string term;
+	if(fin >> term)
+		throw MatrixReadException("! More entries than expected in the matrix file!");
+	if(fin.bad())
+		throw MatrixReadException("! Error reading the matrix file!");
+}
+
 template <typename scalar>
 device_vector<scalar> readDenseMatrixMarket(const std::string file)
 {
@@ -148,6 +179,8 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		fin.close();
 		throw "Matrix should be stored as dense!";
 	}
+	if(descr.scalartype != REAL && descr.scalartype != INTEGER)
+		throw MatrixReadException("! readDenseMatrixMarket: Can only read real or integer matrices.");
 
 	const std::vector<int> sizes = getSizeFromMatrixMarket<int>(fin,descr);
 	if(sizes.size() < 2) {
@@ -155,9 +188,11 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		throw "Size vector has less than 2 entries!";
 	}
 
-	device_vector<scalar> vals(sizes[0]*sizes[1]);
-	for(int i = 0; i < sizes[0]*sizes[1]; i++)
-		fin >> vals[i];
+	const size_t nvals = static_cast<size_t>(sizes[0])*sizes[1];
+	device_vector<scalar> vals(nvals);
+	for(size_t i = 0; i < nvals; i++)
+		readNumber(fin, vals[i]);
+	checkEndOfData(fin);
 
 	fin.close();
 	return vals;
@@ -199,8 +234,8 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	if(descr.storagetype != COORDINATE) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read coordinate storage.");
 	}
-	if(descr.scalartype == PATTERN) {
-		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read pattern matrices.");
+	if(descr.scalartype != REAL && descr.scalartype != INTEGER) {
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read real or integer matrices.");
 	}
 	if(descr.matrixtype != GENERAL) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read general matrices.");
@@ -211,16 +246,23 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	nnz = sizes[2];
 	nrows = sizes[0];
 	ncols = sizes[1];
+	if(nnz < nrows || nrows == 0)
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Every row must have an entry.");
 	entries.resize(nnz);
 
 	// read the entries
 	for(index i = 0; i < nnz; i++) {
 		index ri, ci;
-		fin >> ri >> ci >> entries[i].value;
+		readNumber(fin, ri);
+		readNumber(fin, ci);
+		readNumber(fin, entries[i].value);
+		if(ri < 1 || ri > nrows || ci < 1 || ci > ncols)
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Index out of range.");
  		entries[i].rowind = ri-1;
 		entries[i].colind = ci-1;
 	}
 
+	checkEndOfData(fin);
 	fin.close();
 
 	// sort by row
@@ -246,7 +288,9 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 		k++;
 	}
 	
-	assert(nextrow == nrows);       //< The previous row should have been the last, ie. nrows-1
+	// The previous row should have been the last, ie. nrows-1
+	if(nextrow != nrows)
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Every row must have an entry.");
 	rowits[nrows] = entries.end();
 	rowptr[nrows] = nnz;
 
-- 
2.43.0


From 01d7fa1ee39f7b95204613d765387ec65f2d952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 15/32] fix: locate the diagonal blocks again after reordering
 a matrix

---
 src/reorderingscaling.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 6bd8d90..885214e 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -195,6 +195,20 @@ void Reordering<scalar,index,bs>::applyOrdering(RawBSRMatrix<scalar,index>& mat,
 			}
 		}
 	}
+
+	// locate the diagonal blocks of the reordered matrix; -1 marks a missing diagonal block
+	if(mat.diagind && (rp.size() > 0 || cp.size() > 0))
+	{
+		for(index i = 0; i < mat.nbrows; i++)
+		{
+			mat.diagind[i] = -1;
+			for(index jj = mat.browptr[i]; jj < mat.browptr[i+1]; jj++)
+				if(mat.bcolind[jj] == i) {
+					mat.diagind[i] = jj;
+					break;
+				}
+		}
+	}
 }
 
 /** This is most likely not the best way to do it. The vector is first copied into a local
-- 
2.43.0


From 692b1e56317d64e1244f88cceac97323427cb409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 16/32] fix: map the solution of the reordered ILU back with
 the inverse column ordering

---
 src/solverops_ilu0.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index e90ef93..4a2c9be 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -461,8 +461,8 @@ void ReorderedAsyncILU0_SRPreconditioner<scalar,index>::apply(const scalar *cons
 		                  applyinittype, ra, za);
 	}
 
-	// reorder solution
-	reord->applyOrdering(za, FORWARD, COLUMN);
+	// return the solution to the original ordering of the unknowns
+	reord->applyOrdering(za, INVERSE, COLUMN);
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From da2d107ccab1dc3c615cfc35198308d9dd326a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 17/32] fix: columns of a SAI least-squares matrix need not be
 full

---
 src/sai.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sai.cpp b/src/sai.cpp
index e427b7e..d48ffef 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -349,7 +349,7 @@ LMatrix<scalar> gather_lhs_matrix(const SRMatrixStorage<const scalar,const index
 		const index start = sp.bcolptr[sp.sairowptr[row]+jcol],
 			end = sp.bcolptr[sp.sairowptr[row]+jcol+1];
 
-		assert(end-start == sp.nEqns[row]);
+		assert(end-start <= sp.nEqns[row]);
 
 #pragma omp simd
 		for(index ii = start; ii < end; ii++)
-- 
2.43.0


From f95fc93607a4732862a286071b7874a083632245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 18/32] fix: own the arrays of a raw CSR matrix that are handed
 over

---
 include/blockmatrices.hpp |  3 +++
 src/blockmatrices.ipp     | 16 ++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index a201c5a..4fe6f51 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -337,6 +337,9 @@ public:
 	          index *const cinds, scalar *const values, index *const dinds);
 
 	/// Transfers the arrays of a raw CSR matrix to itself and nulls the raw matrix
+	/** Make sure that memory in rmat is allocated using Boost aligned_alloc, because it will be
+	 * freed under that assumption.
+	 */
 	BSRMatrix(RawBSRMatrix<scalar,index>& rmat);
 
 	/// Construct from a SRMatrixStorage
diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index d56d12b..f8d33da 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -508,19 +508,19 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 
 template <typename scalar, typename index>
 BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
-	: AbstractMatrix<scalar,index>(CSR),
-	  mat(rmat.browptr, rmat.bcolind, rmat.vals, rmat.diagind,
-	      rmat.nbrows>0 ? &rmat.browptr[1]:nullptr, rmat.nbrows, rmat.nnzb, rmat.nbstored, 1)
+	: AbstractMatrix<scalar,index>(CSR)
 {
 	assert(rmat.nnzb == rmat.nbstored);
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
-	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
+	// Make sure to pass aligned memory!
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
+	if(rmat.nbrows > 0)
+		mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
 	rmat.browptr = rmat.bcolind = rmat.diagind = rmat.browendptr = nullptr; rmat.vals = nullptr;
-- 
2.43.0


From 727235c0a48f38a40c1c904150a14bf079e2f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 19/32] fix: mark rows without a diagonal block when setting
 the structure of a matrix

---
 src/blockmatrices.ipp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index f8d33da..cd6cd5c 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -188,9 +188,10 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	for(index i = 0; i < brptrs[mat.nbrows]; i++)
 		mat.bcolind[i] = bcinds[i];
 
-	// set diagonal blocks' locations
+	// set diagonal blocks' locations (-1 if a row does not have one)
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -289,9 +290,10 @@ void BSRMatrix<scalar,index,bs>::setStructure(const index n_brows,
 	for(index i = 0; i < brptrs[mat.nbrows]; i++)
 		mat.bcolind[i] = bcinds[i];
 
-	// set diagonal blocks' locations
+	// set diagonal blocks' locations (-1 if a row does not have one)
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -475,8 +477,9 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index n_brows,
 	for(index i = 0; i < brptrs[mat.nbrows]; i++)
 		mat.bcolind[i] = bcinds[i];
 
-	// set diagonal blocks' locations
+	// set diagonal blocks' locations (-1 if a row does not have one)
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -580,8 +583,9 @@ void BSRMatrix<scalar,index,1>::setStructure(const index n_brows,
 	for(index i = 0; i < brptrs[mat.nbrows]; i++)
 		mat.bcolind[i] = bcinds[i];
 
-	// set diagonal blocks' locations
+	// set diagonal blocks' locations (-1 if a row does not have one)
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
-- 
2.43.0


From c33d5a9960b48487e35cb1c3b9c9866fe4a2dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 20/32] fix: give access to the real storage of a block matrix

---
 include/blockmatrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index 4fe6f51..5623187 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -208,8 +208,8 @@ public:
 	virtual ~BSRMatrix();
 
 	/// Allows immutable access to the underlying matrix storage
-	const CRawBSRMatrix<scalar,index> *getRawSRMatrix() const {
-		return reinterpret_cast<const CRawBSRMatrix<scalar,index>*>(&mat);
+	const SRMatrixStorage<scalar,index>& getRawSRMatrix() const {
+		return mat;
 	}
 
 	/// Set the storage structure of the matrix
-- 
2.43.0


From b7eb251429cc7e8474c9efdecf0e0272d38b9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 21/32] fix: define the PETSc entry point for user factories as
 declared, and share one default factory per list

setup_blasted_stack_ext was declared in namespace blasted taking a reference but
defined with C linkage taking a pointer, so that applications could not link
against it; nested solvers were always set up with the default factory, one of
which was leaked for every level of the stack.
---
 src/blasted_petsc.cpp | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7df99..37de701 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -575,8 +575,8 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	return ierr;
 }
 
-int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
-                            Blasted_data_list *const bctv)
+/// Recursively sets up all BLASTed solvers in a solver stack using the factory stored in the list
+static PetscErrorCode setup_stack_recursive(KSP ksp, Blasted_data_list *const bctv)
 {
 	PetscErrorCode ierr = 0;
 	PC pc;
@@ -605,7 +605,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE,
 					"Only one subdomain per rank is supported.");
 
-		ierr = setup_blasted_stack(subksp[0], bctv); CHKERRQ(ierr);
+		ierr = setup_stack_recursive(subksp[0], bctv); CHKERRQ(ierr);
 	}
 	else if(ismg || isgamg) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
@@ -616,24 +616,24 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		for(int ilvl = 1; ilvl < nlevels; ilvl++) {
 			KSP smootherctx;
 			ierr = PCMGGetSmoother(pc, ilvl , &smootherctx); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherctx, bctv); CHKERRQ(ierr);
+			ierr = setup_stack_recursive(smootherctx, bctv); CHKERRQ(ierr);
 			/*
 			KSP smootherup, smootherdown;
 			ierr = PCMGGetSmootherDown(pc, ilvl , &smootherdown); CHKERRQ(ierr);
 			ierr = PCMGGetSmootherUp(pc, ilvl , &smootherup); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherdown, bctv, ilvl); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherup, bctv, ilvl+nlevels-1); CHKERRQ(ierr);*/
+			ierr = setup_stack_recursive(smootherdown, bctv, ilvl); CHKERRQ(ierr);
+			ierr = setup_stack_recursive(smootherup, bctv, ilvl+nlevels-1); CHKERRQ(ierr);*/
 		}
 		KSP coarsesolver;
 		ierr = PCMGGetCoarseSolve(pc, &coarsesolver); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(coarsesolver, bctv); CHKERRQ(ierr);
+		ierr = setup_stack_recursive(coarsesolver, bctv); CHKERRQ(ierr);
 	}
 	else if(isksp) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
 		ierr = PCSetUp(pc); CHKERRQ(ierr);
 		KSP subksp;
 		ierr = PCKSPGetKSP(pc, &subksp); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(subksp, bctv); CHKERRQ(ierr);
+		ierr = setup_stack_recursive(subksp, bctv); CHKERRQ(ierr);
 	}
 	else if(isshell) {
 		// if the PC is shell, this is the relevant KSP to pass to BLASTed for setup
@@ -654,10 +654,13 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 
 PetscErrorCode setup_blasted_stack(KSP ksp, Blasted_data_list *const bctx)
 {
-	FactoryBase<double,int> *factory = new SRFactory<double,int>();
-	bctx->bfactory = (void*)factory;
-	bctx->_defaultfactory = 1;
-	return setup_blasted_stack_ext(ksp, factory, bctx);
+	// The default factory is owned by the list and shared by all solver contexts in it
+	if(bctx->_defaultfactory != 1) {
+		FactoryBase<double,int> *factory = new SRFactory<double,int>();
+		bctx->bfactory = (void*)factory;
+		bctx->_defaultfactory = 1;
+	}
+	return setup_stack_recursive(ksp, bctx);
 }
 
 PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bctx)
@@ -735,3 +738,18 @@ void computeTotalTimes(Blasted_data_list *const bctv)
 }
 
 }
+
+namespace blasted {
+
+int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int>& factory,
+                            Blasted_data_list *const bctx)
+{
+	// Solvers already set up in this list may be using its default factory
+	if(bctx->_defaultfactory == 1)
+		throw std::logic_error("BLASTed: This list already uses the default factory!");
+
+	bctx->bfactory = (void*)&factory;
+	return setup_stack_recursive(ksp, bctx);
+}
+
+}
-- 
2.43.0


From 51253a931fcac5be11913e32b4264e9c8ccff39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 22/32] fix: offer a PETSc relaxation exactly for the
 preconditioners that have one

The decision was taken before the type of the preconditioner was read from the
options, from an uninitialised field.
---
 src/blasted_petsc.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 37de701..29ff73b 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -300,6 +300,11 @@ PetscErrorCode createNewPreconditioner(PC pc)
 
 	ctx->bprec = reinterpret_cast<void*>(precop);
 
+	// set a relaxation application only for supported preconditioners
+	if(precop->relaxationAvailable()) {
+		ierr = PCShellSetApplyRichardson(pc, &relax_local_blasted); CHKERRQ(ierr);
+	}
+
 	ctx->infolist = NULL;
 	if(ctx->compute_precinfo) {
 		PrecInfoList *bpinfo = new PrecInfoList;
@@ -711,15 +716,6 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
-	// set a relaxation application only for supported preconditioners
-	if(bctx->prectype != BLASTED_ILU0 &&
-	   bctx->prectype != BLASTED_CSC_BGS &&
-	   bctx->prectype != BLASTED_NO_PREC)
-	{
-		ierr = PCShellSetApplyRichardson(subpc, &relax_local_blasted);
-		CHKERRQ(ierr);
-	}
-
 	return ierr;
 }
 
-- 
2.43.0


From 9797e2238e6418741ef9d56a8b46702308b0f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 23/32] fix: let a failed setup of a PETSc preconditioner be
 repeated

The context was marked as set up before the preconditioner had been created, and
kept a dangling pointer to the previous one; applying or repeating the setup after
a reported error then used a null or deleted preconditioner.
---
 src/blasted_petsc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 29ff73b..aa8fcf6 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -192,11 +192,9 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 	printf(" ptype = %d and sweeps = %d,%d.\n", ptype, sweeps[0], sweeps[1]);
 #endif
 
-	ctx->bprec = nullptr;
 	ctx->prectype = ptype;
 	ctx->nbuildsweeps = sweeps[0];
 	ctx->napplysweeps = sweeps[1];
-	ctx->first_setup_done = true;
 	ctx->cputime = ctx->walltime = ctx->factorcputime = ctx->factorwalltime =
 		ctx->applycputime = ctx->applywalltime = 0;
 
@@ -225,6 +223,8 @@ PetscErrorCode createNewPreconditioner(PC pc)
 	// delete old matrix
 	BlastedPreconditioner* precop = reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
 	delete precop;
+	precop = nullptr;
+	ctx->bprec = nullptr;
 
 	/* get the local preconditioning matrix
 	 * we operate on the diagonal matrix block corresponding to this process
@@ -305,11 +305,10 @@ PetscErrorCode createNewPreconditioner(PC pc)
 		ierr = PCShellSetApplyRichardson(pc, &relax_local_blasted); CHKERRQ(ierr);
 	}
 
-	ctx->infolist = NULL;
-	if(ctx->compute_precinfo) {
+	if(ctx->compute_precinfo && !ctx->infolist) {
 		PrecInfoList *bpinfo = new PrecInfoList;
-		bpinfo->infolist.reserve(250);  // some reasonable number of linear solves expected
 		ctx->infolist = static_cast<void*>(bpinfo);
+		bpinfo->infolist.reserve(250);  // some reasonable number of linear solves expected
 	}
 
 	return ierr;
@@ -416,6 +415,7 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 	if(!ctx->first_setup_done) {
 		ierr = setupDataFromOptions(pc); CHKERRQ(ierr);
 		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
+		ctx->first_setup_done = true;
 	}
 
 	struct timeval time1, time2;
-- 
2.43.0


From a2ef23143a3d9d473acbf1354b111cdf6e606354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 24/32] fix: create the PETSc preconditioner again when the
 matrix uses other arrays

The preconditioner kept referring to the arrays of the first matrix after the
operator had been replaced or assembled elsewhere in memory.
---
 include/blasted_petsc.h |  5 +++++
 src/blasted_petsc.cpp   | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/include/blasted_petsc.h b/include/blasted_petsc.h
index b40e39c..75dee96 100644
--- a/include/blasted_petsc.h
+++ b/include/blasted_petsc.h
@@ -53,6 +53,11 @@ struct Blasted_node
 	 */
 	bool first_setup_done;
 
+	/// Arrays (row pointers, column indices, values, diagonal locations) of the local matrix
+	/// that \ref bprec was created for, and its dimensions; for internal use
+	const void *matarrays[4];
+	int matdims[2];
+
 	double cputime;           ///< Total CPU time taken by this preconditioner/relaxation instance
 	double walltime;          ///< Total wall-clock time taken by the preconditioner/relaxation
 	double factorcputime;     ///< CPU time taken for factorization
diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index aa8fcf6..16553be 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -205,6 +205,31 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 	return ierr;
 }
 
+/// Gets the arrays (row pointers, column indices, values, diagonal locations) and dimensions
+/// of the local preconditioning matrix
+static PetscErrorCode getMatrixStorage(PC pc, const int bs, const void *arrays[4], int dims[2])
+{
+	PetscErrorCode ierr = 0;
+	Mat A;
+	PetscInt localrows, localcols;
+	ierr = PCGetOperators(pc, NULL, &A); CHKERRQ(ierr);
+	ierr = MatGetLocalSize(A, &localrows, &localcols); CHKERRQ(ierr);
+
+	if(bs == 1) {
+		const Mat_SeqAIJ *const Adiag = (const Mat_SeqAIJ*)A->data;
+		arrays[0] = Adiag->i; arrays[1] = Adiag->j; arrays[2] = Adiag->a; arrays[3] = Adiag->diag;
+		dims[1] = Adiag->i[localrows];
+	}
+	else {
+		const Mat_SeqBAIJ *const Abdiag = (const Mat_SeqBAIJ*)A->data;
+		arrays[0] = Abdiag->i; arrays[1] = Abdiag->j; arrays[2] = Abdiag->a; arrays[3] = Abdiag->diag;
+		dims[1] = Abdiag->i[localrows/bs];
+	}
+	dims[0] = localrows;
+
+	return ierr;
+}
+
 /** \brief Generates a BLASTed preconditioner for the preconditioning operator in a sub PC
  *
  * The matrix is assumed to be stored in a sparse (block-)row storage format.
@@ -415,8 +440,21 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 	if(!ctx->first_setup_done) {
 		ierr = setupDataFromOptions(pc); CHKERRQ(ierr);
 		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
+		ierr = getMatrixStorage(pc, ctx->bs, ctx->matarrays, ctx->matdims); CHKERRQ(ierr);
 		ctx->first_setup_done = true;
 	}
+	else {
+		// the preconditioner refers to the arrays it was created for, so it needs to be
+		// created again if the matrix has been replaced or assembled elsewhere
+		const void *arrays[4];
+		int dims[2];
+		ierr = getMatrixStorage(pc, ctx->bs, arrays, dims); CHKERRQ(ierr);
+		if(!ctx->bprec || memcmp(arrays, ctx->matarrays, sizeof arrays)
+		   || memcmp(dims, ctx->matdims, sizeof dims)) {
+			ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
+			ierr = getMatrixStorage(pc, ctx->bs, ctx->matarrays, ctx->matdims); CHKERRQ(ierr);
+		}
+	}
 
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
-- 
2.43.0


From 063b4cd0d58b72196c2111768e9657e88a698530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 25/32] fix: check the result of KSPGetPC when setting up a
 local PETSc preconditioner

---
 src/blasted_petsc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 16553be..5c4e7f1 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -731,7 +731,7 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 
 	PC pc, subpc;
 
-	KSPGetPC(ksp, &pc);
+	ierr = KSPGetPC(ksp, &pc); CHKERRQ(ierr);
 	PetscBool isshell;
 	ierr = PetscObjectTypeCompare((PetscObject)pc,PCSHELL,&isshell); CHKERRQ(ierr);
 
-- 
2.43.0


From d8d60830eb6881a81bd0e38c5b79078d44a4b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 26/32] fix: refuse a vector file whose length does not match
 the given matrix

---
 src/utils/blasted_petsc_io.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 8c46996..ea92062 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -22,6 +22,13 @@ PetscErrorCode readVecFromFile(const char *const file, MPI_Comm comm, Mat a, Vec
 
 	if(a) {
 		ierr = MatCreateVecs(a, NULL, v); CHKERRQ(ierr);
+
+		PetscInt vecsize = 0;
+		ierr = VecGetSize(*v, &vecsize); CHKERRQ(ierr);
+		if(vecsize != size) {
+			ierr = VecDestroy(v); CHKERRQ(ierr);
+			SETERRQ(comm, PETSC_ERR_FILE_UNEXPECTED, "Vector in file does not match the matrix!");
+		}
 	}
 	else {
 		ierr = VecCreate(comm, v); CHKERRQ(ierr);
-- 
2.43.0


From bb6f757fd5ab14ddedd45e6e11f96ea39189e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 27/32] fix: do not lose an error in inserting a row in
 readMatFromCOOFile

---
 src/utils/blasted_petsc_io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index ea92062..5f674d2 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -101,11 +101,10 @@ PetscErrorCode readMatFromCOOFile(const char *const file, MPI_Comm comm, Mat *co
 		//#pragma omp critical
 		{
 			ierr = MatSetValues(*A, 1, &irow, ncols, &colinds[0], &values[0], INSERT_VALUES);
+			CHKERRQ(ierr);
 		}
 	}
 
-	CHKERRQ(ierr);
-
 	std::cout << "  Beginning assembly of matrix..\n" << std::endl;
 	ierr = MatAssemblyBegin(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 	ierr = MatAssemblyEnd(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
-- 
2.43.0


From 0c579400ad657f50389d8a11db2b662a5c9080d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 28/32] fix: readMatFromCOOFile_viaSR leaked a matrix and made
 rectangular matrices square

---
 src/utils/blasted_petsc_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 5f674d2..378a9bd 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -165,8 +165,10 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 	std::cout << "  Converted matrix to (B)CSR." << std::endl;
 
 	if(bs == 1) {
-		ierr = MatCreateMPIAIJWithArrays(PETSC_COMM_SELF, rmat->nbrows, rmat->nbrows,rmat->nbrows,
-		                                 rmat->nbrows, &rmat->browptr[0], &rmat->bcolind[0], &rmat->vals[0], A);
+		// a new matrix is created from the arrays
+		ierr = MatDestroy(A); CHKERRQ(ierr);
+		ierr = MatCreateMPIAIJWithArrays(PETSC_COMM_SELF, cmat.numrows(), cmat.numcols(), cmat.numrows(),
+		                                 cmat.numcols(), &rmat->browptr[0], &rmat->bcolind[0], &rmat->vals[0], A);
 		CHKERRQ(ierr);
 	}
 	else {
-- 
2.43.0


From 53e847c17532fd8c0cd4fab58792036873e65e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 29/32] fix: parsePetscCmd_string leaked its buffer when
 throwing and cut the last character of the longest values

---
 src/utils/cmdoptions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index f03d193..6b7913c 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -106,13 +106,13 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set); petsc_throw(ierr);
+	std::vector<char> tt(p_strlen+1);
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt.data(), p_strlen+1, &set);
+	petsc_throw(ierr);
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
+	const std::string stropt = tt.data();
 	return stropt;
 }
 
-- 
2.43.0


From ff7974b3ac96446158339af052c5a3052eccb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 30/32] fix: an optional array option that is not set gives an
 empty array, as documented

---
 src/utils/cmdoptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index 6b7913c..6fe87fe 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -145,11 +145,11 @@ std::vector<int> parseOptionalPetscCmd_intArray(const std::string optionname, co
 
 	ierr = PetscOptionsGetIntArray(NULL, NULL, optionname.c_str(), &arr[0], &len, &set);
 	petsc_throw(ierr);
-	arr.resize(len);
 
 	if(!set) {
-		throw InputNotGivenError(std::string("Array ") + optionname + std::string(" not set"));
+		len = 0;
 	}
+	arr.resize(len);
 	return arr;
 }
 
-- 
2.43.0


From 3d70ad85366e897b562e3dc682ec56bed5aac73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 31/32] fix: run the forward sweeps of asynchronous SGS in a
 parallel region

The sweep kernels contain orphaned work-sharing constructs and are documented
to be called from within a parallel region, but apply() called the forward ones
outside of any. From inside a parallel region of the application, the rows of the
forward sweep were then divided among the application's threads, although each
of them was applying its own preconditioner.
---
 src/solverops_sgs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solverops_sgs.cpp b/src/solverops_sgs.cpp
index d1d31ab..7d12d93 100644
--- a/src/solverops_sgs.cpp
+++ b/src/solverops_sgs.cpp
@@ -58,6 +58,7 @@ void AsyncBlockSGS_SRPreconditioner<scalar,index,bs,stor>::apply(const scalar *c
 		for(index i = 0; i < mat.nbrows*bs; i++)
 			ytemp[i] = 0;
 
+#pragma omp parallel default(shared)
 	for(int isweep = 0; isweep < napplysweeps; isweep++)
 	{
 		// forward sweep ytemp := D^(-1) (r - L ytemp)
@@ -152,6 +153,7 @@ void AsyncSGS_SRPreconditioner<scalar,index>::apply(const scalar *const rr,
 		for(index i = 0; i < mat.nbrows; i++)
 			ytemp[i] = 0;
 
+#pragma omp parallel default(shared)
 	for(int isweep = 0; isweep < napplysweeps; isweep++)
 	{
 		// forward sweep ytemp := D^(-1) (r - L ytemp)
-- 
2.43.0


From 0f92bea85ef461cb722f442bbb0fcbf7cc41aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 32/32] fix: sequential sweeps asked of the sequential ILU0
 preconditioner left it without factorisation

---
 src/blasted_petsc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 5c4e7f1..ddbdf0b 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -92,8 +92,13 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	settings.nbuildsweeps = ctx->nbuildsweeps;
 	settings.napplysweeps = ctx->napplysweeps;
 
-	if(settings.prectype == BLASTED_SEQILU0)
+	if(settings.prectype == BLASTED_SEQILU0) {
+		if(settings.nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.nbuildsweeps = 1;
+		if(settings.napplysweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.napplysweeps = 1;
 		return;
+	}
 
 	// Cases where both build and apply are sequential
 	if((ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
-- 
2.43.0

