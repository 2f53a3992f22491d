From 9af3383e7ba8c4368b8f3fdf8f714dc2f6577dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 01/37] fix: mark header-defined ordinary functions inline so
 the headers can be included in several translation units

---
 fflas-ffpack/utils/fflas_randommatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 968f304..99c87e7 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -494,7 +494,7 @@ namespace FFPACK{
 
     // O(1)
     // estimate what rank a submatrix is able to reach given the current configuration of the algorithm
-    size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
+    inline size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
         // Compute the valuation of a given leading submatrix ti
             return ti + std::min(i + 1 - nb_pivot_bf_i, nb_pivot_after_i_not_moved - Is_pivot_not_moved) +
                         std::min(n - (i + 1) - nb_pivot_after_i, nb_pivot_before_i_not_moved - Is_pivot_not_moved);
@@ -507,7 +507,7 @@ namespace FFPACK{
      * @param [out] rows
      * @param [out] cols
     */
-    void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
+    inline void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
 
         // if (r <= 0 || n <= 0 || t <= 0) {
         //     std::cout << "care, all the arguments must be positive" << std::endl;
-- 
2.43.0


From f2c41f0b8fab1d2b24f9ff7c54c748b06ecb2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:54 +0000
Subject: [PATCH 02/37] fix: pfgemm ThreeDAdaptive adds the m x n partial
 product, not n x m

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 224bf34..3615195 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -149,7 +149,7 @@ namespace FFLAS
                         TASK(MODE(CONSTREFERENCE(F,H2) READ(A2,B2) READWRITE(C2)), pfgemm(F, ta, tb, m, n, k-K2, a, A2, lda, B2, ldb, F.zero, C2, n, H2));
                         CHECK_DEPENDENCIES;
 
-                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, n, m, C2, n, C, ldc));
+                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, m, n, C2, n, C, ldc));
 
                        );
             fflas_delete(C2);
-- 
2.43.0


From ddd7e2c6cf004a9619f55be199613e3a7ae025b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:54 +0000
Subject: [PATCH 03/37] fix: recursive parallel fgemv starts the second half of
 A^T at column n/2

---
 fflas-ffpack/paladin/pfgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemv.inl b/fflas-ffpack/paladin/pfgemv.inl
index c6f0234..2c7962f 100644
--- a/fflas-ffpack/paladin/pfgemv.inl
+++ b/fflas-ffpack/paladin/pfgemv.inl
@@ -52,7 +52,7 @@ namespace FFLAS
                         H1.parseq.set_numthreads(H.parseq.numthreads() >> 1);
                         H2.parseq.set_numthreads(H.parseq.numthreads() - H1.parseq.numthreads());
                         typename Field::ConstElement_ptr A1 = A;
-                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim);
+                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim2);
                         typename Field::Element_ptr C1 = Y;
                         typename Field::Element_ptr C2 = Y + Ydim2*incY;
                         if (ta==FflasNoTrans){
-- 
2.43.0


From 36f9f7ac1179a6cd174147d565fa008442f6630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 04/37] fix: Invert applies the column permutation of the
 factorisation to the rows of the inverse

---
 fflas-ffpack/ffpack/ffpack_invert.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/ffpack/ffpack_invert.inl b/fflas-ffpack/ffpack/ffpack_invert.inl
index 96058c0..1f8f3b6 100644
--- a/fflas-ffpack/ffpack/ffpack_invert.inl
+++ b/fflas-ffpack/ffpack/ffpack_invert.inl
@@ -48,6 +48,7 @@ namespace FFPACK {
         size_t * Q = FFLAS::fflas_new<size_t>(M);
         size_t R =  ReducedRowEchelonForm (F, M, M, A, lda, P, Q, true, FfpackGaussJordanTile);
         nullity = (int)(M - R);
+        applyP (F, FFLAS::FflasLeft, FFLAS::FflasTrans, M, 0, (int)R, A, lda, Q);
         applyP (F, FFLAS::FflasRight, FFLAS::FflasNoTrans, M, 0, (int)R, A, lda, P);
         FFLAS::fflas_delete(P);
         FFLAS::fflas_delete(Q);
-- 
2.43.0


From dfec5978b463d2954897bd92539982934fe68795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:46 +0000
Subject: [PATCH 05/37] fix: MonotonicApplyP releases its work array when the
 permutation is the identity

---
 fflas-ffpack/ffpack/ffpack_permutation.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_permutation.inl b/fflas-ffpack/ffpack/ffpack_permutation.inl
index 1ee8142..a68c9ea 100644
--- a/fflas-ffpack/ffpack/ffpack_permutation.inl
+++ b/fflas-ffpack/ffpack/ffpack_permutation.inl
@@ -66,8 +66,10 @@ namespace FFPACK {
                 if(maxpiv < MathP[i]) maxpiv = MathP[i];
             }
         }
-        if (!pivrowstomove) // Permutation is the identity
+        if (!pivrowstomove){ // Permutation is the identity
+            delete[] MathP;
             return;
+        }
 
         for (size_t i=R; i<lenP; i++)
             if (MathP[i] != i)
-- 
2.43.0


From a9eb4ec2425241cfa903004f61b6025320cde89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:46 +0000
Subject: [PATCH 06/37] fix: fsytrf releases its work vector when the
 factorisation fails

---
 fflas-ffpack/ffpack/ffpack_fsytrf.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_fsytrf.inl b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
index 0dc6389..2c55303 100644
--- a/fflas-ffpack/ffpack/ffpack_fsytrf.inl
+++ b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
@@ -692,7 +692,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, seq, threshold);
-        if (!success) return false;
+        if (!success) {
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
@@ -707,7 +710,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, par, threshold);
-        if (!success) return false;
+        if (!success) {
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
-- 
2.43.0


From 7220afd7425812749bfebe0570873e53d8e8e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:46 +0000
Subject: [PATCH 07/37] fix: the Bruhat generator routines release their
 permutation work arrays

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index 3d6f924..7cee5a9 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -297,7 +297,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
     }
  
   FFLAS::fflas_delete(C);
-  FFLAS::fflas_delete(last_coeff);
+  FFLAS::fflas_delete(Inv, MLap, pivot_outer_pos, last_coeff);
   return(NbBlocks);
 
 }
@@ -360,7 +360,7 @@ if (Uplo==FFLAS::FflasUpper)//U
  else{
   applyP (Fi, FFLAS::FflasRight, FFLAS::FflasTrans, N, size_t(0), N, A, lda, MLap);
  }
-
+     FFLAS::fflas_delete(MLap);
 }
  // Compute the permutation M (in MathPermutation format) such that LM^T is in column echelon form, where L is the
  // left factor of a Bruhat decomposition
@@ -797,6 +797,7 @@ inline  void productBruhatxTS (const Field& Fi, size_t N, size_t s, size_t r, si
 
         FFLAS::fflas_delete (CRE);
     }
+    FFLAS::fflas_delete (Tuinv, Tlinv, R);
 }
 } //namespace FFPACK
 #endif //_FFPACK_ffpack_bruhatgen_inl
-- 
2.43.0


From e65f6f2f83cd4fb0a96d808079bda9e3ac7c0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:46 +0000
Subject: [PATCH 08/37] fix: the characteristic polynomial variants release
 their work polynomials and permutations

---
 fflas-ffpack/ffpack/ffpack_charpoly.inl                   | 2 ++
 fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl            | 1 +
 fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl | 4 ++++
 fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl              | 1 +
 4 files changed, 8 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly.inl b/fflas-ffpack/ffpack/ffpack_charpoly.inl
index a821028..7ffea3a 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly.inl
@@ -292,6 +292,7 @@ namespace FFPACK {
                     charp.clear();
                     charp.push_front(*minP); // CharPoly = MinPoly
                     FFLAS::fflas_delete( P);
+                    delete minP;
                     return charp;
                 }
 
@@ -375,6 +376,7 @@ namespace FFPACK {
                 // Recursive call on X22
                 LUKrylov_KGFast (F, charp, Nrest, A2, Nrest, X22, ldx);
                 charp.push_front (*minP);
+                delete minP;
                 FFLAS::fflas_delete( P);
                 FFLAS::fflas_delete (A2);
                 return charp;
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
index 3e80e42..f9e2944 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
@@ -172,6 +172,7 @@ namespace FFPACK {
             }
             charp.clear();
             charp.push_front(*minP);
+            delete minP;
             return 0;
         }
 
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
index 25fd927..c04315b 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
@@ -207,6 +207,9 @@ namespace FFPACK {
                                 T[B[i]-mc-1] = i;
                             mu += lambda;
                             lambda = 0;
+                            FFLAS::fflas_delete (LUP);
+                            FFLAS::fflas_delete (P);
+                            FFLAS::fflas_delete (Q);
                             break;
                         }
                         //std::cerr<<"BLOCAGE !!!"<<std::endl;
@@ -632,6 +635,7 @@ namespace FFPACK {
             }
             charp.clear();
             charp.push_front(*minP);
+            delete minP;
             return charp;
         }
     } // Protected
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
index 6439a66..86d4268 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
@@ -267,6 +267,7 @@ namespace FFPACK {
                 for ( j=0; j<d[i]; ++j, it++)
                     F.neg(*it, m[i][j]);
                 charp.push_back( *minP );
+                delete minP;
             }
             FFLAS::fflas_delete (X);
             FFLAS::fflas_delete( d);
-- 
2.43.0


From a98defb5c9c58ecf346cacd172f3e528c32890a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:26 +0000
Subject: [PATCH 09/37] fix: sparse_delete releases every array that
 sparse_init allocates (CSR stend, SELL perm, HYB_ZO parts)

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl    |  1 +
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl       | 12 +++++++++---
 fflas-ffpack/fflas/fflas_sparse/sell/sell_utils.inl  |  1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
index f148df5..4fdca1b 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
@@ -30,6 +30,7 @@ namespace FFLAS {
         fflas_delete(A.dat);
         fflas_delete(A.col);
         fflas_delete(A.st);
+        fflas_delete(A.stend);
     }
 
     template <class Field> inline void sparse_delete(const Sparse<Field, SparseMatrix_t::CSR_ZO> &A) {
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
index fa775ee..31dd0fb 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
@@ -32,12 +32,18 @@ namespace FFLAS {
     // #define HYB_ZO_DEBUG 1
 
     template <class Field> inline void sparse_delete(const Sparse<Field, SparseMatrix_t::HYB_ZO> &A) {
-        if (A.dat != nullptr)
+        if (A.dat != nullptr){
             sparse_delete(*(A.dat));
-        if (A.one != nullptr)
+            delete A.dat;
+        }
+        if (A.one != nullptr){
             sparse_delete(*(A.one));
-        if (A.mone != nullptr)
+            delete A.one;
+        }
+        if (A.mone != nullptr){
             sparse_delete(*(A.mone));
+            delete A.mone;
+        }
     }
 
     template <class Field, class IndexT>
diff --git a/fflas-ffpack/fflas/fflas_sparse/sell/sell_utils.inl b/fflas-ffpack/fflas/fflas_sparse/sell/sell_utils.inl
index a07bc2e..f0bb5bf 100644
--- a/fflas-ffpack/fflas/fflas_sparse/sell/sell_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/sell/sell_utils.inl
@@ -41,6 +41,7 @@ namespace FFLAS {
         fflas_delete(A.col);
         fflas_delete(A.st);
         fflas_delete(A.chunkSize);
+        fflas_delete(A.perm);
     }
 
     template <class Field> inline void sparse_delete(const Sparse<Field, SparseMatrix_t::SELL_ZO> &A) {
-- 
2.43.0


From 2cb9cf34eb4fc23d8fbdd6f6a358ce46572ead9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:01 +0000
Subject: [PATCH 10/37] fix: failing characteristic polynomial computations and
 checks release their work buffers

---
 fflas-ffpack/checkers/checker_charpoly.inl | 1 +
 fflas-ffpack/ffpack/ffpack_frobenius.inl   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/checkers/checker_charpoly.inl b/fflas-ffpack/checkers/checker_charpoly.inl
index cd77956..abfeb01 100644
--- a/fflas-ffpack/checkers/checker_charpoly.inl
+++ b/fflas-ffpack/checkers/checker_charpoly.inl
@@ -130,6 +130,7 @@ namespace FFPACK {
 #endif
             } catch(FailurePLUQCheck& e) {
                 std::cerr << "CHARPol PLUQ check failure" << std::endl;
+                FFLAS::fflas_delete(Ac,P,Q);
                 throw FailureCharpolyCheck();
             }
 
diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index a42fb54..6ff34e5 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -149,7 +149,7 @@ namespace FFPACK { namespace Protected {
                 // std::cerr << "FAIL in preconditionning phase:"
                 //           << " degree sequence is not monotonically not increasing"
                 // 	     << std::endl;
-                FFLAS::fflas_delete (K, Pk, Qk, dA, dK);
+                FFLAS::fflas_delete (K, K2, Pk, Qk, dA, dK);
                 throw CharpolyFailed();
             }
             dK[k] = dold = d;
-- 
2.43.0


From 1aee151348a97bd669ccf4f20cf3138b39ebe9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:16 +0000
Subject: [PATCH 11/37] fix: the binary sparse reader releases its staging
 buffer

---
 fflas-ffpack/fflas/fflas_sparse/read_sparse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
index d00708d..f852e0a 100644
--- a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
+++ b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
@@ -330,6 +330,7 @@ namespace FFLAS {
         for (size_t i = 0 ; i< dims ; ++i) {
             F.init(val[i], data_read[i]);
         }
+        fflas_delete(data_read);
     }
 
     template<class Field>
-- 
2.43.0


From ade4588a91662034a7a72188e6a258abf8832038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:58 +0000
Subject: [PATCH 12/37] fix: fgemv with a transposed empty matrix scales Y by
 beta

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 2a03984..1e9b4a1 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -127,9 +127,9 @@ namespace FFLAS {
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DelayedTag> & H)
     {
 
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
         size_t Xdim = (ta == FflasNoTrans)?N:M;
+        if (!Ydim) {return Y;}
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
                 fzero (F, Ydim, Y, incY);
@@ -344,9 +344,9 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY)
     {
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
         size_t Xdim = (ta == FflasNoTrans)?N:M;
+        if (!Ydim) {return Y;}
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
                 fzero (F, Ydim, Y, incY);
-- 
2.43.0


From da6345f4422b416223596279be861cedd5ec2287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:58 +0000
Subject: [PATCH 13/37] fix: fgemv over int64_t without SSE4.1 scales Y by
 beta, not by beta*Y

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 1e9b4a1..40e3b4a 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -386,7 +386,7 @@ namespace FFLAS{
             int64_t* Yi=Y;
 
             for (size_t i=0;i<M;i++, Yi+=incY){
-                *Yi *= beta * *Yi;
+                *Yi *= beta;
                 const int64_t* Xj=X;
                 for (size_t j=0; j < N; j++, Xj += incX)
                     *Yi += alpha*A[i*lda+j] * *Xj;
@@ -395,7 +395,7 @@ namespace FFLAS{
             int64_t* Yi=Y;
 
             for (size_t i=0;i<N;i++, Yi+=incY){
-                *Yi *= beta * *Yi;
+                *Yi *= beta;
                 const int64_t* Xj=X;
                 for (size_t j=0; j < M; j++, Xj += incX)
                     *Yi += alpha*A[i+j*lda] * *Xj;
-- 
2.43.0


From b78b96430bb032fc2dc4ef7c2d2d606e7d6594c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:39 +0000
Subject: [PATCH 14/37] fix: block cuts with a fixed grain cover the whole
 index range

---
 fflas-ffpack/paladin/blockcuts.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index c67650b..99e093a 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -287,6 +287,10 @@ namespace FFLAS {
         numRowBlock = m/rowBlockSize;
         numColBlock = n/colBlockSize;
 
+        // the remainder is spread over the first blocks: it must be less than their number
+        if (numRowBlock) rowBlockSize = m/numRowBlock;
+        if (numColBlock) colBlockSize = n/numColBlock;
+
         changeRBS = m-rowBlockSize*numRowBlock;
         lastRBS = rowBlockSize;
         if (changeRBS) ++rowBlockSize;
-- 
2.43.0


From 9f31d457c567d5b094d21d038be1abe179d12b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:05 +0000
Subject: [PATCH 15/37] fix: fscal over the floating point domains reads x with
 its own increment

---
 fflas-ffpack/fflas/fflas_fscal.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fscal.inl b/fflas-ffpack/fflas/fflas_fscal.inl
index 133eab8..5565d5e 100644
--- a/fflas-ffpack/fflas/fflas_fscal.inl
+++ b/fflas-ffpack/fflas/fflas_fscal.inl
@@ -368,7 +368,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_dcopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_dcopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_dscal( (int)N, a, y, (int)incy);
     }
 
@@ -382,7 +382,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_scopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_scopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_sscal( (int)N, a, y, (int)incy);
     }
 
-- 
2.43.0


From 6c1c447336d289129f750118b2e42423ddab1401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:18 +0000
Subject: [PATCH 16/37] fix: fgemv and fger over word-size integers modulo 2
 compute the product

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 2 ++
 fflas-ffpack/fflas/fflas_fger.inl  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 40e3b4a..7d7cf19 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -96,6 +96,8 @@ namespace FFLAS {
            typename Field::Element_ptr Y, const size_t incY,
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::ConvertTo<ElementCategories::MachineFloatTag> > & H)
     {
+        if (F.cardinality() == 2) // fgemv_convert requires an odd characteristic
+            return fgemm (F, ta, FflasNoTrans, (ta == FflasNoTrans)?M:N, 1, (ta == FflasNoTrans)?N:M, alpha, A, lda, X, incX, beta, Y, incY);
         if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER && F.cardinality() > 2)
             return Protected::fgemv_convert<float,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
         else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality() && F.cardinality() > 2)
diff --git a/fflas-ffpack/fflas/fflas_fger.inl b/fflas-ffpack/fflas/fflas_fger.inl
index 2b06c83..fb409f4 100644
--- a/fflas-ffpack/fflas/fflas_fger.inl
+++ b/fflas-ffpack/fflas/fflas_fger.inl
@@ -91,6 +91,10 @@ namespace FFLAS{
     {
         if (F.isZero(alpha)) { return ; }
 
+        if (F.cardinality() == 2) { // fger_convert requires an odd characteristic
+            fgemm (F, FflasNoTrans, FflasTrans, M, N, 1, alpha, x, incx, y, incy, F.one, A, lda);
+            return;
+        }
         if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER && F.cardinality() > 2){
             return Protected::fger_convert<float,Field>(F,M,N,alpha,x, incx, y,incy, A, lda);
         } else if  (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality()){
-- 
2.43.0


From 5243f67f7f2f1e9b370758ce337d3c8c632866e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:48 +0000
Subject: [PATCH 17/37] fix: generic out-of-place ftrmm with beta = 0
 overwrites C instead of adding to it

---
 fflas-ffpack/fflas/fflas_ftrmm_src.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm_src.inl b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
index 736f7ba..0e109c2 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
@@ -356,8 +356,7 @@ public:
     {
 
         if (__FFLAS__Na == 1){
-            if (!F.isZero(beta))
-                fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
+            fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
 #ifdef __FFLAS__NONUNIT
             //TODO: replace by faxpby when available
             faxpy (F, __FFLAS__Bdim, *A, B, __FFLAS__Bnorminc, C, __FFLAS__Cnorminc);
-- 
2.43.0


From 6b1b4b569480c6d19f3ff205f4c7d05bab348780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:08 +0000
Subject: [PATCH 18/37] fix: out-of-place ftrmm with alpha = 0 scales C by beta

---
 fflas-ffpack/fflas/fflas_ftrmm.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm.inl b/fflas-ffpack/fflas/fflas_ftrmm.inl
index 8bc2161..a56e18b 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm.inl
@@ -119,6 +119,10 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc)
     {
         if (!M || !N ) return;
+        if (F.isZero(alpha)){
+            fscalin(F,M,N,beta,C,ldc);
+            return;
+        }
         typename Field::Element bet;
         F.init(bet);
         F.assign(bet,beta);
-- 
2.43.0


From 2d4936d394c68f9b8bd37a19aa3ef460415d62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:58 +0000
Subject: [PATCH 19/37] fix: getLTBruhatGen clears T with its own leading
 dimension

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index 7cee5a9..c8916b0 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -117,7 +117,7 @@ inline void getLTBruhatGen(const Field& Fi, const FFLAS::FFLAS_UPLO Uplo,const F
                            typename Field::ConstElement_ptr A, const size_t lda,
                            typename Field::Element_ptr T, const size_t ldt)
 
-{   FFLAS::fzero(Fi, N, N, T, N);
+{   FFLAS::fzero(Fi, N, N, T, ldt);
     if (Uplo==FFLAS::FflasUpper) {     //U
         if(diag==FFLAS::FflasNonUnit){
             for(size_t i=0; i<r;i++){
-- 
2.43.0


From cc9825acfb0747bb18b52e9f699a77b9c6dc101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:58 +0000
Subject: [PATCH 20/37] fix: CompressToBlockBiDiagonal permutes its copy of A
 with the leading dimension of the copy

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index c8916b0..eb698f6 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -225,7 +225,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
    Bruhat2EchelonPermutation (N,r,outer,inner,M);
     size_t * MLap = FFLAS::fflas_new<size_t>(N);
     MathPerm2LAPACKPerm(MLap, M, N);
-    applyP (Fi, Side, Trans, N, size_t(0), N, C, lda, MLap);
+    applyP (Fi, Side, Trans, N, size_t(0), N, C, ldc, MLap);
     size_t * pivot_outer_pos = FFLAS::fflas_new<size_t>(r);
   size_t * last_coeff = FFLAS::fflas_new<size_t>(r);
   for (size_t i=0;i<r;i++)
-- 
2.43.0


From b0419a553ea985c29f12aca0ca9786ba811d293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:58 +0000
Subject: [PATCH 21/37] fix: buildMatrix (KGFast_generalized) fills its N x N
 matrix with leading dimension N

---
 fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
index c04315b..76fe337 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
@@ -88,7 +88,7 @@ namespace FFPACK {
             if (B[j] < N){
                 for (size_t i=0;i<N;++i)
                     F.assign( *(A+i*N+j), F.zero);
-                F.assign( *(A+B[j]*lda+j), F.one);
+                F.assign( *(A+B[j]*N+j), F.one);
             } else {
                 FFLAS::fassign (F, N, E+B[j]-N, lda, A+j, N);
             }
@@ -96,7 +96,7 @@ namespace FFPACK {
             for (size_t i=0;i<N;++i)
                 F.assign( *(A+i*N+j), F.zero);
         for (size_t i=0; i<mu; ++i)
-            F.assign( *(A+(lambda+me+mc+i)*lda+lambda+me+T[i]), F.one);
+            F.assign( *(A+(lambda+me+mc+i)*N+lambda+me+T[i]), F.one);
         for (size_t j=0; j<mc; ++j)
             FFLAS::fassign(F,N,C+j,lda,A+N-mc+j,N);
         //! @bug is this :
-- 
2.43.0


From 81a347856b0567380903c817715386cd24e95172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:40 +0000
Subject: [PATCH 22/37] fix: fmove copies B into A before clearing B (it copied
 A into B)

---
 fflas-ffpack/fflas/fflas_level2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 7910050..0ffb6f2 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -414,7 +414,7 @@ namespace FFLAS {
            typename Field::Element_ptr A, const size_t lda,
            typename Field::Element_ptr B, const size_t ldb )
     {
-        fassign(F,m,n,A,lda,B,ldb);
+        fassign(F,m,n,B,ldb,A,lda);
         fzero(F,m,n,B,ldb);
     }
 
-- 
2.43.0


From f2e7fad687b3a4393c1fc34b6b589d8f852911fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:36 +0000
Subject: [PATCH 23/37] fix: fsyr2k with K = 0 scaled C by beta twice

---
 fflas-ffpack/fflas/fflas_fsyr2k.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyr2k.inl b/fflas-ffpack/fflas/fflas_fsyr2k.inl
index 618624d..b2dd5ac 100644
--- a/fflas-ffpack/fflas/fflas_fsyr2k.inl
+++ b/fflas-ffpack/fflas/fflas_fsyr2k.inl
@@ -42,7 +42,10 @@ namespace FFLAS {
             typename Field::Element_ptr C, const size_t ldc){
 
         if (!N) return C;
-        if (!K) fscalin(F, N,N, beta, C, ldc);
+        if (!K) {
+            fscalin(F, N,N, beta, C, ldc);
+            return C;
+        }
 
         typename Field::Element_ptr diagC(nullptr);
 
-- 
2.43.0


From 46a71751f6dde797b76a702cf005070b2be78bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:36 +0000
Subject: [PATCH 24/37] fix: fsyrk over fields computing by conversion compiles
 and writes back its triangle only

---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index dd5aab4..255e5d2 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -62,12 +62,18 @@ namespace FFLAS{namespace Protected{
 
         if (!F.isZero(beta)){
             fconvert(F, N, N, Cf, N, C, ldc); // @todo: take advantage of the symmetry
-            freduce (G, UpLo, N, N, Cf, N);
+            freduce (G, UpLo, N, Cf, N);
         }
         MMHelper<NewField, MMHelperAlgo::Classic> HG(G,H.recLevel, ParSeqHelper::Sequential());
         fsyrk (G, UpLo, trans, N, K, alphaf, Af, ka, betaf, Cf, N, HG);
 
-        finit (F, N, N, Cf, N, C, ldc); // @todo: take advantage of the symmetry
+        // only the triangle UpLo of C is modified
+        for (size_t i = 0; i < N; ++i){
+            if (UpLo == FflasUpper)
+                finit (F, N-i, Cf+i*(N+1), 1, C+i*(ldc+1), 1);
+            else
+                finit (F, i+1, Cf+i*N, 1, C+i*ldc, 1);
+        }
         fflas_delete (Af);
         fflas_delete (Cf);
         return C;
-- 
2.43.0


From 23ec42789d0402e591e35d241e9112bb199d5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:46 +0000
Subject: [PATCH 25/37] fix: strided fsub over generic fields added instead of
 subtracting

---
 fflas-ffpack/fflas/fflas_fadd.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fadd.inl b/fflas-ffpack/fflas/fflas_fadd.inl
index 917cb02..719d4c7 100644
--- a/fflas-ffpack/fflas/fflas_fadd.inl
+++ b/fflas-ffpack/fflas/fflas_fadd.inl
@@ -367,7 +367,7 @@ namespace FFLAS { namespace details {
                 if (ADD)
                     F.add (*Ci, *Ai, *Bi);
                 else
-                    F.add (*Ci, *Ai, *Bi);
+                    F.sub (*Ci, *Ai, *Bi);
         }
     }
 
-- 
2.43.0


From 6cc3657ff4ff1989aac7cca8942530a8e6c5358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:18 +0000
Subject: [PATCH 26/37] fix: AVX512F without AVX512DQ (Knights Landing) did not
 compile

---
 fflas-ffpack/fflas/fflas_simd.h                 | 2 +-
 fflas-ffpack/fflas/fflas_simd/simd512_int64.inl | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_simd.h b/fflas-ffpack/fflas/fflas_simd.h
index 84ced0f..86c1b64 100644
--- a/fflas-ffpack/fflas/fflas_simd.h
+++ b/fflas-ffpack/fflas/fflas_simd.h
@@ -373,7 +373,7 @@ struct SimdChooser<T, true, false> // floating number
 template <class T>
 struct SimdChooser<T, true, true> // integral number
 {
-#ifdef __FFLASFFPACK_HAVE_AVX512F_INSTRUCTIONS
+#ifdef __FFLASFFPACK_HAVE_AVX512DQ_INSTRUCTIONS
     using value = Simd512<T>;
 #elif __FFLASFFPACK_HAVE_AVX2_INSTRUCTIONS
     using value = Simd256<T>;
diff --git a/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl b/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
index a51a740..5799f0a 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
@@ -645,8 +645,10 @@ template <> struct Simd512_impl<true, true, true, 8> : public Simd512i_base {
 
     static INLINE CONST vect_t mulhi_fast(vect_t x, vect_t y);
 
+#ifdef __FFLASFFPACK_HAVE_AVX512DQ_INSTRUCTIONS
     static INLINE vect_t mod(vect_t &C, const __m512d &P, const __m512d &INVP, const __m512d &NEGP, const vect_t &POW50REM,
                              const __m512d &MIN, const __m512d &MAX, __m512d &Q, __m512d &T);
+#endif /* __FFLASFFPACK_HAVE_AVX512DQ_INSTRUCTIONS */
 
 protected:
     /* return the sign where vect_t is seen as sixteen int32_t */
@@ -892,6 +894,7 @@ INLINE CONST vect_t Simd512_impl<true, true, true, 8>::mulhi_fast(vect_t x, vect
 }
 
 // FIXME why cannot use Simd512<double>::vect_t in the declaration instead of __m512d?
+#ifdef __FFLASFFPACK_HAVE_AVX512DQ_INSTRUCTIONS
 // --**~~~~ Only suitable for use with Modular<int64_t> or ModularBalanced<int64_t>, so p <= max_cardinality < 2**33 ~~~~~**--
 INLINE vect_t Simd512_impl<true, true, true, 8>::mod(vect_t &C, const __m512d &P, const __m512d &INVP, const __m512d &NEGP, const vect_t &POW50REM,
                                                      const __m512d &MIN, const __m512d &MAX, __m512d &Q, __m512d &T) {
@@ -913,6 +916,7 @@ INLINE vect_t Simd512_impl<true, true, true, 8>::mod(vect_t &C, const __m512d &P
 
     return C;
 }
+#endif /* __FFLASFFPACK_HAVE_AVX512DQ_INSTRUCTIONS */
 
 #undef vect_t
 
-- 
2.43.0


From 93a7dae7885220fa9bb5ef50bb3ec14249f9e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:25 +0000
Subject: [PATCH 27/37] fix: the OpenMP dataflow configuration did not compile
 (MatrixApplyS, MatrixApplyT)

---
 fflas-ffpack/ffpack/ffpack_permutation.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_permutation.inl b/fflas-ffpack/ffpack/ffpack_permutation.inl
index a68c9ea..8911ed2 100644
--- a/fflas-ffpack/ffpack/ffpack_permutation.inl
+++ b/fflas-ffpack/ffpack/ffpack_permutation.inl
@@ -382,7 +382,7 @@ namespace FFPACK {
     {
         SYNCH_GROUP(
             FORBLOCK1D(iter,width, par,
-                       TASK(MODE(CONSTREFERENCE(F,A) READ(A[BLOCKSIZE*t])),
+                       TASK(MODE(CONSTREFERENCE(F,A) READWRITE(A[iter.begin()])),
                             MatrixApplyS (F, A+iter.begin(), lda, iter.end()-iter.begin(), M2, R1, R2, R3, R4););
                        );
                    );
@@ -446,7 +446,7 @@ namespace FFPACK {
     {
         SYNCH_GROUP(
             FORBLOCK1D(iter, width, par,
-                       TASK(MODE(CONSTREFERENCE(F, A) READWRITE(A[BLOCKSIZE*t*lda])),
+                       TASK(MODE(CONSTREFERENCE(F, A) READWRITE(A[iter.begin()*lda])),
                             MatrixApplyT(F,A+iter.begin()*lda, lda, iter.end()-iter.begin(), N2, R1, R2, R3, R4) );
                        );
                     );
-- 
2.43.0


From d86c711b5d535a64e92daf4b140f848a8478cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:09 +0000
Subject: [PATCH 28/37] fix: RandomMatrixWithDet without a random iterator did
 not compile

---
 fflas-ffpack/utils/fflas_randommatrix.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 99c87e7..18f5e19 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -940,6 +940,11 @@ namespace FFPACK{
         return RandomSymmetricMatrixWithRankandRandomRPM (F, N, R, A, lda, G);
     }
 
+    template<class Field, class RandIter>
+    inline typename Field::Element_ptr
+    RandomMatrixWithDet(const Field & F, size_t n, const typename Field::Element d,
+                        typename Field::Element_ptr A, size_t lda, RandIter& G);
+
     /** @brief  Random Matrix with prescribed det.
      * Creates a \c m x \c n matrix with random entries and rank \c r.
      * @param F field
-- 
2.43.0


From 722e80d5cbea147f4612bafce554e09ea54bf57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:22 +0000
Subject: [PATCH 29/37] fix: fgemm over the integers scales C by beta when A or
 B is zero or k is 0

---
 .../fflas/fflas_fgemm/fgemm_classical_mp.inl        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 14a2ac3..de6089a 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -327,12 +327,11 @@ namespace FFLAS {
         Timer chrono;
         chrono.start();
 #endif
-        if (alpha == 0){
+        if (alpha == 0 || k == 0){
             fscalin(F,m,n,beta,C,ldc);
             return C;
         }
 
-        if (k==0) return C;
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
@@ -352,8 +351,11 @@ namespace FFLAS {
 
         mC = 2*uint64_t(k)*H.normA*H.normB*abs(alpha); // need to use 2x bound to reach both positive and negative
 
-        // A or B is zero, no need to modify C
-        if (mC == 0) return C;
+        // A or B is zero: C <- beta C
+        if (mC == 0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
 
         // construct an RNS structure and its associated Domain
         FFPACK::rns_double RNS(mC, prime_bitsize);
@@ -595,12 +597,11 @@ namespace FFLAS {
         Timer chrono;
         chrono.start();
 #endif
-        if (alpha == 0){
+        if (alpha == 0 || k == 0){
             fscalin(F,m,n,beta,C,ldc);
             return C;
         }
 
-        if (k==0) return C;
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
-- 
2.43.0


From 8d73ed79b62d56ebddc7504c8aa8cc6d3c66d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 30/37] fix: parallel fdot wrote beyond its partial results
 when the partition has more blocks than threads

---
 fflas-ffpack/paladin/fflas_plevel1.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/fflas_plevel1.h b/fflas-ffpack/paladin/fflas_plevel1.h
index 53999ea..9e411cf 100644
--- a/fflas-ffpack/paladin/fflas_plevel1.h
+++ b/fflas-ffpack/paladin/fflas_plevel1.h
@@ -96,12 +96,14 @@ namespace FFLAS
          typename Field::Element& d,
          const ParSeqHelper::Parallel<Cut,Param> par)
     {
-        const size_t rs(par.numthreads());
+        // one partial result per block of the partition
+        const ForStrategy1D<size_t,Cut,Param> strat(N, par);
+        const size_t rs(strat.numblocks());
         typename Field::Element_ptr z(fflas_new(F,rs));
         for(size_t i=0;i<rs;++i) F.init(z[i]);
 
         SYNCH_GROUP({
-                    FORBLOCK1D(iter, N, SPLITTER(rs, Cut, Param), {
+                    FORBLOCK1D(iter, N, par, {
                                const size_t i( iter.blockindex() );
 
                                TASK(MODE(CONSTREFERENCE(F) READ(x,y) WRITE(z[i])), {
-- 
2.43.0


From 44c342245ce9d5aeefca722f001797f0be4527c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 31/37] fix: block-parallel fgemm shared one mutable helper
 between its tasks (data race)

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 3615195..ca95c7e 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -45,14 +45,16 @@ namespace FFLAS
         {
             H.parseq.set_numthreads( std::min(H.parseq.numthreads(), std::max((size_t)1,(size_t)(m*n/(__FFLASFFPACK_SEQPARTHRESHOLD*__FFLASFFPACK_SEQPARTHRESHOLD)))) );
 
-            MMHelper<Field, AlgoT, FieldTrait, ParSeqHelper::Sequential> SeqH (H);
+            // fgemm updates its helper: one copy per task
+            typedef MMHelper<Field, AlgoT, FieldTrait, ParSeqHelper::Sequential> SeqMMH_t;
             size_t sa = (ta==FFLAS::FflasNoTrans)?lda:1;
             size_t sb = (tb==FFLAS::FflasNoTrans)?1:ldb;
             SYNCH_GROUP({FORBLOCK2D(iter,m,n,H.parseq,
                                     TASK( MODE(
                                                READ(A[iter.ibegin()*sa],B[iter.jbegin()*sb])
-                                               CONSTREFERENCE(F, SeqH)
+                                               CONSTREFERENCE(F, H)
                                                READWRITE(C[iter.ibegin()*ldc+iter.jbegin()])),
+                                          SeqMMH_t SeqH (H);
                                           fgemm( F, ta, tb, iter.iend()-iter.ibegin(), iter.jend()-iter.jbegin(), k, alpha, A+iter.ibegin()*sa, lda, B+iter.jbegin()*sb, ldb, beta, C+iter.ibegin()*ldc+iter.jbegin(), ldc, SeqH););
                                    );
                         });
-- 
2.43.0


From 42a2287b1703cfde8e1d8ff6be10df54217eeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:17 +0000
Subject: [PATCH 32/37] fix: parallel Winograd under dataflow synchronisation
 read bounds before the products complete and named the wrong block

---
 fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl b/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl
index fbaffa8..bf635e3 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd.inl
@@ -200,7 +200,8 @@ namespace FFLAS { namespace BLAS3 {
                     // P2 = alpha . A12 * B21  in C11
                     TASK(MODE(READ(A12, B21) WRITE(C11) CONSTREFERENCE(F,H2)),
                          fgemm (F, ta, tb, mr, nr, kr, alpha, A12, lda, B21, ldb, F.zero, C11, ldc, H2););
-                    CHECK_DEPENDENCIES;
+                    // the bounds in H1..H7 are read below, outside of any task
+                    WAIT;
 
                     DFElt U2Min, U2Max;
                     DFElt U3Min, U3Max;
@@ -287,7 +288,7 @@ namespace FFLAS { namespace BLAS3 {
                     DFElt U6Min, U6Max;
                     //		TASK(MODE(READWRITE(C_11, C21) CONSTREFERENCE(F, DF, WH) VALUE(U6Min, U6Max, U3Min, U3Max)),
                     if (Protected::NeedPreSubReduction (U6Min,U6Max, U3Min, U3Max, H4.Outmin,H4.Outmax, WH) ){
-                        TASK(MODE(READWRITE(CC_11) CONSTREFERENCE(F)),
+                        TASK(MODE(READWRITE(C_11) CONSTREFERENCE(F)),
                              pfreduce (F, mr, nr, C_11, nr, NUM_THREADS);
                             );
                         TASK(MODE(READWRITE(C21) CONSTREFERENCE(F)),
-- 
2.43.0


From 315f9af7b7716de91f826a31db5d361100519ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:58 +0000
Subject: [PATCH 33/37] fix: fgemm with the parallel Winograd helper returned
 unreduced entries in delayed mode

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
index 37a794a..ac5d497 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
@@ -535,6 +535,11 @@ namespace FFLAS{
         MMHelper<Field, MMHelperAlgo::Winograd, ModeT> HC(H);
         Protected::DynamicPeeling2 (F, ta, tb, m, n, k, mr, nr, kr, alpha, A, lda, B, ldb, beta, C, ldc, HC, Cmin, Cmax);
 #endif
+        if (std::is_same<ModeT, ModeCategories::DelayedTag>::value){
+            // the sums of WinoPar are left unreduced
+            freduce (F, m, n, C, ldc);
+            H.initOut();
+        }
         return C;
     } // fgemm
 
-- 
2.43.0


From d059bd51aa24a650b23b7d83d2c1e7e7b311e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 34/37] fix: parallel Winograd multiplied unreduced sums with a
 helper assuming reduced operands (overflow for large moduli)

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
index ac5d497..55f8956 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
@@ -492,7 +492,8 @@ namespace FFLAS{
             MMHelper<Field,MMHelperAlgo::Winograd,
             typename FFLAS::ModeTraits<Field>::value,
             FFLAS::ParSeqHelper::Parallel<CuttingStrategy::Recursive,StrategyParameter::TwoDAdaptive> >
-            HC (F, 0, ParSeqHelper::Parallel<CuttingStrategy::Recursive,StrategyParameter::TwoDAdaptive>(NUM_THREADS));
+            HC (F, 0, H.Amin, H.Amax, H.Bmin, H.Bmax, H.Cmin, H.Cmax,
+                ParSeqHelper::Parallel<CuttingStrategy::Recursive,StrategyParameter::TwoDAdaptive>(NUM_THREADS));
 #endif
             //              MMHelper<Field, MMHelperAlgo::Classic, ModeTraits> HC(H);
 
-- 
2.43.0


From 3c19a9322b645eb27ccce41cd50d520cbb2fcfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:37 +0000
Subject: [PATCH 35/37] fix: delayed products with beta = 0 accumulated one
 block too many before reducing (inexact results)

The number of products that can be accumulated was computed for the first
block, where beta = 0 leaves the whole range to the products; the following
blocks are accumulated to a reduced output, which needs room as well.
---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl | 7 +++++++
 fflas-ffpack/fflas/fflas_fgemv.inl                 | 7 +++++++
 fflas-ffpack/fflas/fflas_fsyrk.inl                 | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
index db1d792..a1442d2 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
@@ -99,6 +99,13 @@ namespace FFLAS {
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < k){
+            // all blocks but the first one are accumulated to a reduced output
+            HelperType HC(H);
+            HC.initC();
+            kmax = std::min (kmax, HC.MaxDelayedDim (F.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 7d7cf19..2c9b90b 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -275,6 +275,13 @@ namespace FFLAS{
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < Xdim){
+            // all blocks but the first one are accumulated to a reduced output
+            HelperType HC(H);
+            HC.initC();
+            kmax = std::min (kmax, HC.MaxDelayedDim (F.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index 255e5d2..4e10a44 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -332,6 +332,13 @@ namespace FFLAS {
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < K){
+            // all blocks but the first one are accumulated to a reduced output
+            HelperType HC(H);
+            HC.initC();
+            kmax = std::min (kmax, HC.MaxDelayedDim (F.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
-- 
2.43.0


From b456d160ccf5bf88484e39a03c606b95f13860c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 36/37] fix: peeling the odd rows of a Winograd product
 exchanged the bounds of A and B

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl | 2 --
 1 file changed, 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
index 55f8956..2c3bbe3 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
@@ -229,8 +229,6 @@ namespace FFLAS { namespace Protected {
         Hacc.Cmin = H.Outmin; Hacc.Cmax = H.Outmax;
         Hacc.recLevel=-1;HModd.recLevel=-1;HNodd.recLevel=-1;
         HModd.Cmin = Cmin; HModd.Cmax = Cmax;
-        HModd.Amax = H.Bmax; HModd.Amin = H.Bmin;
-        HModd.Bmax = H.Amax; HModd.Bmin = H.Amin;
         HNodd.Cmin = Cmin; HNodd.Cmax = Cmax;
 
         switch (mkn) {
-- 
2.43.0


From 8328d68a096a921342bf40e39b115ee94c22818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:55 +0000
Subject: [PATCH 37/37] fix: parallel Winograd product did not report the
 bounds of its output in its helper

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
index 2c3bbe3..0f71215 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
@@ -496,8 +496,12 @@ namespace FFLAS{
             //              MMHelper<Field, MMHelperAlgo::Classic, ModeTraits> HC(H);
 
             fgemm (F, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc, HC);
-            H.Outmax = HC.Outmax;
-            H.Outmin = HC.Outmin;
+            if (std::is_same<typename FFLAS::ModeTraits<Field>::value, ModeCategories::DelayedTag>::value)
+                H.initOut(); // HC computes over the field: the output is reduced
+            else {
+                H.Outmax = HC.Outmax;
+                H.Outmin = HC.Outmin;
+            }
             return C;
         }
 
@@ -534,6 +538,8 @@ namespace FFLAS{
         MMHelper<Field, MMHelperAlgo::Winograd, ModeT> HC(H);
         Protected::DynamicPeeling2 (F, ta, tb, m, n, k, mr, nr, kr, alpha, A, lda, B, ldb, beta, C, ldc, HC, Cmin, Cmax);
 #endif
+        H.Outmin = HC.Outmin;
+        H.Outmax = HC.Outmax;
         if (std::is_same<ModeT, ModeCategories::DelayedTag>::value){
             // the sums of WinoPar are left unreduced
             freduce (F, m, n, C, ldc);
-- 
2.43.0

