From 68d5429bf2d1ccc07f394893c459d4bc8968ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 001/209] fix: MLPPVector::cos() computed the square root
 instead of the cosine

---
 core/mlpp_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 195479d..90e2435 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1029,7 +1029,7 @@ void MLPPVector::cos() {
 	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = Math::sqrt(out_ptr[i]);
+		out_ptr[i] = Math::cos(out_ptr[i]);
 	}
 }
 Ref<MLPPVector> MLPPVector::cosn() const {
-- 
2.43.0


From 3cb803b164b630667257f7274ee79d6932692c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 002/209] fix: MLPPVector::division_element_wise() wrote
 through the null buffer of an unused temporary

---
 core/mlpp_vector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 90e2435..4d81e6c 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -419,14 +419,11 @@ void MLPPVector::hadamard_productb(const Ref<MLPPVector> &a, const Ref<MLPPVecto
 void MLPPVector::division_element_wise(const Ref<MLPPVector> &b) {
 	ERR_FAIL_COND(!b.is_valid());
 
-	Ref<MLPPVector> out;
-	out.instance();
-
 	ERR_FAIL_COND(_size != b->size());
 
 	const real_t *a_ptr = ptr();
 	const real_t *b_ptr = b->ptr();
-	real_t *out_ptr = out->ptrw();
+	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
 		out_ptr[i] = a_ptr[i] / b_ptr[i];
-- 
2.43.0


From 9f300f4710a3072cd24c35d0a8323317fdfd0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 003/209] fix: MLPPMatrix::scalar_multiplyb() and scalar_addb()
 ignored their operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 31ac48b..a7cfe5a 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1194,7 +1194,7 @@ void MLPPMatrix::scalar_multiplyb(const real_t scalar, const Ref<MLPPMatrix> &A)
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] * scalar;
@@ -1227,7 +1227,7 @@ void MLPPMatrix::scalar_addb(const real_t scalar, const Ref<MLPPMatrix> &A) {
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From 2eaa62553be0c87d7be6f87faeaebdf97f0b9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 004/209] fix: MLPPMatrix::kronecker_product() iterated over
 the resized matrix instead of the operand

---
 core/mlpp_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a7cfe5a..a62a5ce 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -959,7 +959,7 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	row_tmp.instance();
 	row_tmp->resize(b_size.x);
 
-	for (int i = 0; i < _size.y; ++i) {
+	for (int i = 0; i < a_size.y; ++i) {
 		for (int j = 0; j < b_size.y; ++j) {
 			B->row_get_into_mlpp_vector(j, row_tmp);
 
-- 
2.43.0


From 60cd13988a3f2d61db2a3b66d218b7ebca7e4c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 005/209] fix: MLPPMatrix::kronecker_product() iterated over
 the columns of the resized matrix

---
 core/mlpp_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a62a5ce..977ebd6 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -964,7 +964,7 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 			B->row_get_into_mlpp_vector(j, row_tmp);
 
 			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < _size.x; ++k) {
+			for (int k = 0; k < a_size.x; ++k) {
 				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
 			}
 
-- 
2.43.0


From 50e4f77f0ea393850b94265b8e50fd9a8f3d7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 006/209] fix: MLPPMatrix::mult() and multb() overwrote an
 operand that is the receiver

---
 core/mlpp_matrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 977ebd6..90ecba2 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -782,6 +782,11 @@ void MLPPMatrix::mult(const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND(_size.x != b_size.y);
 
+	if (unlikely(B.ptr() == this)) {
+		mult(duplicate_fast());
+		return;
+	}
+
 	Ref<MLPPMatrix> A = duplicate_fast();
 	Size2i a_size = A->size();
 
@@ -851,6 +856,11 @@ void MLPPMatrix::multb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND_MSG(a_size.x != b_size.y, "a_size.x != b_size.y: a_size: " + a_size.operator String() + " b_size: " + b_size.operator String());
 
+	if (unlikely(A.ptr() == this || B.ptr() == this)) {
+		set_from_mlpp_matrix(A->multn(B));
+		return;
+	}
+
 	Size2i rs = Size2i(b_size.x, a_size.y);
 
 	if (unlikely(_size != rs)) {
-- 
2.43.0


From 3773fe6384a15e8fbbb9c0336340795f8c15aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 007/209] fix: MLPPMatrix::kronecker_product(),
 kronecker_productb() and transposeb() overwrote an operand that is the
 receiver

---
 core/mlpp_matrix.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 90ecba2..20a1282 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -959,6 +959,11 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	Size2i a_size = size();
 	Size2i b_size = B->size();
 
+	if (unlikely(B.ptr() == this)) {
+		kronecker_product(duplicate_fast());
+		return;
+	}
+
 	Ref<MLPPMatrix> A = duplicate_fast();
 
 	resize(Size2i(b_size.x * a_size.x, b_size.y * a_size.y));
@@ -1046,6 +1051,11 @@ void MLPPMatrix::kronecker_productb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatr
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!A.is_valid() || !B.is_valid());
+	if (unlikely(A.ptr() == this || B.ptr() == this)) {
+		set_from_mlpp_matrix(A->kronecker_productn(B));
+		return;
+	}
+
 	Size2i a_size = A->size();
 	Size2i b_size = B->size();
 
@@ -1160,6 +1170,11 @@ Ref<MLPPMatrix> MLPPMatrix::transposen() const {
 void MLPPMatrix::transposeb(const Ref<MLPPMatrix> &A) {
 	ERR_FAIL_COND(!A.is_valid());
 
+	if (unlikely(A.ptr() == this)) {
+		transpose();
+		return;
+	}
+
 	Size2i a_size = A->size();
 
 	Size2i s = Size2i(a_size.y, a_size.x);
-- 
2.43.0


From 9e3ba81c6e660da8d8bf08129e0d356e02873c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 008/209] fix: MLPPMatrix::create_rotation_matrix() did not
 return rotations for the plane and the z axis

---
 core/mlpp_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 20a1282..133baf1 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1936,7 +1936,7 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(0, 0)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(0, 1)] = -Math::sin(theta);
 
-		rptr[rotation_matrix->calculate_index(1, 0)] = Math::cos(theta);
+		rptr[rotation_matrix->calculate_index(1, 0)] = Math::sin(theta);
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 	} else if (axis == 0) {
 		rotation_matrix->resize(Size2(3, 3));
@@ -1981,9 +1981,9 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(1, 2)] = 0;
 
-		rptr[rotation_matrix->calculate_index(2, 0)] = 1;
+		rptr[rotation_matrix->calculate_index(2, 0)] = 0;
 		rptr[rotation_matrix->calculate_index(2, 1)] = 0;
-		rptr[rotation_matrix->calculate_index(2, 2)] = 0;
+		rptr[rotation_matrix->calculate_index(2, 2)] = 1;
 	}
 
 	return rotation_matrix;
-- 
2.43.0


From cfcc89b0f55324a9046149b7ed06aeeb591d2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 009/209] fix: MLPPMatrix::detb() returned 0 for every 1x1
 matrix

---
 core/mlpp_matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 133baf1..ee28036 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1629,7 +1629,9 @@ real_t MLPPMatrix::detb(const Ref<MLPPMatrix> &A, int d) const {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		Ref<MLPPMatrix> B;
-- 
2.43.0


From f74f61e72c6a5c5c77017561a77d285324aa8c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 010/209] fix: MLPPMatrix::inverse() and inverseo()
 dereferenced null for non-square matrices

---
 core/mlpp_matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index ee28036..df66353 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1798,10 +1798,13 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::inverse() const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPMatrix>());
+
 	return adjoint()->scalar_multiplyn(1 / det());
 }
 void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
+	ERR_FAIL_COND(_size.x != _size.y);
 
 	out->set_from_mlpp_matrix(adjoint()->scalar_multiplyn(1 / det()));
 }
-- 
2.43.0


From d35dcc8b1aeb23cba01bb4037e7aafa685386559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 011/209] fix: MLPPMatrix::pinverse() used A*A instead of the
 Gram matrix

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index df66353..7f8ef05 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1810,12 +1810,12 @@ void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::pinverse() const {
-	return multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen());
+	return transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen());
 }
 void MLPPMatrix::pinverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	out->set_from_mlpp_matrix(multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen()));
+	out->set_from_mlpp_matrix(transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen()));
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matn_zero(int n, int m) const {
-- 
2.43.0


From 8d7bbe5c1518c7b63ed67092eb76cf018e8b434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 012/209] fix: MLPPMatrix::set_from_ptr() leaked the previous
 data and lost the size on a null source

---
 core/mlpp_matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 7f8ef05..1f98de0 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -592,8 +592,6 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 }
 
 void MLPPMatrix::set_from_ptr(const real_t *p_from, const int p_size_y, const int p_size_x) {
-	_data = NULL;
-
 	ERR_FAIL_COND(!p_from);
 
 	resize(Size2i(p_size_x, p_size_y));
-- 
2.43.0


From f946888832f5f0dd0b34e705122fa280503b8811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 013/209] fix: MLPPMatrix::reset() kept the width of a matrix
 without data

---
 core/mlpp_matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.h b/core/mlpp_matrix.h
index 5865b52..bfbe53b 100644
--- a/core/mlpp_matrix.h
+++ b/core/mlpp_matrix.h
@@ -80,8 +80,9 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Vector2i();
     }
+
+    _size = Vector2i();
   }
 
   _FORCE_INLINE_ bool empty() const { return data_size() == 0; }
-- 
2.43.0


From 48ef4822b4d528603c861eecd62f15237afddd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 014/209] fix: MLPPLinAlg::detm() returned 0 for every 1x1
 matrix

---
 core/lin_alg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e72ea1b..0e540e6 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -436,6 +436,10 @@ Ref<MLPPMatrix> MLPPLinAlg::absnm(const Ref<MLPPMatrix> &A) {
 real_t MLPPLinAlg::detm(const Ref<MLPPMatrix> &A, int d) {
 	ERR_FAIL_COND_V(!A.is_valid(), 0);
 
+	if (d == 1) {
+		return A->element_get(0, 0);
+	}
+
 	real_t deter = 0;
 	Ref<MLPPMatrix> B;
 	B.instance();
-- 
2.43.0


From 8d339bb10404cbee6c3d15c68497975e77f7c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 015/209] fix: MLPPLinAlg::inversenm() dereferenced null for
 non-square matrices

---
 core/lin_alg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 0e540e6..3b77a6f 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -548,6 +548,8 @@ Ref<MLPPMatrix> MLPPLinAlg::adjointnm(const Ref<MLPPMatrix> &A) {
 	return adj;
 }
 Ref<MLPPMatrix> MLPPLinAlg::inversenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid() || A->size().x != A->size().y, Ref<MLPPMatrix>());
+
 	return scalar_multiplynm(1 / detm(A, int(A->size().y)), adjointnm(A));
 }
 Ref<MLPPMatrix> MLPPLinAlg::pinversenm(const Ref<MLPPMatrix> &A) {
-- 
2.43.0


From b185672a02450237f9aad3275bbd32fed8de5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 016/209] fix: MLPPLinAlg::absnvt() returned its argument
 instead of the absolute values

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 3b77a6f..a0a2864 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1951,7 +1951,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::absnvt(const Vector<Ref<MLPPMatrix>> &A) {
 		res.write[i] = absnm(A[i]);
 	}
 
-	return A;
+	return res;
 }
 
 /*
-- 
2.43.0


From 25f7653a5269ddeecf8a0a7998bceb65ee94c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 017/209] fix: MLPPLinAlg::linear_independence_checker() read
 the Gram matrix out of its bounds

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index a0a2864..e47f1bb 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -47,7 +47,7 @@ Ref<MLPPMatrix> MLPPLinAlg::gram_matrix(const Ref<MLPPMatrix> &A) {
 }
 
 bool MLPPLinAlg::linear_independence_checker(const Ref<MLPPMatrix> &A) {
-	if (gram_matrix(A)->det(A->size().y) == 0) {
+	if (gram_matrix(A)->det(A->size().x) == 0) {
 		return false;
 	}
 
-- 
2.43.0


From beaeb6a335e89e9fee05e32ad365cc6f19382162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 018/209] fix: MLPPLinAlg::maxnm() read past the end of a
 smaller second operand

---
 core/lin_alg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e47f1bb..56c9f7c 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1558,6 +1558,9 @@ Ref<MLPPVector> MLPPLinAlg::cosnv(const Ref<MLPPVector> &a) {
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::maxnm(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND_V(!A.is_valid() || !B.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size() != B->size(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	C->resize(A->size());
-- 
2.43.0


From dc14c236956cfbdba0259c3bb97307b889c65a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 019/209] fix: MLPPLinAlg::zero_eigenvalue() answered the
 opposite

---
 core/lin_alg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 56c9f7c..a4c85ee 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1073,11 +1073,11 @@ bool MLPPLinAlg::zero_eigenvalue(const Ref<MLPPMatrix> &A) {
 
 	for (int i = 0; i < eigenvals_size.y; ++i) {
 		if (eigenvals->element_get(i, i) == 0) { // TODO should it use is_equal_approx?
-			return false;
+			return true;
 		}
 	}
 
-	return true;
+	return false;
 }
 
 Ref<MLPPVector> MLPPLinAlg::flattenmnv(const Vector<Ref<MLPPVector>> &A) {
-- 
2.43.0


From 64f2468bd16acf22b7fd4c907a1eadc66cddbb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 020/209] fix: MLPPLinAlg::covnm() only covered square matrices

---
 core/lin_alg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index a4c85ee..15170f8 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -709,7 +709,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 
 	Size2i a_size = A->size();
 
-	cov_mat->resize(a_size);
+	cov_mat->resize(Size2i(a_size.y, a_size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -722,7 +722,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 	for (int i = 0; i < a_size.y; ++i) {
 		A->row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < a_size.x; ++j) {
+		for (int j = 0; j < a_size.y; ++j) {
 			A->row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From d80ba82ef884852a7ba8a06f48190e8c89a66e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 021/209] fix: MLPPMatrix::cov() and covo() only covered square
 matrices

---
 core/mlpp_matrix.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 1f98de0..46a991d 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2205,7 +2205,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	Ref<MLPPMatrix> cov_mat;
 	cov_mat.instance();
 
-	cov_mat->resize(_size);
+	cov_mat->resize(Size2i(_size.y, _size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -2218,7 +2218,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
@@ -2232,8 +2232,10 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 
 	MLPPStat stat;
 
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
+	Size2i cov_size = Size2i(_size.y, _size.y);
+
+	if (unlikely(out->size() != cov_size)) {
+		out->resize(cov_size);
 	}
 
 	Ref<MLPPVector> a_i_row_tmp;
@@ -2247,7 +2249,7 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			out->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From a54b50bd3f9e3e3a70ba416c224e49fa2a5316fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 022/209] fix: MLPPTensor3::row_get_vector() ignored the z
 index

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 87a6e71..fcf0b1a 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -287,7 +287,7 @@ Vector<real_t> MLPPTensor3::row_get_vector(int p_index_z, int p_index_y) const {
 
   ret.resize(_size.x);
 
-  int ind_start = p_index_y * _size.x;
+  int ind_start = p_index_y * _size.x + _size.x * _size.y * p_index_z;
 
   real_t *row_ptr = ret.ptrw();
 
-- 
2.43.0


From 36fd408cba0755c6eafa295c00fc84ab91b8e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 023/209] fix: MLPPTensor3::z_slice_remove_unordered() read
 past the last slice

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index fcf0b1a..a3e282b 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -225,7 +225,7 @@ void MLPPTensor3::z_slice_remove_unordered(int p_index) {
   int end_ind = calculate_z_slice_index(p_index + 1);
 
   for (int i = start_ind; i < end_ind; ++i) {
-    _data[i] = _data[ds + i];
+    _data[i] = _data[ds + i - start_ind];
   }
 
   _data = (real_t *)memrealloc(_data, data_size() * sizeof(real_t));
-- 
2.43.0


From 541b9b8eef36a59ff57950681e650d4c83ff1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 024/209] fix: MLPPTensor3 x slices used the x index as a row

---
 core/mlpp_tensor3.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index a3e282b..5c3dffc 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -634,7 +634,7 @@ void MLPPTensor3::x_slice_get_into(int p_index_x,
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      target->element_set(z, y, element_get(z, p_index_x, y));
+      target->element_set(z, y, element_get(z, y, p_index_x));
     }
   }
 }
@@ -655,7 +655,7 @@ void MLPPTensor3::x_slice_set(int p_index_x, const Ref<MLPPMatrix> &p_mat) {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      element_set(z, p_index_x, y, p_mat->element_get(z, y));
+      element_set(z, y, p_index_x, p_mat->element_get(z, y));
     }
   }
 }
@@ -1152,7 +1152,7 @@ Ref<Image> MLPPTensor3::x_slice_get_image(const int p_index_x) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_x, y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, y, p_index_x) * 255.0);
 
       ++i;
     }
@@ -1215,8 +1215,8 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
       Color c;
 
       float e = element_get(z, y, p_index_x);
@@ -1225,7 +1225,7 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, y, c);
+      p_target->set_pixel(y, z, c);
     }
   }
 
@@ -1257,9 +1257,9 @@ void MLPPTensor3::x_slice_set_image(const Ref<Image> &p_img,
 
   img->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
-      Color c = img->get_pixel(z, y);
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
+      Color c = img->get_pixel(y, z);
 
       element_set(z, y, p_index_x, c[channel_index]);
     }
-- 
2.43.0


From 957cad1d393ab018da20693025dd79554030834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 025/209] fix: MLPPTensor3 y slices used the y index as a
 column and the wrong width

---
 core/mlpp_tensor3.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 5c3dffc..f794a42 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -665,13 +665,13 @@ void MLPPTensor3::y_slice_get_into(int p_index_y,
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!target.is_valid());
 
-  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
+  if (unlikely(target->size() != Size2i(_size.x, _size.z))) {
     target->resize(Size2i(_size.x, _size.z));
   }
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      target->element_set(z, x, element_get(z, x, p_index_y));
+      target->element_set(z, x, element_get(z, p_index_y, x));
     }
   }
 }
@@ -688,11 +688,11 @@ Ref<MLPPMatrix> MLPPTensor3::y_slice_get(int p_index_y) const {
 void MLPPTensor3::y_slice_set(int p_index_y, const Ref<MLPPMatrix> &p_mat) {
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!p_mat.is_valid());
-  ERR_FAIL_COND(p_mat->size() != Size2i(_size.y, _size.z));
+  ERR_FAIL_COND(p_mat->size() != Size2i(_size.x, _size.z));
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      element_set(z, x, p_index_y, p_mat->element_get(z, x));
+      element_set(z, p_index_y, x, p_mat->element_get(z, x));
     }
   }
 }
@@ -1287,7 +1287,7 @@ Ref<Image> MLPPTensor3::y_slice_get_image(const int p_index_y) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, x, p_index_y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_y, x) * 255.0);
 
       ++i;
     }
@@ -1350,8 +1350,8 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int x = 0; x < fms.y; ++x) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int x = 0; x < fms.x; ++x) {
       Color c;
 
       float e = element_get(z, p_index_y, x);
@@ -1360,7 +1360,7 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, x, c);
+      p_target->set_pixel(x, z, c);
     }
   }
 
-- 
2.43.0


From 89e7a3bce35c205f2f10d5427eca71bd4d7feee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 026/209] fix: MLPPTensor3::z_slices_add_image() grew the rows
 instead of the slices

---
 core/mlpp_tensor3.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index f794a42..db2a1ea 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -729,18 +729,16 @@ void MLPPTensor3::z_slices_add_image(const Ref<Image> &p_img,
   ERR_FAIL_COND(channel_count == 0);
 
   if (unlikely(_size == Size3i())) {
-    resize(Size3i(img_size.x, img_size.y, channel_count));
+    resize(Size3i(img_size.x, img_size.y, 0));
   }
 
   Size2i fms = z_slice_size();
 
   ERR_FAIL_COND(img_size != fms);
 
-  int start_channel = _size.y;
+  int start_channel = _size.z;
 
-  _size.y += channel_count;
-
-  resize(_size);
+  resize(Size3i(_size.x, _size.y, _size.z + channel_count));
 
   Ref<Image> img = p_img;
 
-- 
2.43.0


From 829a0c003ebb88aea737a60864f22258f280ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 027/209] fix: MLPPTensor3::scalar_multiplyb() and
 scalar_addb() ignored their operand

---
 core/mlpp_tensor3.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index db2a1ea..e202f98 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1677,10 +1677,10 @@ void MLPPTensor3::scalar_multiplyb(const real_t scalar,
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *a_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
-    _data[i] = an_ptr[i] * scalar;
+    _data[i] = a_ptr[i] * scalar;
   }
 }
 
@@ -1710,10 +1710,10 @@ void MLPPTensor3::scalar_addb(const real_t scalar, const Ref<MLPPTensor3> &A) {
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *a_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
-    _data[i] = an_ptr[i] + scalar;
+    _data[i] = a_ptr[i] + scalar;
   }
 }
 
-- 
2.43.0


From 84fea05aee81f740e95cbde090ddc98b88e48173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 028/209] fix: MLPPTensor3::reset() kept the size of a tensor
 without data

---
 core/mlpp_tensor3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.h b/core/mlpp_tensor3.h
index a0c30f5..26f4712 100644
--- a/core/mlpp_tensor3.h
+++ b/core/mlpp_tensor3.h
@@ -81,8 +81,9 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Size3i();
     }
+
+    _size = Size3i();
   }
 
   _FORCE_INLINE_ bool empty() const { return _size == Size3i(); }
-- 
2.43.0


From 44830f72935df97f16a2014fd2ecb334421cadee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 029/209] fix: activation dispatch: the deriv argument selected
 the opposite function

---
 core/activation.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b6efab..6e0d3eb 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -37,23 +37,23 @@
 
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_real(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_real(func);
-	} else {
 		return get_activation_function_ptr_deriv_real(func);
+	} else {
+		return get_activation_function_ptr_normal_real(func);
 	}
 }
 MLPPActivation::VectorActivationFunctionPointer MLPPActivation::get_activation_function_ptr_vector(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_vector(func);
-	} else {
 		return get_activation_function_ptr_deriv_vector(func);
+	} else {
+		return get_activation_function_ptr_normal_vector(func);
 	}
 }
 MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_function_ptr_matrix(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_matrix(func);
-	} else {
 		return get_activation_function_ptr_deriv_matrix(func);
+	} else {
+		return get_activation_function_ptr_normal_matrix(func);
 	}
 }
 
@@ -433,23 +433,23 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 
 real_t MLPPActivation::run_activation_real(const ActivationFunction func, const real_t z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_real(func, z);
-	} else {
 		return run_activation_deriv_real(func, z);
+	} else {
+		return run_activation_norm_real(func, z);
 	}
 }
 Ref<MLPPVector> MLPPActivation::run_activation_vector(const ActivationFunction func, const Ref<MLPPVector> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_vector(func, z);
-	} else {
 		return run_activation_deriv_vector(func, z);
+	} else {
+		return run_activation_norm_vector(func, z);
 	}
 }
 Ref<MLPPMatrix> MLPPActivation::run_activation_matrix(const ActivationFunction func, const Ref<MLPPMatrix> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_matrix(func, z);
-	} else {
 		return run_activation_deriv_matrix(func, z);
+	} else {
+		return run_activation_norm_matrix(func, z);
 	}
 }
 
-- 
2.43.0


From b356c82f059912fd872388dd12478d7667e912f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 030/209] fix: get_activation_function_ptr_deriv_real returned
 the value functions

---
 core/activation.cpp | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 6e0d3eb..81b9e71 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -247,61 +247,61 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_deriv_real(const ActivationFunction func) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return &MLPPActivation::linear_normr;
+			return &MLPPActivation::linear_derivr;
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return &MLPPActivation::sigmoid_normr;
+			return &MLPPActivation::sigmoid_derivr;
 		case ACTIVATION_FUNCTION_SWISH:
-			return &MLPPActivation::swish_normr;
+			return &MLPPActivation::swish_derivr;
 		case ACTIVATION_FUNCTION_MISH:
-			return &MLPPActivation::mish_normr;
+			return &MLPPActivation::mish_derivr;
 		case ACTIVATION_FUNCTION_SIN_C:
-			return &MLPPActivation::sinc_normr;
+			return &MLPPActivation::sinc_derivr;
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return &MLPPActivation::softmax_normr;
+			return &MLPPActivation::softmax_derivr;
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return &MLPPActivation::softplus_normr;
+			return &MLPPActivation::softplus_derivr;
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return &MLPPActivation::softsign_normr;
+			return &MLPPActivation::softsign_derivr;
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return &MLPPActivation::adj_softmax_normr;
+			return &MLPPActivation::adj_softmax_derivr;
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return &MLPPActivation::cloglog_normr;
+			return &MLPPActivation::cloglog_derivr;
 		case ACTIVATION_FUNCTION_LOGIT:
-			return &MLPPActivation::logit_normr;
+			return &MLPPActivation::logit_derivr;
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return &MLPPActivation::gaussian_cdf_normr;
+			return &MLPPActivation::gaussian_cdf_derivr;
 		case ACTIVATION_FUNCTION_RELU:
-			return &MLPPActivation::relu_normr;
+			return &MLPPActivation::relu_derivr;
 		case ACTIVATION_FUNCTION_GELU:
-			return &MLPPActivation::gelu_normr;
+			return &MLPPActivation::gelu_derivr;
 		case ACTIVATION_FUNCTION_SIGN:
-			return &MLPPActivation::sign_normr;
+			return &MLPPActivation::sign_derivr;
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return &MLPPActivation::unit_step_normr;
+			return &MLPPActivation::unit_step_derivr;
 		case ACTIVATION_FUNCTION_SINH:
-			return &MLPPActivation::sinh_normr;
+			return &MLPPActivation::sinh_derivr;
 		case ACTIVATION_FUNCTION_COSH:
-			return &MLPPActivation::cosh_normr;
+			return &MLPPActivation::cosh_derivr;
 		case ACTIVATION_FUNCTION_TANH:
-			return &MLPPActivation::tanh_normr;
+			return &MLPPActivation::tanh_derivr;
 		case ACTIVATION_FUNCTION_CSCH:
-			return &MLPPActivation::csch_normr;
+			return &MLPPActivation::csch_derivr;
 		case ACTIVATION_FUNCTION_SECH:
-			return &MLPPActivation::sech_normr;
+			return &MLPPActivation::sech_derivr;
 		case ACTIVATION_FUNCTION_COTH:
-			return &MLPPActivation::coth_normr;
+			return &MLPPActivation::coth_derivr;
 		case ACTIVATION_FUNCTION_ARSINH:
-			return &MLPPActivation::arsinh_normr;
+			return &MLPPActivation::arsinh_derivr;
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return &MLPPActivation::arcosh_normr;
+			return &MLPPActivation::arcosh_derivr;
 		case ACTIVATION_FUNCTION_ARTANH:
-			return &MLPPActivation::artanh_normr;
+			return &MLPPActivation::artanh_derivr;
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return &MLPPActivation::arcsch_normr;
+			return &MLPPActivation::arcsch_derivr;
 		case ACTIVATION_FUNCTION_ARSECH:
-			return &MLPPActivation::arsech_normr;
+			return &MLPPActivation::arsech_derivr;
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return &MLPPActivation::arcoth_normr;
+			return &MLPPActivation::arcoth_derivr;
 		default:
 			return NULL;
 	}
-- 
2.43.0


From 2942e9a79f2fb1bb3f4c9bfeebbf79e8956c4728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 031/209] fix: softmax_derivm recursed into itself endlessly

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 81b9e71..bca3303 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -998,7 +998,7 @@ Ref<MLPPMatrix> MLPPActivation::softmax_derivm(const Ref<MLPPMatrix> &z) {
 	for (int i = 0; i < z_size.y; ++i) {
 		z->row_get_into_mlpp_vector(i, row_tmp);
 
-		Ref<MLPPVector> sfn = softmax_derivm(z);
+		Ref<MLPPVector> sfn = softmax_derivv(row_tmp);
 
 		a->row_set_mlpp_vector(i, sfn);
 	}
-- 
2.43.0


From 0e45f5514a4af2f63f870fb93a2daa616a1ab326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 032/209] fix: matrix activations called vector operations,
 which yield nothing for matrices

---
 core/activation.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index bca3303..00e4aa7 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1249,7 +1249,7 @@ Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.lognv(alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.expnv(z)));
+	return alg.lognm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.expnm(z)));
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
@@ -1275,7 +1275,7 @@ Ref<MLPPVector> MLPPActivation::softsign_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(z, alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
+	return alg.division_element_wisenvnm(z, alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
 }
 
 real_t MLPPActivation::softsign_derivr(real_t z) {
@@ -1289,7 +1289,7 @@ Ref<MLPPVector> MLPPActivation::softsign_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenv(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
 }
 
 //GAUSSIANCDF
@@ -1463,7 +1463,7 @@ Ref<MLPPVector> MLPPActivation::swish_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.hadamard_productnv(z, sigmoid_normm(z));
+	return alg.hadamard_productnm(z, sigmoid_normm(z));
 }
 
 real_t MLPPActivation::swish_derivr(real_t z) {
@@ -1477,7 +1477,7 @@ Ref<MLPPVector> MLPPActivation::swish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(swish_normm(z), alg.subtractionnv(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
+	return alg.additionnm(swish_normm(z), alg.subtractionnm(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
 }
 
 //MISH
@@ -1514,7 +1514,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(
+	return alg.additionnm(
 			alg.hadamard_productnm(
 					alg.hadamard_productnm(
 							alg.hadamard_productnm(
@@ -2291,7 +2291,7 @@ Ref<MLPPVector> MLPPActivation::artanh_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnv(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
 }
 
 //ARCSCH
-- 
2.43.0


From bff12c2c885efb604932edc31a120d8c6a38e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 033/209] fix: arcsch_derivv called a matrix operation on
 vectors

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 00e4aa7..78414e7 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2329,7 +2329,7 @@ Ref<MLPPVector> MLPPActivation::arcsch_derivv(const Ref<MLPPVector> &z) {
 
 	return alg.division_element_wisenv(
 			alg.fullnv(z->size(), -1),
-			alg.hadamard_productnm(
+			alg.hadamard_productnv(
 					alg.hadamard_productnv(z, z),
 					alg.sqrtnv(alg.additionnv(alg.onevecnv(z->size()), alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z))))));
 }
-- 
2.43.0


From 161ceb862a180897ad65953d4ba8985d1fc54d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 034/209] fix: vector and matrix forms of the cloglog
 derivative lacked the factor exp(z)

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 78414e7..a332d4f 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1347,13 +1347,13 @@ real_t MLPPActivation::cloglog_derivr(real_t z) {
 Ref<MLPPVector> MLPPActivation::cloglog_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnv(alg.scalar_multiplynv(-1, alg.expnv(z)));
+	return alg.expnv(alg.subtractionnv(z, alg.expnv(z)));
 }
 
 Ref<MLPPMatrix> MLPPActivation::cloglog_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnm(alg.scalar_multiplynm(-1, alg.expnm(z)));
+	return alg.expnm(alg.subtractionnm(z, alg.expnm(z)));
 }
 
 //LOGIT
-- 
2.43.0


From bb6a416db88d2d98ce1712f93a3d1ecb5268b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 035/209] fix: selu derivative ignored lambda

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index a332d4f..2519ed1 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1831,7 +1831,7 @@ Ref<MLPPMatrix> MLPPActivation::selu_normm(const Ref<MLPPMatrix> &z, real_t lamb
 }
 
 real_t MLPPActivation::selu_derivr(real_t z, real_t lambda, real_t c) {
-	return elu_derivr(z, c);
+	return lambda * elu_derivr(z, c);
 }
 Ref<MLPPVector> MLPPActivation::selu_derivv(const Ref<MLPPVector> &z, real_t lambda, real_t c) {
 	Ref<MLPPVector> a;
-- 
2.43.0


From 1f3502996b7b26b07ddfc2ec496aac3c2670b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 036/209] fix: arsech lacked the square root of its definition

---
 core/activation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 2519ed1..ad52290 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2346,7 +2346,7 @@ Ref<MLPPMatrix> MLPPActivation::arcsch_derivm(const Ref<MLPPMatrix> &z) {
 //ARSECH
 
 real_t MLPPActivation::arsech_normr(real_t z) {
-	return Math::log((1 / z) + ((1 / z) + 1) * ((1 / z) - 1));
+	return Math::log((1 / z) + sqrt(((1 / z) + 1) * ((1 / z) - 1)));
 }
 
 Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
@@ -2356,9 +2356,9 @@ Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
 			alg.additionnv(
 					alg.division_element_wisenv(
 							alg.onevecnv(z->size()), z),
-					alg.hadamard_productnv(
+					alg.sqrtnv(alg.hadamard_productnv(
 							alg.additionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())),
-							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())))));
+							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size()))))));
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
@@ -2368,7 +2368,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 			alg.additionnm(
 					alg.division_element_wisenvnm(
 							alg.onematnm(z->size().y, z->size().x), z),
-					alg.hadamard_productnm(
+					alg.sqrtnm(alg.hadamard_productnm(
 							alg.additionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
@@ -2376,7 +2376,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 							alg.subtractionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)))));
+									alg.onematnm(z->size().y, z->size().x))))));
 }
 
 real_t MLPPActivation::arsech_derivr(real_t z) {
-- 
2.43.0


From f7184743a68296706325a5363b32b0554b439aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 037/209] fix: median of an odd number of samples returned the
 element below the middle

---
 core/stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 5376076..0b0f9a3 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -68,7 +68,7 @@ real_t MLPPStat::median(const Ref<MLPPVector> &p_x) {
 	if (x->size() % 2 == 0) {
 		return (x->element_get(center - 1) + x->element_get(center)) / 2.0;
 	} else {
-		return x->element_get(center - 1);
+		return x->element_get(center);
 	}
 }
 
-- 
2.43.0


From b1ca040c9a3cdb7354ba54ba9f3fcc2d20edcc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 038/209] fix: run_activation_deriv_real returned the values
 instead of the derivatives

---
 core/activation.cpp | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index ad52290..3258673 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -643,61 +643,61 @@ Ref<MLPPMatrix> MLPPActivation::run_activation_norm_matrix(const ActivationFunct
 real_t MLPPActivation::run_activation_deriv_real(const ActivationFunction func, const real_t z) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return linear_normr(z);
+			return linear_derivr(z);
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return sigmoid_normr(z);
+			return sigmoid_derivr(z);
 		case ACTIVATION_FUNCTION_SWISH:
-			return swish_normr(z);
+			return swish_derivr(z);
 		case ACTIVATION_FUNCTION_MISH:
-			return mish_normr(z);
+			return mish_derivr(z);
 		case ACTIVATION_FUNCTION_SIN_C:
-			return sinc_normr(z);
+			return sinc_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return softmax_normr(z);
+			return softmax_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return softplus_normr(z);
+			return softplus_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return softsign_normr(z);
+			return softsign_derivr(z);
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return adj_softmax_normr(z);
+			return adj_softmax_derivr(z);
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return cloglog_normr(z);
+			return cloglog_derivr(z);
 		case ACTIVATION_FUNCTION_LOGIT:
-			return logit_normr(z);
+			return logit_derivr(z);
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return gaussian_cdf_normr(z);
+			return gaussian_cdf_derivr(z);
 		case ACTIVATION_FUNCTION_RELU:
-			return relu_normr(z);
+			return relu_derivr(z);
 		case ACTIVATION_FUNCTION_GELU:
-			return gelu_normr(z);
+			return gelu_derivr(z);
 		case ACTIVATION_FUNCTION_SIGN:
-			return sign_normr(z);
+			return sign_derivr(z);
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return unit_step_normr(z);
+			return unit_step_derivr(z);
 		case ACTIVATION_FUNCTION_SINH:
-			return sinh_normr(z);
+			return sinh_derivr(z);
 		case ACTIVATION_FUNCTION_COSH:
-			return cosh_normr(z);
+			return cosh_derivr(z);
 		case ACTIVATION_FUNCTION_TANH:
-			return tanh_normr(z);
+			return tanh_derivr(z);
 		case ACTIVATION_FUNCTION_CSCH:
-			return csch_normr(z);
+			return csch_derivr(z);
 		case ACTIVATION_FUNCTION_SECH:
-			return sech_normr(z);
+			return sech_derivr(z);
 		case ACTIVATION_FUNCTION_COTH:
-			return coth_normr(z);
+			return coth_derivr(z);
 		case ACTIVATION_FUNCTION_ARSINH:
-			return arsinh_normr(z);
+			return arsinh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return arcosh_normr(z);
+			return arcosh_derivr(z);
 		case ACTIVATION_FUNCTION_ARTANH:
-			return artanh_normr(z);
+			return artanh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return arcsch_normr(z);
+			return arcsch_derivr(z);
 		case ACTIVATION_FUNCTION_ARSECH:
-			return arsech_normr(z);
+			return arsech_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return arcoth_normr(z);
+			return arcoth_derivr(z);
 		default:
 			ERR_FAIL_V(0);
 	}
-- 
2.43.0


From bb9096002213c5a975aeca5fb6b3296e58008ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 039/209] fix: mean squared error multiplied by the number of
 samples instead of dividing by it

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2d6ce84..855c696 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -47,7 +47,7 @@ real_t MLPPCost::msev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2 * y_hat_size;
+	return sum / (2.0 * static_cast<real_t>(y_hat_size));
 }
 real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
@@ -62,7 +62,7 @@ real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2.0 * static_cast<real_t>(y_hat_data_size);
+	return sum / (2.0 * static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::mse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From f5f2b9fafb67a0d01f1d3832d3ce87c455427d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 040/209] fix: rmsem averaged over the rows instead of the
 elements

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 855c696..093b44f 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -103,7 +103,7 @@ real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return Math::sqrt(sum / static_cast<real_t>(y_hat->size().y));
+	return Math::sqrt(sum / static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From ff4f33eb31f18d48b651d77cd2ccaceb5dc2f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 041/209] fix: rmse_derivm divided by the reciprocal of the
 root

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 093b44f..50a46b4 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -114,7 +114,7 @@ Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<ML
 Ref<MLPPMatrix> MLPPCost::rmse_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynm(1 / (2.0 / Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
+	return alg.scalar_multiplynm(1 / (2.0 * Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
 }
 
 real_t MLPPCost::maev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 655b2dfd411e9ab1048ca6b83cc6df4f4a66fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 042/209] fix: derivatives of the mean absolute error took the
 sign of the truncated prediction instead of the error

---
 core/cost.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 50a46b4..caed291 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -150,7 +150,10 @@ real_t MLPPCost::maem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	int y_hat_size = y_hat->size();
 
+	ERR_FAIL_COND_V(y_hat_size != y->size(), Ref<MLPPVector>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPVector> deriv;
 	deriv.instance();
@@ -158,11 +161,11 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t error = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (error < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (error == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
@@ -174,7 +177,10 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
+	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), Ref<MLPPMatrix>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPMatrix> deriv;
 	deriv.instance();
@@ -182,11 +188,11 @@ Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t error = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (error < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (error == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
-- 
2.43.0


From 1d7f54ae471b7de6572ab58d2f62346344e1bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 043/209] fix: mbe_derivm had the shape of the transposed
 prediction

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index caed291..c132980 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -239,7 +239,7 @@ Ref<MLPPVector> MLPPCost::mbe_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 }
 Ref<MLPPMatrix> MLPPCost::mbe_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
-	return alg.onematnm(y_hat->size().x, y_hat->size().y);
+	return alg.onematnm(y_hat->size().y, y_hat->size().x);
 }
 
 // Classification Costs
-- 
2.43.0


From e1bd1bdf0df632e5a0e748fc3ffbd3695fb05e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 044/209] fix: huber loss derivative used the sign of the
 prediction and half the slope of the quadratic part

---
 core/cost.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index c132980..2b19bc4 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -390,13 +390,9 @@ Ref<MLPPVector> MLPPCost::huber_loss_derivv(const Ref<MLPPVector> &y_hat, const
 
 	for (int i = 0; i < y_hat_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = -2 * (y_ptr[i] - y_hat_ptr[i]);
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = (y_hat_ptr[i] > y_ptr[i]) ? 2 * delta : -2 * delta;
 		}
 	}
 
@@ -420,13 +416,9 @@ Ref<MLPPMatrix> MLPPCost::huber_loss_derivm(const Ref<MLPPMatrix> &y_hat, const
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = -2 * (y_ptr[i] - y_hat_ptr[i]);
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = (y_hat_ptr[i] > y_ptr[i]) ? 2 * delta : -2 * delta;
 		}
 	}
 
-- 
2.43.0


From 7d0a051838932d560fd2d400d5d8c9e12e66dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 045/209] fix: hinge_losswm passed the weight matrix to the
 vector regularisation

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2b19bc4..2df7769 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -515,7 +515,7 @@ real_t MLPPCost::hinge_losswm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix
 	MLPPLinAlg alg;
 	MLPPReg regularization;
 
-	return C * hinge_lossm(y_hat, y) + regularization.reg_termv(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+	return C * hinge_lossm(y_hat, y) + regularization.reg_termm(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 }
 
 Ref<MLPPVector> MLPPCost::hinge_loss_derivwv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y, real_t C) {
-- 
2.43.0


From 04178806704335efe58a43d016b48d5a80d38624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 046/209] fix: create_mini_batchesm started each batch at a
 multiple of the batch count instead of the batch size

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 288ba48..2a1f848 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -640,7 +640,7 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
-- 
2.43.0


From b87d4a2694c1970b0402b2f6b2cb32e296b03d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 047/209] fix: create_mini_batchesmm started each batch at a
 multiple of the batch count instead of the batch size

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 2a1f848..572643a 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -727,7 +727,7 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 	CreateMiniBatchMMBatch ret;
 
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
-- 
2.43.0


From 8be5b7a029ce73441f503848d7206cea3ff88890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 048/209] fix: create_mini_batchesmv paired every batch with
 the labels of the first one

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 572643a..1581fef 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -691,7 +691,7 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 
-			current_output_set->element_set(j, output_set->element_get(j));
+			current_output_set->element_set(j, output_set->element_get(main_indx));
 		}
 
 		ret.input_sets.push_back(current_input_set);
-- 
2.43.0


From a6b455ef8784ea5ad809c463548610d3974b940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 049/209] fix: weight_initializationm computed the scale of its
 distributions with integer divisions

---
 core/utilities.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 1581fef..cff329e 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -233,49 +233,49 @@ void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistri
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / (n + m)), Math::sqrt(6.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / n), Math::sqrt(6.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(1.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(3.0 / n), Math::sqrt(3.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
+			std::uniform_real_distribution<real_t> distribution(-1.0 / Math::sqrt(static_cast<real_t>(n)), 1.0 / Math::sqrt(static_cast<real_t>(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
-- 
2.43.0


From 0a23471eeef229feb66b47fdbf991894e353c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 050/209] fix: bias_initializationv left the bias vector
 unchanged

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index cff329e..12cefcc 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -295,15 +295,15 @@ real_t MLPPUtilities::bias_initializationr() {
 void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	ERR_FAIL_COND(!z.is_valid());
 
-	std::vector<real_t> bias;
 	std::random_device rd;
 	std::default_random_engine generator(rd());
 	std::uniform_real_distribution<real_t> distribution(0, 1);
 
 	int n = z->size();
+	real_t *z_ptr = z->ptrw();
 
 	for (int i = 0; i < n; i++) {
-		bias.push_back(distribution(generator));
+		z_ptr[i] = distribution(generator);
 	}
 }
 
-- 
2.43.0


From 3a1e621e77810e6dbbf88fef630ed3f04f1d3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 051/209] fix: split_sentences split at ellipses instead of
 full stops and lost the last character

---
 core/data.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 5ad5dec..65036f9 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -574,19 +574,24 @@ Vector<String> MLPPData::split_sentences(String data) {
 
 	int start_index = 0;
 
-	for (int i = 0; i < data.length() - 1; ++i) {
-		if (data[i] == '.' && data[i + 1] != '.') {
+	for (int i = 0; i < data.length(); ++i) {
+		// An ellipsis does not end a sentence before its last dot.
+		if (data[i] != '.' || (i + 1 < data.length() && data[i + 1] == '.')) {
 			continue;
 		}
 
-		if (data[i] == '.') {
-			sentences.push_back(data.substr_index(start_index, i));
-			start_index = i + 1;
+		sentences.push_back(data.substr(start_index, i + 1 - start_index));
+
+		// The space between two sentences belongs to neither.
+		if (i + 1 < data.length() && data[i + 1] == ' ') {
+			++i;
 		}
+
+		start_index = i + 1;
 	}
 
-	if (start_index != data.length() - 1) {
-		sentences.push_back(data.substr_index(start_index, data.length() - 1));
+	if (start_index < data.length()) {
+		sentences.push_back(data.substr(start_index, data.length() - start_index));
 	}
 
 	return sentences;
-- 
2.43.0


From 3fd1ce87462647fe7241050989312037675d7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 052/209] fix: remove_empty skipped the element after each
 removed one

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 65036f9..669a268 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -608,6 +608,7 @@ Vector<String> MLPPData::remove_empty(Vector<String> data) {
 	for (int i = 0; i < data.size(); ++i) {
 		if (data[i].empty()) {
 			data.remove(i);
+			--i;
 		}
 	}
 
-- 
2.43.0


From 0dff60fc04e133135b690fd6317ae6f460062eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 053/209] fix: remove_stop_words_vec kept comparing with the
 element before the removed one, out of bounds at the start

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 669a268..fca61ab 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -684,6 +684,7 @@ Vector<String> MLPPData::remove_stop_words_vec(Vector<String> segmented_data) {
 			if (segmented_data[i] == stop_words[j]) {
 				segmented_data.remove(i);
 				--i;
+				break;
 			}
 		}
 	}
-- 
2.43.0


From c2d7e90d9b5eaa6301cb7014e99370bdba52cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 054/209] fix: segment dropped the character after punctuation
 even when it was not a space

---
 core/data.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index fca61ab..ee4815f 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -628,8 +628,12 @@ Vector<String> MLPPData::segment(String text) {
 			String punc;
 			punc += text[i];
 			segmented_data.push_back(punc);
-			prev_delim = i + 2;
-			i++;
+
+			if (i + 1 < text.length() && text[i + 1] == ' ') {
+				i++;
+			}
+
+			prev_delim = i + 1;
 		} else if (i == text.length() - 1) {
 			segmented_data.push_back(text.substr(prev_delim, text.length() - prev_delim)); // hehe oops- forgot this
 		}
-- 
2.43.0


From cfaacf4a80069871c68ca9d368b048646533e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 055/209] fix: tfidf counted into an uninitialised matrix

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index ee4815f..d83b126 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -767,6 +767,7 @@ Ref<MLPPMatrix> MLPPData::tfidf(Vector<String> sentences) {
 	Ref<MLPPMatrix> TF;
 	TF.instance();
 	TF->resize(Size2i(word_list.size(), segmented_sentences.size()));
+	TF->fill(0);
 
 	Vector<int> frequency;
 	frequency.resize(word_list.size());
-- 
2.43.0


From 989bca1a585935c90fc2f245a4db098737a62ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 056/209] fix: word_to_vec wrote its output rows into the input
 set

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index d83b126..7eb9090 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -883,7 +883,7 @@ MLPPData::WordsToVecResult MLPPData::word_to_vec(Vector<String> sentences, WordT
 
 	for (int i = 0; i < output_set_size.y; i++) {
 		bow->row_get_into_mlpp_vector(i + input_size, row_tmp);
-		input_set->row_set_mlpp_vector(i, row_tmp);
+		output_set->row_set_mlpp_vector(i, row_tmp);
 	}
 
 	MLPPSoftmaxNet *model;
-- 
2.43.0


From 611f52eae72925b59eefddf96d8f46e7556c3bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 057/209] fix: reverseOneHot decoded class k of one_hot_rep as
 k + 1

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 7eb9090..a8745da 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -1072,7 +1072,7 @@ std::vector<real_t> MLPPData::reverseOneHot(std::vector<std::vector<real_t>> tem
 	std::vector<real_t> outputSet;
 	//uint32_t n_class = tempOutputSet[0].size();
 	for (uint32_t i = 0; i < tempOutputSet.size(); i++) {
-		int current_class = 1;
+		int current_class = 0;
 		for (uint32_t j = 0; j < tempOutputSet[i].size(); j++) {
 			if (tempOutputSet[i][j] == 1) {
 				break;
-- 
2.43.0


From d08769085c0c000523239f4052d6663df9d0b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 058/209] fix: set_data_unsupervised transposed a copy and left
 the result transposed

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index a8745da..a7dc775 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -325,7 +325,7 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	memdelete(file);
 
 	input_set->set_from_vectors(input_set_tmp);
-	input_set = alg.transposenm(input_set);
+	input_set->transpose();
 }
 
 void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_set, Ref<MLPPVector> output_set) {
-- 
2.43.0


From 41c4a421697dd7b8273426cc97fe12a8520b6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 059/209] fix: the data file loaders read past the fields of
 the empty line after a final line end

---
 core/data.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index a7dc775..7b86180 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -280,6 +280,11 @@ void MLPPData::set_data_supervised(int k, const String &file_name, Ref<MLPPMatri
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		// The line end at the end of the file does not start another row.
+		if (ll.size() <= k) {
+			continue;
+		}
+
 		Vector<real_t> row;
 
 		for (int i = 0; i < k; ++i) {
@@ -316,6 +321,11 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		// The line end at the end of the file does not start another row.
+		if (ll.size() < k || (ll.size() == 1 && ll[0].empty())) {
+			continue;
+		}
+
 		for (int i = 0; i < k; ++i) {
 			input_set_tmp.write[i].push_back(static_cast<real_t>(ll[i].to_double()));
 		}
@@ -345,7 +355,7 @@ void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_se
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
-		for (int i = 0; i < ll.size(); i += 2) {
+		for (int i = 0; i + 1 < ll.size(); i += 2) {
 			input_set_tmp.push_back(static_cast<real_t>(ll[i].to_double()));
 			output_set_tmp.push_back(static_cast<real_t>(ll[i + 1].to_double()));
 		}
-- 
2.43.0


From f672a2f950264d36a9cb68af67df15a030fa21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 060/209] fix: convolve_2d moved its window by one element
 instead of the stride

---
 core/convolutions.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index a06f422..081e57f 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -88,19 +88,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
-
-					convolving_input->element_set(current_index, val);
+					convolving_input->element_set(current_index, input->element_get(i * S + k, j * S + p));
 					++current_index;
 				}
 			}
-- 
2.43.0


From 45664d8c4e68f87465dab78fd199db4ea016d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 061/209] fix: pool_2d moved its window by one element instead
 of the stride

---
 core/convolutions.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 081e57f..dddd049 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -207,19 +207,7 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
-
-					pooling_input->element_set(current_index, val);
+					pooling_input->element_set(current_index, input->element_get(i * S + k, j * S + p));
 					++current_index;
 				}
 			}
-- 
2.43.0


From 599adbebe2e49bef1bfad510eec2a411a1480d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 062/209] fix: convolve_3d mixed up the axes, used the whole
 filter set for every map and ignored the stride

---
 core/convolutions.cpp | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index dddd049..635f1ef 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -131,7 +131,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					if (i - P < 0 || j - P < 0 || i - P > input_size.y - 1 || j - P > input_size.x - 1) {
 						padded_input_slice->element_set(i, j, 0);
 					} else {
-						padded_input_slice->element_set(i, j, input->element_get(i - P, j - P, c));
+						padded_input_slice->element_set(i, j, input->element_get(c, i - P, j - P));
 					}
 				}
 			}
@@ -146,39 +146,20 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	feature_map.instance();
 	feature_map->resize(Size3i(map_size, map_size, C));
 
-	Ref<MLPPVector> filter_flattened = filter->flatten();
-
-	Ref<MLPPVector> convolving_input;
-	convolving_input.instance();
-	convolving_input->resize(input_size.z * F * F);
-
 	for (int c = 0; c < C; c++) {
 		for (int i = 0; i < map_size; i++) {
 			for (int j = 0; j < map_size; j++) {
-				int current_index = 0;
+				real_t sum = 0;
 
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val;
-
-							if (i == 0 && j == 0) {
-								val = input->element_get(i + k, j + p, t);
-							} else if (i == 0) {
-								val = input->element_get(i + k, j + (S - 1) + p, t);
-							} else if (j == 0) {
-								val = input->element_get(i + (S - 1) + k, j + p, t);
-							} else {
-								val = input->element_get(i + (S - 1) + k, j + (S - 1) + p, t);
-							}
-
-							convolving_input->element_set(current_index, val);
-							++current_index;
+							sum += input->element_get(t, i * S + k, j * S + p) * filter->element_get(c * input_size.z + t, k, p);
 						}
 					}
 				}
 
-				feature_map->element_set(c, i, j, convolving_input->dot(filter_flattened));
+				feature_map->element_set(c, i, j, sum);
 			}
 		}
 	}
-- 
2.43.0


From 437ae8876b444bff5530ebee7bf6bd6f796c4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 063/209] fix: gaussian_2d multiplied the exponent by the
 variance instead of dividing by it

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 635f1ef..4283565 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -269,7 +269,7 @@ Ref<MLPPVector> MLPPConvolutions::global_pool_3d(const Ref<MLPPTensor3> &input,
 
 real_t MLPPConvolutions::gaussian_2d(const real_t x, const real_t y, const real_t std) {
 	real_t std_sq = std * std;
-	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / 2 * std_sq);
+	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / (2 * std_sq));
 }
 
 Ref<MLPPMatrix> MLPPConvolutions::gaussian_filter_2d(const int size, const real_t std) {
-- 
2.43.0


From e39af49ef5290023e79a4e9305707212069bf69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 064/209] fix: dx took the number of rows for the last column

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 4283565..ded38ac 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -302,7 +302,7 @@ Ref<MLPPMatrix> MLPPConvolutions::dx(const Ref<MLPPMatrix> &input) {
 
 	for (int i = 0; i < input_size.y; i++) {
 		for (int j = 0; j < input_size.x; j++) {
-			if (j != 0 && j != input_size.y - 1) {
+			if (j != 0 && j != input_size.x - 1) {
 				deriv->element_set(i, j, input->element_get(i, j + 1) - input->element_get(i, j - 1));
 			} else if (j == 0) {
 				deriv->element_set(i, j, input->element_get(i, j + 1)); // E0 - 0 = Implicit zero-padding
-- 
2.43.0


From 1b928e7b9db39db0a42965b8c05b938487cefaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 065/209] fix: numerical derivatives stepped below the
 resolution of real_t

---
 core/numerical_analysis.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 5252378..44a962e 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -36,18 +36,29 @@
 #include "../core/mlpp_tensor3.h"
 #include "../core/mlpp_vector.h"
 
+// Steps of the finite differences of each order, so that neither the point nor the difference drowns in rounding errors.
+#ifdef REAL_T_IS_DOUBLE
+static const real_t NUM_DIFF_EPS = 1e-8;
+static const real_t NUM_DIFF_2_EPS = 1e-5;
+static const real_t NUM_DIFF_3_EPS = 1e-4;
+#else
+static const real_t NUM_DIFF_EPS = 5e-4;
+static const real_t NUM_DIFF_2_EPS = 5e-3;
+static const real_t NUM_DIFF_3_EPS = 2e-2;
+#endif
+
 real_t MLPPNumericalAnalysis::num_diffr(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-10;
+	real_t eps = NUM_DIFF_EPS;
 	return (function(x + eps) - function(x)) / eps; // This is just the formal def. of the derivative.
 }
 
 real_t MLPPNumericalAnalysis::num_diff_2r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = NUM_DIFF_2_EPS;
 	return (function(x + 2 * eps) - 2 * function(x + eps) + function(x)) / (eps * eps);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_3r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = NUM_DIFF_3_EPS;
 	real_t t1 = function(x + 3 * eps) - 2 * function(x + 2 * eps) + function(x + eps);
 	real_t t2 = function(x + 2 * eps) - 2 * function(x + eps) + function(x);
 	return (t1 - t2) / (eps * eps * eps);
@@ -73,7 +84,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 	// For multivariable function analysis.
 	// This will be used for calculating Jacobian vectors.
 	// Diffrentiate with respect to indicated axis. (0, 1, 2 ...)
-	real_t eps = 1e-10;
+	real_t eps = NUM_DIFF_EPS;
 	Ref<MLPPVector> x_eps = x->duplicate_fast();
 	x_eps->element_get_ref(axis) += eps;
 
@@ -82,7 +93,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 
 real_t MLPPNumericalAnalysis::num_diff_2v(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis1, int axis2) {
 	//For Hessians.
-	real_t eps = 1e-5;
+	real_t eps = NUM_DIFF_2_EPS;
 
 	Ref<MLPPVector> x_pp = x->duplicate_fast();
 	x_pp->element_get_ref(axis1) += eps;
@@ -101,7 +112,7 @@ real_t MLPPNumericalAnalysis::num_diff_3v(real_t (*function)(const Ref<MLPPVecto
 	// For third order derivative tensors.
 	// NOTE: Approximations do not appear to be accurate for sinusodial functions...
 	// Should revisit this later.
-	real_t eps = 1e-5;
+	real_t eps = NUM_DIFF_3_EPS;
 
 	Ref<MLPPVector> x_ppp = x->duplicate_fast();
 	x_ppp->element_get_ref(axis1) += eps;
-- 
2.43.0


From 9bdff22de03fba6acc8bc48c79b2238dfb74bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 066/209] fix: the cubic approximations lost their third order
 term to an integer division

---
 core/numerical_analysis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 44a962e..3fc540f 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -77,7 +77,7 @@ real_t MLPPNumericalAnalysis::quadratic_approximationr(real_t (*function)(real_t
 }
 
 real_t MLPPNumericalAnalysis::cubic_approximationr(real_t (*function)(real_t), real_t c, real_t x) {
-	return quadratic_approximationr(function, c, x) + (1 / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
+	return quadratic_approximationr(function, c, x) + (real_t(1) / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
 }
 
 real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis) {
@@ -352,7 +352,7 @@ real_t MLPPNumericalAnalysis::cubic_approximationv(real_t (*function)(const Ref<
 	Ref<MLPPMatrix> result_mat = third_order_tensor(function, c)->tensor_vec_mult(xsc);
 	real_t result_scalar = mxsc->multn(result_mat->multn(mxsc->transposen()))->element_get(0, 0);
 
-	return quadratic_approximationv(function, c, x) + (1 / 6) * result_scalar;
+	return quadratic_approximationv(function, c, x) + (real_t(1) / 6) * result_scalar;
 }
 
 real_t MLPPNumericalAnalysis::laplacian(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x) {
-- 
2.43.0


From d2c2cd2e56f3c810b7790b34c291e52be1d9e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 067/209] fix: linear_approximationv used only the first
 variable

---
 core/numerical_analysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 3fc540f..f3926a9 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -313,7 +313,7 @@ real_t MLPPNumericalAnalysis::linear_approximationv(real_t (*function)(const Ref
 	mxsc.instance();
 	mxsc->row_add_mlpp_vector(xsc);
 
-	Ref<MLPPMatrix> m = mj->transposen()->multn(mxsc);
+	Ref<MLPPMatrix> m = mj->multn(mxsc->transposen());
 
 	return constant_approximationv(function, c) + m->element_get(0, 0);
 }
-- 
2.43.0


From b22580cc5c9b3ed85a14a222e332dff64bdfe7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 068/209] fix: discrete_cosine_transform took the number of
 rows for the width too

---
 core/transforms.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/transforms.cpp b/core/transforms.cpp
index 76b844f..7504bd2 100644
--- a/core/transforms.cpp
+++ b/core/transforms.cpp
@@ -50,8 +50,11 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 	B->resize(size);
 
 	real_t M = size.y;
+	real_t N = size.x;
 	real_t inv_sqrt_M = 1 / Math::sqrt(M);
 	real_t s2M = Math::sqrt(real_t(2) / real_t(M));
+	real_t inv_sqrt_N = 1 / Math::sqrt(N);
+	real_t s2N = Math::sqrt(real_t(2) / real_t(N));
 
 	for (int i = 0; i < size.y; i++) {
 		for (int j = 0; j < size.x; j++) {
@@ -66,14 +69,14 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 
 			real_t alphaJ;
 			if (j == 0) {
-				alphaJ = inv_sqrt_M;
+				alphaJ = inv_sqrt_N;
 			} else {
-				alphaJ = s2M;
+				alphaJ = s2N;
 			}
 
 			for (int k = 0; k < size.y; k++) {
 				for (int f = 0; f < size.x; f++) {
-					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * M));
+					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * N));
 				}
 			}
 
-- 
2.43.0


From 2f9b6a93d04e83938d7c4d97d57b66ce7aef551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 069/209] fix: LinReg keeps fractional regularization
 parameters

---
 modules/lin_reg/lin_reg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.h b/modules/lin_reg/lin_reg.h
index 5390364..d755bfd 100644
--- a/modules/lin_reg/lin_reg.h
+++ b/modules/lin_reg/lin_reg.h
@@ -115,8 +115,8 @@ protected:
 
 	// Regularization Params
 	MLPPReg::RegularizationType _reg;
-	int _lambda;
-	int _alpha; /* This is the controlling param for Elastic Net*/
+	real_t _lambda;
+	real_t _alpha; /* This is the controlling param for Elastic Net*/
 
 	bool _initialized;
 };
-- 
2.43.0


From b6f2f8ea2db167b61667bdaa8f7676e1a54ba587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 070/209] fix: LinReg optimisers average the gradient over the
 mini-batch instead of truncating it to zero

---
 modules/lin_reg/lin_reg.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 73a1243..52dd5bb 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -310,7 +310,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
@@ -366,7 +366,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -419,7 +419,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -472,7 +472,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -525,7 +525,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -582,7 +582,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -639,7 +639,7 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-- 
2.43.0


From 3f02bbf34f8281226086302a4ce5f3529922c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 071/209] fix: LinReg adagrad accumulates the squared gradients

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 52dd5bb..e70ae48 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -423,7 +423,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-			v = weight_grad->hadamard_productn(weight_grad);
+			v = v->addn(weight_grad->hadamard_productn(weight_grad));
 			_weights->sub(weight_grad->division_element_wisen(v->scalar_addn(e)->sqrtn())->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
-- 
2.43.0


From 54331256238269479b0baafd6689a43eeb181e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 072/209] fix: ProbitReg mini-batch training uses the decision
 values and size of the batch

---
 modules/probit_reg/probit_reg.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 56aab86..8b93753 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -275,10 +275,6 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 	int epoch = 1;
 	int n = _input_set->size().y;
 
-	Ref<MLPPVector> z_tmp;
-	z_tmp.instance();
-	z_tmp->resize(1);
-
 	// Creating the mini-batches
 	int n_mini_batch = n / mini_batch_size;
 
@@ -290,22 +286,20 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> current_output = batches.output_sets[i];
 
 			Ref<MLPPVector> y_hat = evaluatem(current_input);
-			real_t z = propagatev(current_output);
-
-			z_tmp->element_set(0, z);
+			Ref<MLPPVector> z = propagatem(current_input);
 
 			cost_prev = cost(y_hat, current_output);
 
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / current_output->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp))->sum_elements() / batches.input_sets.size();
-			y_hat = evaluatev(current_input);
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / current_output->size();
+			y_hat = evaluatem(current_input);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_output));
-- 
2.43.0


From c14d70115cd82da089d604da6e5016a73392d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 073/209] fix: CLogLogReg mle ascends the likelihood

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index eef50ca..5d831b8 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -93,7 +93,7 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 	while (true) {
 		cost_prev = cost(_y_hat, _output_set);
 
-		Ref<MLPPVector> error = _y_hat->subn(_output_set);
+		Ref<MLPPVector> error = _output_set->subn(_y_hat);
 
 		_weights->add(_input_set->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(_z)))->scalar_multiplyn(learning_rate / _n));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From 35e402bdc86904480afa9ccff6239fb9e33e3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 074/209] fix: TanhReg sgd updates the weights

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 623b632..02ec3e1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -245,7 +245,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t error = y_hat - output_set_entry;
 
 		// Weight Updation
-		_weights->subn(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
+		_weights->sub(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 		// Bias updation
-- 
2.43.0


From 890f06b5fd184536714b1604b315fd6a653c9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 075/209] fix: TanhReg mini-batch bias gradient uses the
 decision values of the batch

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 02ec3e1..f87c7c1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -301,7 +301,7 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(_z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From c60556e136acc65892e0782ea9cebecc6fb4b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 076/209] fix: SVC gradient descent bias step descends the
 hinge loss of the decision values

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index edda1df..1fe322d 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -121,7 +121,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 		// Calculating the bias gradients
-		_bias += learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
+		_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c)->sum_elements() / n;
 
 		forward_pass();
 
-- 
2.43.0


From a295f21861e86309f665170da9cef93253530f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 077/209] fix: SVC mini-batch training updates the weights and
 uses the decision values for the bias

---
 modules/svc/svc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 1fe322d..d651a11 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -242,11 +242,11 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->subn(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(y_hat, current_output_batch_entry, _c)->sum_elements() / n;
+			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c)->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From 0b74586e3bbba17f139b1cb9d3585d956770d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 078/209] fix: ExpReg mini-batch training updates the
 coefficient whose gradient it computed

---
 modules/exp_reg/exp_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 5ca6a13..a13da03 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -211,8 +211,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				real_t i_gradient = sum2 / current_output_batch->size();
 
 				// Weight/initial updation
-				_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
-				_initial->element_set(i, _initial->element_get(i) - learning_rate * i_gradient);
+				_weights->element_set(j, _weights->element_get(j) - learning_rate * w_gradient);
+				_initial->element_set(j, _initial->element_get(j) - learning_rate * i_gradient);
 			}
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From 1e31d63b3431f7033aa0b454f983c206f9a76d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 079/209] fix: ExpReg mini-batch training updates the bias

---
 modules/exp_reg/exp_reg.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index a13da03..d265136 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -218,12 +218,11 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradient
-			//real_t sum = 0;
-			//for (int j = 0; j < current_output_batch->size(); j++) {
-			//	sum += (y_hat->element_get(j) - current_output_batch->element_get(j));
-			//}
+			real_t b_gradient = error->sum_elements() / current_output_batch->size();
+
+			// bias updation
+			_bias -= learning_rate * b_gradient;
 
-			//real_t b_gradient = sum / output_mini_batches[i].size();
 			y_hat = evaluatem(current_input_batch);
 
 			if (ui) {
-- 
2.43.0


From 2eb78f7ff1d6a35366d8f88c99edc0603cb85081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 080/209] fix: ExpReg weight gradient includes the initial
 value

---
 modules/exp_reg/exp_reg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index d265136..2446e69 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -64,7 +64,7 @@ void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 			for (int j = 0; j < _n; j++) {
 				sum += error->element_get(j) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
 			}
-			real_t w_gradient = sum / _n;
+			real_t w_gradient = _initial->element_get(i) * sum / _n;
 
 			// Calculating the initial gradient
 			real_t sum2 = 0;
@@ -143,7 +143,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		for (int i = 0; i < _k; i++) {
 			// Calculating the weight gradients
 
-			real_t w_gradient = (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
+			real_t w_gradient = _initial->element_get(i) * (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
 			real_t i_gradient = (y_hat - output_element_set) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i));
 
 			// Weight/initial updation
@@ -200,7 +200,7 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				for (int k = 0; k < current_output_batch->size(); k++) {
 					sum += error->element_get(k) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
 				}
-				real_t w_gradient = sum / current_output_batch->size();
+				real_t w_gradient = _initial->element_get(j) * sum / current_output_batch->size();
 
 				// Calculating the initial gradient
 				real_t sum2 = 0;
-- 
2.43.0


From 55aae743fa4cafa418c5fc0c84fde488e021cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 081/209] fix: SVC output set property is the vector it stores

---
 modules/svc/svc.cpp | 2 +-
 modules/svc/svc.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index d651a11..7d447d0 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -48,7 +48,7 @@ void MLPPSVC::set_input_set(const Ref<MLPPMatrix> &val) {
 Ref<MLPPVector> MLPPSVC::get_output_set() const {
 	return _output_set;
 }
-void MLPPSVC::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPSVC::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/svc/svc.h b/modules/svc/svc.h
index 7e4290c..a1062ba 100644
--- a/modules/svc/svc.h
+++ b/modules/svc/svc.h
@@ -55,7 +55,7 @@ public:
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
 	Ref<MLPPVector> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	real_t get_c() const;
 	void set_c(const real_t val);
-- 
2.43.0


From eb8b329fd3279ccf7fa5dbe2f68787ef8e49df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 082/209] fix: TanhReg output set property is the vector it
 stores

---
 modules/tanh_reg/tanh_reg.cpp | 4 ++--
 modules/tanh_reg/tanh_reg.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index f87c7c1..27d4c68 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -44,10 +44,10 @@ void MLPPTanhReg::set_input_set(const Ref<MLPPMatrix> &val) {
 	_input_set = val;
 }
 
-Ref<MLPPMatrix> MLPPTanhReg::get_output_set() const {
+Ref<MLPPVector> MLPPTanhReg::get_output_set() const {
 	return _output_set;
 }
-void MLPPTanhReg::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPTanhReg::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/tanh_reg/tanh_reg.h b/modules/tanh_reg/tanh_reg.h
index bc30180..ddea86a 100644
--- a/modules/tanh_reg/tanh_reg.h
+++ b/modules/tanh_reg/tanh_reg.h
@@ -51,8 +51,8 @@ public:
 	Ref<MLPPMatrix> get_input_set() const;
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
-	Ref<MLPPMatrix> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	Ref<MLPPVector> get_output_set() const;
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	MLPPReg::RegularizationType get_reg() const;
 	void set_reg(const MLPPReg::RegularizationType val);
-- 
2.43.0


From 94db4a66e41982ef9c4171a9f750b3aea33a621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 083/209] fix: SoftmaxReg sgd re-evaluates the input row it
 trained on

---
 modules/softmax_reg/softmax_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index 5109514..b267ddf 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -208,7 +208,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
-		y_hat = evaluatev(output_set_row_tmp);
+		y_hat = evaluatev(input_set_row_tmp);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
-- 
2.43.0


From 44363a3fc45af74d7eaea8ce628309b1fa9137b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 084/209] fix: MLPPKNN: select k distinct nearest neighbours

---
 modules/knn/knn.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 33c5ef1..8452ba6 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -113,13 +113,18 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 
 	//Perfom this loop unless and until all k nearest neighbors are found, appended, and returned
 	for (int i = 0; i < _k; ++i) {
-		int neighbor = 0;
+		int neighbor = -1;
 
 		for (int j = 0; j < iuss; j++) {
 			if (skip_map.has(j)) {
 				continue;
 			}
 
+			if (neighbor == -1) {
+				neighbor = j;
+				continue;
+			}
+
 			_input_set->row_get_into_mlpp_vector(j, tmpv1);
 			_input_set->row_get_into_mlpp_vector(neighbor, tmpv2);
 
@@ -130,7 +135,7 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 			}
 		}
 
-		if (!skip_map.has(neighbor)) {
+		if (neighbor != -1) {
 			knn.push_back(neighbor);
 			skip_map.set(neighbor, true);
 		}
-- 
2.43.0


From 2046553805371568dcfc2758b0cffd6824539e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 085/209] fix: MLPPKNN: count the labels of the neighbours, not
 matches of their indices

---
 modules/knn/knn.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 8452ba6..1b6593e 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -164,12 +164,7 @@ int MLPPKNN::determine_class(const PoolIntArray &knn) {
 	int knn_size = knn.size();
 
 	for (int i = 0; i < knn_size; ++i) {
-		for (int j = 0; j < output_set_size; j++) {
-			int opj = static_cast<int>(os_ptr[j]);
-			if (knn_ptr[i] == opj) {
-				class_nums[opj]++;
-			}
-		}
+		class_nums[static_cast<int>(os_ptr[knn_ptr[i]])]++;
 	}
 
 	int final_class = static_cast<int>(os_ptr[0]);
-- 
2.43.0


From f279d59c5b875a40a418ea2134b9312bca9c1c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 086/209] fix: MLPPKMeans::model_set_test: answer for the rows
 given, using every mean

---
 modules/kmeans/kmeans.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index f658e1b..8d8da78 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -81,11 +81,11 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	ERR_FAIL_COND_V(!X.is_valid(), Ref<MLPPMatrix>());
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
 
-	int input_set_size_y = _input_set->size().y;
+	int x_size_y = X->size().y;
 
 	Ref<MLPPMatrix> closest_centroids;
 	closest_centroids.instance();
-	closest_centroids->resize(Size2i(_mu->size().x, input_set_size_y));
+	closest_centroids->resize(Size2i(_mu->size().x, x_size_y));
 
 	Ref<MLPPVector> closest_centroid;
 	closest_centroid.instance();
@@ -99,13 +99,13 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	tmp_mujv.instance();
 	tmp_mujv->resize(_mu->size().x);
 
-	int r0_size = _r->size().x;
+	int mu_size_y = _mu->size().y;
 
-	for (int i = 0; i < input_set_size_y; ++i) {
+	for (int i = 0; i < x_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		X->row_get_into_mlpp_vector(i, tmp_xiv);
 
-		for (int j = 0; j < r0_size; ++j) {
+		for (int j = 0; j < mu_size_y; ++j) {
 			_mu->row_get_into_mlpp_vector(j, tmp_mujv);
 
 			bool is_centroid_closer = tmp_xiv->euclidean_distance(tmp_mujv) < tmp_xiv->euclidean_distance(closest_centroid);
-- 
2.43.0


From d31ac03dffe9d01963076a139a19ef54887420b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 087/209] fix: MLPPKMeans::_evaluate: start each sample's
 search at the first mean

---
 modules/kmeans/kmeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 8d8da78..b360f9d 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -355,6 +355,7 @@ void MLPPKMeans::_evaluate() {
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
 		closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
+		closest_centroid_index = 0;
 
 		for (int j = 0; j < r_size_x; ++j) {
 			_mu->row_get_into_mlpp_vector(j, mu_j_tempv);
-- 
2.43.0


From d6732037bd90ed5fbbab8bec1f4dbbd465fdb312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 088/209] fix: MLPPKMeans::_compute_mu: size the accumulator by
 features, keep the mean of an empty cluster

---
 modules/kmeans/kmeans.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index b360f9d..dffa146 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -380,7 +380,7 @@ void MLPPKMeans::_compute_mu() {
 
 	Ref<MLPPVector> num;
 	num.instance();
-	num->resize(_r->size().x);
+	num->resize(_mu->size().x);
 
 	Ref<MLPPVector> input_set_j_tempv;
 	input_set_j_tempv.instance();
@@ -409,6 +409,10 @@ void MLPPKMeans::_compute_mu() {
 			den += r_j_i;
 		}
 
+		if (den == 0) {
+			continue;
+		}
+
 		mu_tempv->scalar_multiplyb(real_t(1) / real_t(den), num);
 
 		_mu->row_set_mlpp_vector(i, mu_tempv);
-- 
2.43.0


From 8f8d629406a29e23d0d22c56d90e311e1b6f39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 089/209] fix: MLPPKMeans::_kmeanspp_initialization: set every
 mean, to the farthest sample

---
 modules/kmeans/kmeans.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index dffa146..7b8c04f 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -470,11 +470,11 @@ void MLPPKMeans::_kmeanspp_initialization() {
 	farthest_centroid.instance();
 	farthest_centroid->resize(_input_set->size().x);
 
-	for (int i = 1; i < _k - 1; ++i) {
+	for (int i = 1; i < _k; ++i) {
+		real_t max_dist = -1;
+
 		for (int j = 0; j < input_set_size_y; ++j) {
 			_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
-
-			real_t max_dist = 0;
 			// SUM ALL THE SQUARED DISTANCES, CHOOSE THE ONE THAT'S FARTHEST
 			// AS TO SPREAD OUT THE CLUSTER CENTROIDS.
 			real_t sum = 0;
-- 
2.43.0


From aa3c457a7a655e8f06af9a895782c743eed968d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 090/209] fix: MLPPKMeans::silhouette_scores: average distances
 over the clusters compared

---
 modules/kmeans/kmeans.cpp | 48 ++++++++++++---------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 7b8c04f..ff14496 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -191,17 +191,11 @@ real_t MLPPKMeans::score() {
 Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
 
-	Ref<MLPPMatrix> closest_centroids = model_set_test(_input_set);
-
-	ERR_FAIL_COND_V(!closest_centroids.is_valid(), Ref<MLPPVector>());
-
 	int input_set_size_y = _input_set->size().y;
 	int input_set_size_x = _input_set->size().x;
 
 	int mu_size_y = _mu->size().y;
 
-	int closest_centroids_size_y = closest_centroids->size().y;
-
 	Ref<MLPPVector> silhouette_scores;
 	silhouette_scores.instance();
 	silhouette_scores->resize(input_set_size_y);
@@ -226,24 +220,13 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 	r_j_tempv.instance();
 	r_j_tempv->resize(_r->size().x);
 
-	Ref<MLPPVector> closest_centroids_i_tempv;
-	closest_centroids_i_tempv.instance();
-	closest_centroids_i_tempv->resize(closest_centroids->size().x);
-
-	Ref<MLPPVector> closest_centroids_k_tempv;
-	closest_centroids_k_tempv.instance();
-	closest_centroids_k_tempv->resize(closest_centroids->size().x);
-
-	Ref<MLPPVector> mu_j_tempv;
-	mu_j_tempv.instance();
-	mu_j_tempv->resize(_mu->size().x);
-
 	for (int i = 0; i < input_set_size_y; ++i) {
 		_r->row_get_into_mlpp_vector(i, r_i_tempv);
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
 		// COMPUTING a[i]
 		real_t a = 0;
+		int cluster_size = 1;
 		for (int j = 0; j < input_set_size_y; ++j) {
 			if (i == j) {
 				continue;
@@ -255,38 +238,37 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 				_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
 				a += input_set_i_tempv->euclidean_distance(input_set_j_tempv);
+				++cluster_size;
 			}
 		}
 
 		// NORMALIZE a[i]
-		a /= closest_centroids->size().x - 1;
+		if (cluster_size == 1) {
+			silhouette_scores->element_set(i, 0);
+			continue;
+		}
 
-		closest_centroids->row_get_into_mlpp_vector(i, closest_centroids_i_tempv);
+		a /= cluster_size - 1;
 
 		// COMPUTING b[i]
 		real_t b = Math_INF;
 		for (int j = 0; j < mu_size_y; ++j) {
-			_mu->row_get_into_mlpp_vector(j, mu_j_tempv);
-
-			if (!closest_centroids_i_tempv->is_equal_approx(mu_j_tempv)) {
+			if (r_i_tempv->element_get(j) == 0) {
 				real_t sum = 0;
+				real_t k_cluster_size = 0;
 				for (int k = 0; k < input_set_size_y; ++k) {
+					if (_r->element_get(k, j) == 0) {
+						continue;
+					}
+
 					_input_set->row_get_into_mlpp_vector(k, input_set_k_tempv);
 
+					++k_cluster_size;
 					sum += input_set_i_tempv->euclidean_distance(input_set_k_tempv);
 				}
 
 				// NORMALIZE b[i]
-				real_t k_cluster_size = 0;
-				for (int k = 0; k < closest_centroids_size_y; ++k) {
-					_input_set->row_get_into_mlpp_vector(k, closest_centroids_k_tempv);
-
-					if (closest_centroids_k_tempv->is_equal_approx(mu_j_tempv)) {
-						++k_cluster_size;
-					}
-				}
-
-				if (sum / k_cluster_size < b) {
+				if (k_cluster_size > 0 && sum / k_cluster_size < b) {
 					b = sum / k_cluster_size;
 				}
 			}
-- 
2.43.0


From 70b6b356e1d287a07efb182fde26478c9a1e8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 091/209] fix: MLPPGaussianNB: count the class frequencies for
 the priors

---
 modules/gaussian_nb/gaussian_nb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index a4daf57..3d969d8 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -183,7 +183,7 @@ void MLPPGaussianNB::evaluate() {
 	_priors->fill(0);
 	for (int i = 0; i < _output_set->size(); i++) {
 		int indx = static_cast<int>(_output_set->element_get(i));
-		_priors->element_set(indx, _priors->element_get(indx));
+		_priors->element_set(indx, _priors->element_get(indx) + 1);
 	}
 
 	_priors->scalar_multiply(real_t(1) / real_t(_output_set->size()));
-- 
2.43.0


From 4ad602b2577d5d4ba31457e4202d92a6c14916f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 092/209] fix: MLPPGaussianNB: compare log posteriors of the
 whole sample, per class

---
 modules/gaussian_nb/gaussian_nb.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index 3d969d8..5fe93a3 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -84,15 +84,18 @@ real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
-	real_t y_hat_i = 1;
-
 	for (int i = _class_num - 1; i >= 0; i--) {
-		real_t sigma_i = _sigma->element_get(i);
-		real_t x_i = x->element_get(i);
-		real_t mu_i = _mu->element_get(i);
+		real_t y_hat_i = Math::log(_priors->element_get(i));
+
+		for (int k = 0; k < x->size(); k++) {
+			real_t sigma_i = _sigma->element_get(i);
+			real_t mu_i = _mu->element_get(i);
+			real_t x_k = x->element_get(k);
+
+			y_hat_i += Math::log(1 / Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) - (x_k - mu_i) * (x_k - mu_i) / (2 * sigma_i * sigma_i);
+		}
 
-		y_hat_i += Math::log(_priors->element_get(i) * (1 / Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) * Math::exp(-(x_i * mu_i) * (x_i * mu_i) / (2 * sigma_i * sigma_i)));
-		score[i] = Math::exp(y_hat_i);
+		score[i] = y_hat_i;
 	}
 
 	real_t max_element = -Math_INF;
@@ -192,18 +195,18 @@ void MLPPGaussianNB::evaluate() {
 		LocalVector<real_t> score;
 		score.resize(_class_num);
 
-		real_t y_hat_i = 1;
-
 		for (int j = _class_num - 1; j >= 0; j--) {
+			real_t y_hat_i = Math::log(_priors->element_get(j));
+
 			for (int k = 0; k < _input_set->size().x; k++) {
 				real_t sigma_j = _sigma->element_get(j);
 				real_t mu_j = _mu->element_get(j);
 				real_t input_set_i_k = _input_set->element_get(i, k);
 
-				y_hat_i += Math::log(_priors->element_get(j) * (1 / Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) * Math::exp(-(input_set_i_k * mu_j) * (input_set_i_k * mu_j) / (2 * sigma_j * sigma_j)));
+				y_hat_i += Math::log(1 / Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) - (input_set_i_k - mu_j) * (input_set_i_k - mu_j) / (2 * sigma_j * sigma_j);
 			}
 
-			score[j] = Math::exp(y_hat_i);
+			score[j] = y_hat_i;
 		}
 
 		real_t max_element = -Math_INF;
-- 
2.43.0


From 921620b356c67e701497bd158fd8eda07a3e666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 093/209] fix: MLPPBernoulliNB: compute the vocabulary before
 the parameters indexed by it

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index aa634cc..7ef31f8 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -175,12 +175,12 @@ void MLPPBernoulliNB::evaluate() {
 		_prior_1 = sum / _y_hat->size();
 		_prior_0 = 1 - _prior_1;
 
-		// Evaluating Theta...
-		compute_theta();
-
 		// Evaluating the vocab set...
 		compute_vocab();
 
+		// Evaluating Theta...
+		compute_theta();
+
 		Vector<int> found_indices;
 
 		for (int j = 0; j < _input_set->size().x; j++) {
-- 
2.43.0


From f3b922a2d74638675bc62b1fc2847ba4c0efebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 094/209] fix: MLPPBernoulliNB: estimate real-valued parameters
 for the words of the vocabulary

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 6 +++---
 modules/bernoulli_nb/bernoulli_nb.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index 7ef31f8..0cfa221 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -148,11 +148,11 @@ void MLPPBernoulliNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		for (uint32_t j = 0; j < _theta[i].size(); j++) {
+		for (int j = 0; j < _vocab->size(); j++) {
 			if (i == 0) {
-				_theta.write[i][j] /= _prior_0 * _y_hat->size();
+				_theta.write[i][_vocab->element_get(j)] /= _prior_0 * _y_hat->size();
 			} else {
-				_theta.write[i][j] /= _prior_1 * _y_hat->size();
+				_theta.write[i][_vocab->element_get(j)] /= _prior_1 * _y_hat->size();
 			}
 		}
 	}
diff --git a/modules/bernoulli_nb/bernoulli_nb.h b/modules/bernoulli_nb/bernoulli_nb.h
index 810778e..fab859b 100644
--- a/modules/bernoulli_nb/bernoulli_nb.h
+++ b/modules/bernoulli_nb/bernoulli_nb.h
@@ -69,7 +69,7 @@ protected:
 	real_t _prior_1;
 	real_t _prior_0;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From cded39b81364b0259e3dfdc97dda5ae45c9089b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 095/209] fix: MLPPBernoulliNB: compare the training scores as
 logarithms

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index 0cfa221..b5415c7 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -210,9 +210,6 @@ void MLPPBernoulliNB::evaluate() {
 		score_0 += Math::log(_prior_0);
 		score_1 += Math::log(_prior_1);
 
-		score_0 = Math::exp(score_0);
-		score_1 = Math::exp(score_1);
-
 		// Assigning the traning example to a class
 
 		if (score_0 > score_1) {
-- 
2.43.0


From fb301a2efd678bc43e033db22113cfd28cb25c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 096/209] fix: MLPPMultinomialNB: estimate real-valued
 parameters for the words of the vocabulary

---
 modules/multinomial_nb/multinomial_nb.cpp | 9 +++++----
 modules/multinomial_nb/multinomial_nb.h   | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 0f63f0d..73f8410 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -202,15 +202,16 @@ void MLPPMultinomialNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		uint32_t theta_i_size = _theta[i].size();
-
-		for (uint32_t j = 0; j < theta_i_size; j++) {
-			_theta.write[i][j] /= _priors->element_get(i) * _y_hat->size();
+		for (int j = 0; j < vocab_size; j++) {
+			_theta.write[i][_vocab->element_get(j)] /= _priors->element_get(i) * _y_hat->size();
 		}
 	}
 }
 
 void MLPPMultinomialNB::evaluate() {
+	MLPPData data;
+	_vocab = data.vec_to_setnv(_input_set->flatten());
+
 	int output_set_size = _output_set->size();
 	Size2i input_set_size = _input_set->size();
 
diff --git a/modules/multinomial_nb/multinomial_nb.h b/modules/multinomial_nb/multinomial_nb.h
index 7d447ab..9dbd284 100644
--- a/modules/multinomial_nb/multinomial_nb.h
+++ b/modules/multinomial_nb/multinomial_nb.h
@@ -79,7 +79,7 @@ protected:
 	// Model Params
 	Ref<MLPPVector> _priors;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From ddd509dc37b26baa5ff033ab733d861cbfd11c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 097/209] fix: MLPPMultinomialNB: start scores and priors from
 zero

---
 modules/multinomial_nb/multinomial_nb.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 73f8410..5e95ca8 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -99,6 +99,10 @@ real_t MLPPMultinomialNB::model_test(const Ref<MLPPVector> &x) {
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
+	for (uint32_t i = 0; i < score.size(); ++i) {
+		score[i] = 0;
+	}
+
 	compute_theta();
 
 	int vocab_size = _vocab->size();
@@ -220,8 +224,13 @@ void MLPPMultinomialNB::evaluate() {
 		LocalVector<real_t> score;
 		score.resize(_class_num);
 
+		for (uint32_t ii = 0; ii < score.size(); ++ii) {
+			score[ii] = 0;
+		}
+
 		// Easy computation of priors, i.e. Pr(C_k)
 		_priors->resize(_class_num);
+		_priors->fill(0);
 		for (int ii = 0; ii < _output_set->size(); ii++) {
 			int osii = static_cast<int>(_output_set->element_get(ii));
 			_priors->element_set(osii, _priors->element_get(osii) + 1);
-- 
2.43.0


From dd6fa1c86507359b5445ca2ca5887a9ae2d221e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 098/209] fix: MLPPMultinomialNB: score each class by its own
 parameters over the sample's features

---
 modules/multinomial_nb/multinomial_nb.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 5e95ca8..7a911f9 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -36,6 +36,7 @@
 #include "core/containers/local_vector.h"
 #endif
 
+#include "../core/data.h"
 #include "../core/utilities.h"
 
 #include <random>
@@ -241,17 +242,16 @@ void MLPPMultinomialNB::evaluate() {
 		// Evaluating Theta...
 		compute_theta();
 
-		for (int j = 0; j < input_set_size.y; j++) {
+		for (int j = 0; j < input_set_size.x; j++) {
 			for (int k = 0; k < _vocab->size(); k++) {
 				real_t input_set_i_j = _input_set->element_get(i, j);
 				real_t vocab_k = _vocab->element_get(k);
 
 				if (Math::is_equal_approx(input_set_i_j, vocab_k)) {
-					real_t theta_i_k = _theta[i][vocab_k];
-					theta_i_k = Math::log(theta_i_k);
-
 					for (int p = _class_num - 1; p >= 0; p--) {
-						score[p] += theta_i_k;
+						real_t theta_p_k = _theta[p][vocab_k];
+
+						score[p] += Math::log(theta_p_k);
 					}
 				}
 			}
@@ -261,7 +261,6 @@ void MLPPMultinomialNB::evaluate() {
 
 		for (int ii = 0; ii < priors_size; ii++) {
 			score[ii] += Math::log(_priors->element_get(ii));
-			score[ii] = Math::exp(score[ii]);
 		}
 
 		// Assigning the traning example's y_hat to a class
-- 
2.43.0


From de036b24cc4c93b10d191de0ccf811518719e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 099/209] fix: hidden layer keeps its parameters when other
 properties are set

---
 modules/hidden_layer/hidden_layer.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 67e3633..a0e125d 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -47,15 +47,18 @@ MLPPActivation::ActivationFunction MLPPHiddenLayer::get_activation() const {
 }
 void MLPPHiddenLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
 	return _input;
 }
 void MLPPHiddenLayer::set_input(const Ref<MLPPMatrix> &val) {
+	// The weights only depend on the width of the input.
+	if (!_input.is_valid() || !val.is_valid() || _input->size().x != val->size().x) {
+		_initialized = false;
+	}
+
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
@@ -63,7 +66,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
 }
 void MLPPHiddenLayer::set_weights(const Ref<MLPPMatrix> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
@@ -71,7 +73,6 @@ Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
 }
 void MLPPHiddenLayer::set_bias(const Ref<MLPPVector> &val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
@@ -79,7 +80,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
 }
 void MLPPHiddenLayer::set_z(const Ref<MLPPMatrix> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
@@ -87,7 +87,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
 }
 void MLPPHiddenLayer::set_a(const Ref<MLPPMatrix> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
@@ -95,7 +94,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
 }
 void MLPPHiddenLayer::set_z_test(const Ref<MLPPVector> &val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
@@ -103,7 +101,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
 }
 void MLPPHiddenLayer::set_a_test(const Ref<MLPPVector> &val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
@@ -111,7 +108,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
 }
 void MLPPHiddenLayer::set_delta(const Ref<MLPPMatrix> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
@@ -119,7 +115,6 @@ MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
 }
 void MLPPHiddenLayer::set_reg(const MLPPReg::RegularizationType val) {
 	_reg = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_lambda() const {
@@ -127,7 +122,6 @@ real_t MLPPHiddenLayer::get_lambda() const {
 }
 void MLPPHiddenLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_alpha() const {
@@ -135,7 +129,6 @@ real_t MLPPHiddenLayer::get_alpha() const {
 }
 void MLPPHiddenLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPHiddenLayer::get_weight_init() const {
-- 
2.43.0


From bfa6e9028e4dc9f45ef79419fe7474c638aba77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 100/209] fix: output layer keeps its parameters when other
 properties are set

---
 modules/output_layer/output_layer.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 4b5b2e7..7320f91 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -45,7 +45,6 @@ MLPPActivation::ActivationFunction MLPPOutputLayer::get_activation() {
 }
 void MLPPOutputLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
@@ -53,7 +52,6 @@ MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
 }
 void MLPPOutputLayer::set_cost(const MLPPCost::CostTypes val) {
 	_cost = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
@@ -61,7 +59,6 @@ Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
 }
 void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_weights() {
@@ -69,7 +66,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_weights() {
 }
 void MLPPOutputLayer::set_weights(const Ref<MLPPVector> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
@@ -77,7 +73,6 @@ real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
 }
 void MLPPOutputLayer::set_bias(const real_t val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_z() {
@@ -85,7 +80,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_z() {
 }
 void MLPPOutputLayer::set_z(const Ref<MLPPVector> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_a() {
@@ -93,7 +87,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_a() {
 }
 void MLPPOutputLayer::set_a(const Ref<MLPPVector> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_z_test() {
@@ -101,7 +94,6 @@ real_t MLPPOutputLayer::get_z_test() {
 }
 void MLPPOutputLayer::set_z_test(const real_t val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_a_test() {
@@ -109,7 +101,6 @@ real_t MLPPOutputLayer::get_a_test() {
 }
 void MLPPOutputLayer::set_a_test(const real_t val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_delta() {
@@ -117,7 +108,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_delta() {
 }
 void MLPPOutputLayer::set_delta(const Ref<MLPPVector> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPOutputLayer::get_reg() {
@@ -132,7 +122,6 @@ real_t MLPPOutputLayer::get_lambda() {
 }
 void MLPPOutputLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_alpha() {
@@ -140,7 +129,6 @@ real_t MLPPOutputLayer::get_alpha() {
 }
 void MLPPOutputLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPOutputLayer::get_weight_init() {
-- 
2.43.0


From 7cae6e44e363f388c2eeaacebd9fcc575f5275bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 101/209] fix: tensors created in the shape of another start at
 zero

---
 core/lin_alg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 15170f8..e4a187f 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1915,6 +1915,7 @@ void MLPPLinAlg::resizevt(Vector<Ref<MLPPMatrix>> &r_target, const Vector<Ref<ML
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		r_target.write[i] = m;
 	}
@@ -1928,6 +1929,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::resizencvt(const Vector<Ref<MLPPMatrix>> &A)
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		res.write[i] = m;
 	}
-- 
2.43.0


From a4041286786e9e67d4b8e83db79c3670276ac542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 102/209] fix: output layer moments of the ANN optimisers start
 at zero

---
 modules/ann/ann.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 546e6cc..69d9f25 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -273,6 +273,7 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			if (nag) { // "Aposterori" calculation
@@ -339,6 +340,7 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(v_hidden, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2));
@@ -404,6 +406,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
@@ -472,7 +475,9 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 
 			if (m_output->size() == 0 && v_output->size()) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -550,7 +555,9 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			if (m_output->size() == 0 && u_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				u_output->resize(grads.output_w_grad->size());
+				u_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -625,7 +632,9 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -713,8 +722,11 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 				v_output_hat->resize(grads.output_w_grad->size());
+				v_output_hat->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
-- 
2.43.0


From 553bc439fe6c37dd0ca2b14cc99832eb2a70d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 103/209] fix: ANN adam initialises the output layer moments

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 69d9f25..a70f27a 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -473,7 +473,7 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 				alg.resizevt(v_hidden, grads.cumulative_hidden_layer_w_grad);
 			}
 
-			if (m_output->size() == 0 && v_output->size()) {
+			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
 				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
-- 
2.43.0


From ac74d90049b0e421b038379b82f15659943a42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 104/209] fix: ANN adadelta decays the output layer accumulator
 like the hidden ones

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index a70f27a..cf0d904 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -410,7 +410,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
-			v_output->add(grads.output_w_grad->exponentiaten(2));
+			v_output = v_output->scalar_multiplyn(1 - b1)->addn(grads.output_w_grad->exponentiaten(2)->scalar_multiplyn(b1));
 
 			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
 			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
-- 
2.43.0


From 4b9483c0677b90fe5db5e149b87eda9c29886748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 105/209] fix: ANN sgd back-propagates the drawn sample

---
 modules/ann/ann.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index cf0d904..63af9c2 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -142,9 +142,9 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 	input_set_row_tmp.instance();
 	input_set_row_tmp->resize(_input_set->size().x);
 
-	Ref<MLPPVector> y_hat_row_tmp;
-	y_hat_row_tmp.instance();
-	y_hat_row_tmp->resize(1);
+	Ref<MLPPMatrix> input_row_mat_tmp;
+	input_row_mat_tmp.instance();
+	input_row_mat_tmp->resize(Size2i(_input_set->size().x, 1));
 
 	Ref<MLPPVector> output_set_row_tmp;
 	output_set_row_tmp.instance();
@@ -159,8 +159,9 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t output_element_set = _output_set->element_get(output_index);
 		output_set_row_tmp->element_set(0, output_element_set);
 
-		real_t y_hat = model_test(input_set_row_tmp);
-		y_hat_row_tmp->element_set(0, y_hat);
+		// The gradients need the whole forward pass of the sample.
+		input_row_mat_tmp->row_set_mlpp_vector(0, input_set_row_tmp);
+		Ref<MLPPVector> y_hat_row_tmp = model_set_test(input_row_mat_tmp);
 
 		cost_prev = cost(y_hat_row_tmp, output_set_row_tmp);
 
@@ -170,7 +171,7 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		grads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
-		y_hat = model_test(input_set_row_tmp);
+		y_hat_row_tmp = model_set_test(input_row_mat_tmp);
 
 		if (ui) {
 			print_ui(epoch, cost_prev, y_hat_row_tmp, output_set_row_tmp);
-- 
2.43.0


From ef68b8c7ef9032dce372054428b5fb26c4f91ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 106/209] fix: cost of ANN includes the regularisation of its
 last hidden layer

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 63af9c2..10834b7 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -853,7 +853,7 @@ real_t MLPPANN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From 02d8ddcd64676fe228c50d413df6975e235f79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 107/209] fix: cost of MANN includes the regularisation of its
 last hidden layer

---
 modules/mann/mann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 7d8e0dc..60147e7 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -278,7 +278,7 @@ real_t MLPPMANN::cost(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From cfd9a983eb7ba298091fe37f6ee45049a3b9753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 108/209] fix: auto-encoder mini-batches back-propagate into
 the right parameters

---
 modules/auto_encoder/auto_encoder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index fb457b0..7f6e4ff 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -232,17 +232,17 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 
-			Ref<MLPPMatrix> D1_1 = _weights2->transposen()->multn(error);
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
 			// weight an bias updation for layer 1
-			_weights2->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().x));
-			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().x));
+			_weights1->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().y));
+			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			y_hat = evaluatem(current_batch);
 
-- 
2.43.0


From aba8a40ada2ac53491fe51826c8ca02b4b7c8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 109/209] fix: softmax net mini-batches step the output bias by
 the summed error

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 0ef1231..b16ce97 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -334,7 +334,7 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
-- 
2.43.0


From c7d37b4db297ee5f6e2b91be38f30b0e632c6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 110/209] fix: softmax net sgd sizes its prediction row by the
 classes

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index b16ce97..529c399 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -232,7 +232,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 	Ref<MLPPMatrix> y_hat_mat_tmp;
 	y_hat_mat_tmp.instance();
-	y_hat_mat_tmp->resize(Size2i(_bias1->size(), 1));
+	y_hat_mat_tmp->resize(Size2i(_output_set->size().x, 1));
 
 	Ref<MLPPMatrix> output_row_mat_tmp;
 	output_row_mat_tmp.instance();
-- 
2.43.0


From e5f91b1e747afbc1719e88157efaac614b1e298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 111/209] fix: MLP back-propagates through the weights the pass
 used

---
 modules/mlp/mlp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 3a08a9f..046a15f 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -129,6 +129,7 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 		Ref<MLPPVector> D2_1 = _a2->transposen()->mult_vec(error);
 
 		// weights and bias updation for layer 2
+		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / static_cast<real_t>(_n)));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
 
@@ -136,7 +137,6 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 
 		// Calculating the weight/bias for layer 1
 
-		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -210,6 +210,7 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		// Weight updation for layer 2
 		Ref<MLPPVector> D2_1 = la2->scalar_multiplyn(error);
 
+		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
 
@@ -217,7 +218,6 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		_bias2 -= learning_rate * error;
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(lz2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -283,6 +283,7 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 			real_t lr_d_cos = learning_rate / static_cast<real_t>(current_output->size());
 
 			// weights and bias updation for layser 2
+			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 			_weights2->sub(D2_1->scalar_multiplyn(lr_d_cos));
 			_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
 
@@ -293,7 +294,6 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 			_bias2 -= learning_rate * b_gradient / current_output->size();
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(lz2));
 			Ref<MLPPMatrix> D1_3 = current_input->transposen()->multn(D1_2);
 
-- 
2.43.0


From 635678713c1980d6d20578673b07d943d4a841e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 112/209] fix: softmax net back-propagates through the weights
 the pass used

---
 modules/softmax_net/softmax_net.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 529c399..35f2635 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -171,13 +171,13 @@ void MLPPSoftmaxNet::train_gradient_descent(real_t learning_rate, int max_epoch,
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
 		// weights and bias updation for layer 2
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -258,6 +258,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
 
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
@@ -265,7 +266,6 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -330,6 +330,7 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
 			// weights and bias updation for layser 2
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
@@ -337,7 +338,6 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_input_mini_batch->transposen()->multn(D1_2);
 
-- 
2.43.0


From 4999e9fa00ddf39d49b0a52061813de65e5cd0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 113/209] fix: auto-encoder back-propagates through the weights
 the pass used

---
 modules/auto_encoder/auto_encoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 7f6e4ff..4328b92 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -92,13 +92,13 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
 		// weights and bias updation for layer 2
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
 		// Calculating the bias gradients for layer 2
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -164,13 +164,13 @@ void MLPPAutoEncoder::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		// Weight updation for layer 2
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 
 		// Bias updation for layer 2
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -229,6 +229,7 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
 			// weights and bias updation for layer 2
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			// Bias Updation for layer 2
@@ -236,7 +237,6 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 
 			//Calculating the weight/bias for layer 1
 
-			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
-- 
2.43.0


From 94d1f0e6aeb975174b34a8d4c9c62a82edd12e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 114/209] fix: MANN back-propagates through the transposed
 weights of the next layer

---
 modules/mann/mann.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 60147e7..a5384d2 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -135,6 +135,9 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 			_output_layer->set_delta(r1->hadamard_productn(r2));
 		}
 
+		// The errors are propagated through the weights the forward pass used.
+		Ref<MLPPMatrix> next_weights = _output_layer->get_weights();
+
 		Ref<MLPPMatrix> output_w_grad = _output_layer->get_input()->transposen()->multn(_output_layer->get_delta());
 
 		_output_layer->set_weights(_output_layer->get_weights()->subn(output_w_grad->scalar_multiplyn(learning_rate / _n)));
@@ -146,7 +149,9 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		if (!_network.empty()) {
 			Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-			layer->set_delta(_output_layer->get_delta()->multn(_output_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+			layer->set_delta(_output_layer->get_delta()->multn(next_weights->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+
+			next_weights = layer->get_weights();
 
 			Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
@@ -159,7 +164,9 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 				layer = _network[i];
 				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+				layer->set_delta(next_layer->get_delta()->multn(next_weights->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+
+				next_weights = layer->get_weights();
 
 				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-- 
2.43.0


From 70131bf929be14f28ee01fa8d3109af4d2bc4f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 115/209] fix: Define ERR_FAIL_UNSIGNED_INDEX, used by
 LocalVector and TightLocalVector

---
 platform/sfw.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0daf73d..161e619 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -1519,6 +1519,13 @@ _FORCE_INLINE_ void _RLOG_MACRO_TEMPLATE_FUNC(STR str, A p0, B p1, C p2, D p3, E
 	} else                                                                           \
 		((void)0)
 
+#define ERR_FAIL_UNSIGNED_INDEX(index, size)                                         \
+	if ((index) >= (size)) {                                                         \
+		RLogger::log_index_error(__FUNCTION__, __FILE__, __LINE__, index, size, ""); \
+		return;                                                                      \
+	} else                                                                           \
+		((void)0)
+
 #define ERR_FAIL_INDEX_MSG(index, size, msg)                                          \
 	if ((index < 0) || (index >= size)) {                                             \
 		RLogger::log_index_error(__FUNCTION__, __FILE__, __LINE__, index, size, msg); \
-- 
2.43.0


From 4ef465f1bb3e85833e334daf23d8975f42463791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 116/209] fix: Assigning an RBMap to itself keeps its content

---
 platform/sfw.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 161e619..4a73fc3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -4134,6 +4134,9 @@ public:
 	}
 
 	void operator=(const RBMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
 		_copy_from(p_map);
 	}
 
-- 
2.43.0


From 2858be190bd024eb8da3c675e5e15403b9cd7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 117/209] fix: Assigning an RBSet to itself keeps its content

---
 platform/sfw.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 4a73fc3..892d6f4 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -4741,6 +4741,9 @@ public:
 	}
 
 	void operator=(const RBSet &p_set) {
+		if (this == &p_set) {
+			return;
+		}
 		_copy_from(p_set);
 	}
 
-- 
2.43.0


From b2d884123ce102dc4650408c67fda64e765f0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 118/209] fix: Assigning an OrderedHashMap replaces what the
 target held

---
 platform/sfw.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 892d6f4..16aa7bc 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -16074,6 +16074,10 @@ private:
 
 public:
 	void operator=(const OrderedHashMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+		clear();
 		_copy_from(p_map);
 	}
 
-- 
2.43.0


From 176ee61cc351d437bc8e787e6bf346ea0bafa033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 119/209] fix: Assigning a List to itself keeps its content

---
 platform/sfw.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 16aa7bc..0011c8b 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5624,6 +5624,9 @@ public:
 	 * copy the list
 	 */
 	void operator=(const List &p_list) {
+		if (this == &p_list) {
+			return;
+		}
 		clear();
 		const Element *it = p_list.front();
 		while (it) {
-- 
2.43.0


From f9f6ce996a132eaa4d5d777bce2474a82b1a48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 120/209] fix: List::move_before links the old last element
 when moving to the end, and keeps an element moved before itself

---
 platform/sfw.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0011c8b..c716b8e 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5731,6 +5731,9 @@ public:
 	}
 
 	void move_before(Element *value, Element *where) {
+		if (value == where) {
+			return;
+		}
 		if (value->prev_ptr) {
 			value->prev_ptr->next_ptr = value->next_ptr;
 		} else {
@@ -5745,6 +5748,11 @@ public:
 		value->next_ptr = where;
 		if (!where) {
 			value->prev_ptr = _data->last;
+			if (_data->last) {
+				_data->last->next_ptr = value;
+			} else {
+				_data->first = value;
+			}
 			_data->last = value;
 			return;
 		};
-- 
2.43.0


From 969f3a15680c91039e06b1bfcf5829751e8493d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 121/209] fix: RingBuffer::read checks that there is data, not
 that there is space

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index c716b8e..51fc7b1 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5921,7 +5921,7 @@ class RingBuffer {
 
 public:
 	T read() {
-		ERR_FAIL_COND_V(space_left() < 1, T());
+		ERR_FAIL_COND_V(data_left() < 1, T());
 		return data.ptr()[inc(read_pos, 1)];
 	};
 
-- 
2.43.0


From ae9dbc427b32ce5d71a13147b0416464785a190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 122/209] fix: RingBuffer::copy and find stay within the stored
 data

---
 platform/sfw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 51fc7b1..05df2d0 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5951,7 +5951,7 @@ public:
 	int copy(T *p_buf, int p_offset, int p_size) const {
 		int left = data_left();
 		if ((p_offset + p_size) > left) {
-			p_size -= left - p_offset;
+			p_size = left - p_offset;
 			if (p_size <= 0) {
 				return 0;
 			}
@@ -5977,9 +5977,9 @@ public:
 	int find(const T &t, int p_offset, int p_max_size) const {
 		int left = data_left();
 		if ((p_offset + p_max_size) > left) {
-			p_max_size -= left - p_offset;
+			p_max_size = left - p_offset;
 			if (p_max_size <= 0) {
-				return 0;
+				return -1;
 			}
 		}
 		p_max_size = MIN(left, p_max_size);
-- 
2.43.0


From 03a725ba7e078f224282c70d9e362d0282d14600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 123/209] fix: RingBuffer::resize to a smaller power keeps the
 stored data

---
 platform/sfw.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 05df2d0..1f2b679 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -6069,6 +6069,15 @@ public:
 		int old_size = size();
 		int new_size = 1 << p_power;
 		int mask = new_size - 1;
+		if (new_size < old_size) {
+			Vector<T> kept;
+			kept.resize(new_size);
+			write_pos = read(kept.ptrw(), mask);
+			read_pos = 0;
+			data = kept;
+			size_mask = mask;
+			return;
+		}
 		data.resize(1 << p_power);
 		if (old_size < new_size && read_pos > write_pos) {
 			for (int i = 0; i < write_pos; i++) {
-- 
2.43.0


From 21150711b732cda3948f92ab1ff4d44019a73989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 124/209] fix: SortArray::introselect selects the right element
 when its depth runs out

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 1f2b679..954e43a 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -3402,8 +3402,8 @@ public:
 	inline void introselect(int p_first, int p_nth, int p_last, T *p_array, int p_max_depth) const {
 		while (p_last - p_first > 3) {
 			if (p_max_depth == 0) {
-				partial_select(p_first, p_nth + 1, p_last, p_array);
-				SWAP(p_first, p_nth);
+				partial_select(p_first, p_last, p_nth + 1, p_array);
+				SWAP(p_array[p_first], p_array[p_nth]);
 				return;
 			}
 
-- 
2.43.0


From c80f9f443108475f056506a3a346a9a8d5628f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 125/209] fix: an Object leaves ObjectDB, and the Variants
 holding it, when it is destroyed

---
 platform/sfw.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 608d517..cf15a9a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18414,7 +18414,9 @@ void Object::cancel_free() {
 	_predelete_ok = 0;
 }
 
-Object::Object() {
+Object::Object() :
+		_class_ptr(nullptr),
+		_rc(nullptr) {
 	_is_queued_for_deletion = false;
 	_predelete_ok = 0;
 	_instance_id = 0;
@@ -18422,6 +18424,12 @@ Object::Object() {
 }
 
 Object::~Object() {
+	ObjectDB::remove_instance(this);
+
+	ObjectRC *rc = _rc.load(std::memory_order_acquire);
+	if (rc && rc->invalidate()) {
+		memdelete(rc);
+	}
 }
 
 ObjectRC *Object::_use_rc() {
-- 
2.43.0


From d993ba65eff888ebe847d478633f4baf3f633a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 126/209] fix: ObjectDB::get_instance reads the instance table
 under its lock

---
 platform/sfw.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index cf15a9a..a2a1def 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18494,13 +18494,11 @@ void ObjectDB::remove_instance(Object *p_object) {
 }
 Object *ObjectDB::get_instance(ObjectID p_instance_id) {
 	rw_lock.read_lock();
-	Object **obj = instances.getptr(p_instance_id);
+	Object **entry = instances.getptr(p_instance_id);
+	Object *obj = entry ? *entry : nullptr;
 	rw_lock.read_unlock();
 
-	if (!obj) {
-		return nullptr;
-	}
-	return *obj;
+	return obj;
 }
 
 void ObjectDB::debug_objects(DebugFunc p_func) {
-- 
2.43.0


From d193d11554f6c762aa540a898d933288562e7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 127/209] fix: Ref assignment survives the old object owning
 the assigned Ref

---
 platform/sfw.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 954e43a..45173da 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19260,12 +19260,17 @@ class Ref {
 			return;
 		}
 
-		unref();
+		// The old object may own p_from, or this Ref, so it is released last.
+		T *old_reference = reference;
 
 		reference = p_from.reference;
 		if (reference) {
 			reference->reference();
 		}
+
+		if (old_reference && old_reference->unreference()) {
+			memdelete(old_reference);
+		}
 	}
 
 	void ref_pointer(T *p_ref) {
@@ -19382,10 +19387,12 @@ public:
 		// do a lot of referencing on references and stuff
 		// mutexes will avoid more crashes?
 
-		if (reference && reference->unreference()) {
-			memdelete(reference);
-		}
+		T *old_reference = reference;
 		reference = nullptr;
+
+		if (old_reference && old_reference->unreference()) {
+			memdelete(old_reference);
+		}
 	}
 
 	void instance() {
-- 
2.43.0


From 941f5770f69d6f57fa6285f886a48543d2e1552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 128/209] fix: Signal emission is not disturbed by callbacks
 that disconnect, connect or emit

---
 platform/sfw.cpp | 95 ++++++++++++++++++++++--------------------------
 platform/sfw.h   |  2 +
 2 files changed, 46 insertions(+), 51 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a2a1def..5b7f819 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19777,82 +19777,75 @@ bool Signal::is_connected_static(void (*func)(Signal *)) {
 }
 
 void Signal::emit(Object *p_emitter) {
-	emitter = p_emitter;
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	_emit(p_emitter, Vector<Variant>());
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1) {
-	emitter = p_emitter;
-
-	params.push_back(p1);
+	Vector<Variant> p;
+	p.push_back(p1);
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
-
-	params.clear();
+	_emit(p_emitter, p);
 }
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
-	emitter = p_emitter;
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
 
-	params.push_back(p1);
-	params.push_back(p2);
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
-
-	params.clear();
+	_emit(p_emitter, p);
 }
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
-	emitter = p_emitter;
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
-
-	params.clear();
+	_emit(p_emitter, p);
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4) {
-	emitter = p_emitter;
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
+	p.push_back(p4);
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
+	_emit(p_emitter, p);
+}
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
+	Vector<Variant> p;
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
+	p.push_back(p4);
+	p.push_back(p5);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
 
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
-	emitter = p_emitter;
+void Signal::_emit(Object *p_emitter, const Vector<Variant> &p_params) {
+	// Callbacks may connect, disconnect, and emit again: every connection that exists now
+	// and still exists when its turn comes is called, with the values of this emission.
+	Vector<SignalEntry *> to_call = entries;
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
-	params.push_back(p5);
+	Object *previous_emitter = emitter;
+	Vector<Variant> previous_params = params;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
+	emitter = p_emitter;
+	params = p_params;
+
+	for (int i = 0; i < to_call.size(); ++i) {
+		if (entries.find(to_call[i]) != -1) {
+			to_call[i]->call(this);
+		}
 	}
 
-	params.clear();
+	emitter = previous_emitter;
+	params = previous_params;
 }
 
 Signal::Signal() {
+	emitter = nullptr;
 }
 Signal::~Signal() {
 }
diff --git a/platform/sfw.h b/platform/sfw.h
index 45173da..576cf70 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18847,6 +18847,8 @@ protected:
 	};
 
 protected:
+	void _emit(Object *p_emitter, const Vector<Variant> &p_params);
+
 	Vector<SignalEntry *> entries;
 };
 
-- 
2.43.0


From 05c3305c8cc97b9c18d8b64a6a332244a6049eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 129/209] fix: PoolVector copies held by other threads no
 longer stop a resize, and a refused resize leaves the content alone

---
 platform/sfw.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 576cf70..35ef965 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9010,6 +9010,7 @@ public:
 		int s = size();
 		ERR_FAIL_INDEX(p_index, s);
 		Write w = write();
+		ERR_FAIL_COND_MSG(alloc->lock.get() > 1, "Can't resize PoolVector if locked.");
 		for (int i = p_index; i < s - 1; i++) {
 			w[i] = w[i + 1];
 		};
@@ -9032,7 +9033,7 @@ public:
 			return;
 		}
 		int bs = size();
-		resize(bs + ds);
+		ERR_FAIL_COND(resize(bs + ds) != OK);
 		Write w = write();
 		Read r = p_arr.read();
 		for (int i = 0; i < ds; i++) {
@@ -9066,7 +9067,8 @@ public:
 	Error insert(int p_pos, const T &p_val) {
 		int s = size();
 		ERR_FAIL_INDEX_V(p_pos, s + 1, ERR_INVALID_PARAMETER);
-		resize(s + 1);
+		Error err = resize(s + 1);
+		ERR_FAIL_COND_V(err != OK, err);
 		{
 			Write w = write();
 			for (int i = s; i > p_pos; i--) {
@@ -9157,7 +9159,7 @@ void PoolVector<T>::fill(const T &p_val) {
 
 template <class T>
 void PoolVector<T>::push_back(const T &p_val) {
-	resize(size() + 1);
+	ERR_FAIL_COND(resize(size() + 1) != OK);
 	set(size() - 1, p_val);
 }
 
@@ -9266,8 +9268,6 @@ Error PoolVector<T>::resize(int p_size) {
 		alloc->pool_id = POOL_ALLOCATOR_INVALID_ID;
 		MemoryPool::alloc_mutex.unlock();
 
-	} else {
-		ERR_FAIL_COND_V_MSG(alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
 	}
 
 	size_t new_size = sizeof(T) * p_size;
@@ -9277,12 +9277,16 @@ Error PoolVector<T>::resize(int p_size) {
 	}
 
 	if (p_size == 0) {
+		// Storage that others share stays with them, accesses to it don't matter here.
+		ERR_FAIL_COND_V_MSG(alloc->refcount.get() == 1 && alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked.");
 		_unreference();
 		return OK;
 	}
 
 	_copy_on_write(); // make it unique
 
+	ERR_FAIL_COND_V_MSG(alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
+
 #ifdef DEBUG_ENABLED
 	MemoryPool::alloc_mutex.lock();
 	MemoryPool::total_memory -= alloc->size;
-- 
2.43.0


From 7793db399eb12ec4e03aa1e81d1830f6523a6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 130/209] fix: Thread reads its own id in the new thread, not
 from the Thread object that start() is still filling in

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5b7f819..3f5fb77 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1642,7 +1642,7 @@ void Thread::_set_platform_funcs(
 }
 
 void Thread::callback(Thread *p_self, const Settings &p_settings, Callback p_callback, void *p_userdata) {
-	caller_id = _thread_id_hash(p_self->thread.get_id());
+	caller_id = _thread_id_hash(std::this_thread::get_id());
 	caller_id_cached = true;
 
 	if (set_priority_func) {
-- 
2.43.0


From 48b37111a15df959df0b326d56895234c5f8d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 131/209] fix: a char string is Latin-1 in comparisons,
 searches and hashes as well, so equal texts are equal names

---
 platform/sfw.cpp | 14 +++++++-------
 platform/sfw.h   |  9 +++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3f5fb77..b71c892 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3426,7 +3426,7 @@ bool String::operator==(const char *p_str) const {
 
 	// Compare char by char
 	for (int i = 0; i < l; i++) {
-		if ((CharType)p_str[i] != dst[i]) {
+		if (to_char_type(p_str[i]) != dst[i]) {
 			return false;
 		}
 	}
@@ -3837,7 +3837,7 @@ int String::find(const char *p_str, int p_from) const {
 	}
 
 	if (src_len == 1) {
-		const CharType needle = p_str[0];
+		const CharType needle = to_char_type(p_str[0]);
 
 		for (int i = p_from; i < len; i++) {
 			if (src[i] == needle) {
@@ -3856,7 +3856,7 @@ int String::find(const char *p_str, int p_from) const {
 					return -1;
 				};
 
-				if (src[read_pos] != (CharType)p_str[j]) {
+				if (src[read_pos] != to_char_type(p_str[j])) {
 					found = false;
 					break;
 				}
@@ -4102,7 +4102,7 @@ bool String::is_word_at(const int index, const char *p_str) const {
 			return false;
 		}
 
-		if (operator[](iind) != (CharType)p_str[i]) {
+		if (operator[](iind) != to_char_type(p_str[i])) {
 			return false;
 		}
 
@@ -4178,7 +4178,7 @@ bool String::begins_with(const char *p_string) const {
 	int i = 0;
 
 	while (*p_string && i < l) {
-		if ((CharType)(*p_string) != str[i]) {
+		if (to_char_type(*p_string) != str[i]) {
 			return false;
 		}
 		i++;
@@ -6189,7 +6189,7 @@ uint32_t String::hash(const char *p_cstr) {
 	uint32_t hashv = 5381;
 	uint32_t c;
 
-	while ((c = *p_cstr++)) {
+	while ((c = (uint8_t)*p_cstr++)) {
 		hashv = ((hashv << 5) + hashv) + c; /* hash * 33 + c */
 	}
 
@@ -6199,7 +6199,7 @@ uint32_t String::hash(const char *p_cstr) {
 uint32_t String::hash(const char *p_cstr, int p_len) {
 	uint32_t hashv = 5381;
 	for (int i = 0; i < p_len; i++) {
-		hashv = ((hashv << 5) + hashv) + p_cstr[i]; /* hash * 33 + c */
+		hashv = ((hashv << 5) + hashv) + (uint8_t)p_cstr[i]; /* hash * 33 + c */
 	}
 
 	return hashv;
diff --git a/platform/sfw.h b/platform/sfw.h
index 35ef965..502adb1 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -8423,11 +8423,16 @@ struct NaturalNoCaseComparator {
 	}
 };
 
+// A char is a Latin-1 character, as in String::copy_from().
+_FORCE_INLINE_ CharType to_char_type(const char p_char) { return (uint8_t)p_char; }
+template <typename C>
+_FORCE_INLINE_ CharType to_char_type(const C p_char) { return p_char; }
+
 template <typename L, typename R>
 _FORCE_INLINE_ bool is_str_less(const L *l_ptr, const R *r_ptr) {
 	while (true) {
-		const CharType l = *l_ptr;
-		const CharType r = *r_ptr;
+		const CharType l = to_char_type(*l_ptr);
+		const CharType r = to_char_type(*r_ptr);
 
 		if (l == 0 && r == 0) {
 			return false;
-- 
2.43.0


From fdd67d7b2737ea7063c968aca080e44c6ab2dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 132/209] fix: String::substr_index keeps the last character
 when the end is past the string

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b71c892..437f309 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3772,7 +3772,7 @@ String String::substr_index(const int start_index, const int end_index) const {
 	}
 
 	if (end_index > s) {
-		return substr(start_index, (s - 1) - start_index);
+		return substr(start_index, s - start_index);
 	}
 
 	return substr(start_index, end_index - start_index);
-- 
2.43.0


From d5e4f4937b3f5cff7f1cc8665c12fccaa46f733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 133/209] fix: String::is_word_at finds a word at the very end
 of the string

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 437f309..d617442 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4116,7 +4116,7 @@ bool String::is_word_at(const int index, const String &p_str) const {
 
 	ERR_FAIL_INDEX_V(index, size, false);
 
-	if (index + p_str.length() >= size) {
+	if (index + p_str.length() > size) {
 		return false;
 	}
 
-- 
2.43.0


From efb1d404a00e9d5f89dcf239439a423cec78ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 134/209] fix: String::find with an empty char key finds
 nothing, as with an empty String (replace looped forever)

---
 platform/sfw.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d617442..1d010bf 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3836,7 +3836,9 @@ int String::find(const char *p_str, int p_from) const {
 		src_len++;
 	}
 
-	if (src_len == 1) {
+	if (src_len == 0) {
+		return -1; // won't find anything!
+	} else if (src_len == 1) {
 		const CharType needle = to_char_type(p_str[0]);
 
 		for (int i = p_from; i < len; i++) {
-- 
2.43.0


From 98274a9d87b64417a39543ff544da35e5182a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 135/209] fix: String::c_unescape reads the text once, so that
 it undoes c_escape also after an escaped backslash

---
 platform/sfw.cpp | 63 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1d010bf..4f6a44d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6964,18 +6964,57 @@ String String::c_escape_multiline() const {
 }
 
 String String::c_unescape() const {
-	String escaped = *this;
-	escaped = escaped.replace("\\a", "\a");
-	escaped = escaped.replace("\\b", "\b");
-	escaped = escaped.replace("\\f", "\f");
-	escaped = escaped.replace("\\n", "\n");
-	escaped = escaped.replace("\\r", "\r");
-	escaped = escaped.replace("\\t", "\t");
-	escaped = escaped.replace("\\v", "\v");
-	escaped = escaped.replace("\\'", "\'");
-	escaped = escaped.replace("\\\"", "\"");
-	escaped = escaped.replace("\\?", "\?");
-	escaped = escaped.replace("\\\\", "\\");
+	String escaped;
+
+	const int len = length();
+	const CharType *src = get_data();
+
+	for (int i = 0; i < len; i++) {
+		CharType c = src[i];
+
+		if (c == '\\' && i + 1 < len) {
+			bool known = true;
+
+			switch (src[i + 1]) {
+				case 'a':
+					c = '\a';
+					break;
+				case 'b':
+					c = '\b';
+					break;
+				case 'f':
+					c = '\f';
+					break;
+				case 'n':
+					c = '\n';
+					break;
+				case 'r':
+					c = '\r';
+					break;
+				case 't':
+					c = '\t';
+					break;
+				case 'v':
+					c = '\v';
+					break;
+				case '\'':
+				case '"':
+				case '?':
+				case '\\':
+					c = src[i + 1];
+					break;
+				default:
+					known = false;
+					break;
+			}
+
+			if (known) {
+				i++;
+			}
+		}
+
+		escaped += c;
+	}
 
 	return escaped;
 }
-- 
2.43.0


From b511de08978db4812381b5a5a34dc21db8b2072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 136/209] fix: String::is_valid_bool recognises "false"

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4f6a44d..2597b2e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7462,7 +7462,7 @@ bool String::is_valid_bool() const {
 		String l = to_lower();
 		const CharType *p = l.ptr();
 
-		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[3] == 'e') {
+		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[4] == 'e') {
 			return true;
 		} else {
 			return false;
-- 
2.43.0


From b67cc2f6e80bfed11fcbcbac5dda8ac7627491e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 137/209] fix: String::http_unescape decodes bytes, so that it
 undoes http_escape outside ASCII

---
 platform/sfw.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2597b2e..992f34c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6874,25 +6874,24 @@ String String::http_escape() const {
 }
 
 String String::http_unescape() const {
-	String res;
-	for (int i = 0; i < length(); ++i) {
-		if (ord_at(i) == '%' && i + 2 < length()) {
-			CharType ord1 = ord_at(i + 1);
-			if ((ord1 >= '0' && ord1 <= '9') || (ord1 >= 'A' && ord1 <= 'Z')) {
-				CharType ord2 = ord_at(i + 2);
-				if ((ord2 >= '0' && ord2 <= '9') || (ord2 >= 'A' && ord2 <= 'Z')) {
-					char bytes[3] = { (char)ord1, (char)ord2, 0 };
-					res += (char)strtol(bytes, nullptr, 16);
-					i += 2;
-				}
+	const CharString src = utf8();
+	CharString res;
+	for (int i = 0; i < src.length(); ++i) {
+		if (src[i] == '%' && i + 2 < src.length()) {
+			char ord1 = src[i + 1];
+			char ord2 = src[i + 2];
+			if ((is_digit(ord1) || is_ascii_upper_case(ord1)) && (is_digit(ord2) || is_ascii_upper_case(ord2))) {
+				char bytes[3] = { ord1, ord2, 0 };
+				res += (char)strtol(bytes, nullptr, 16);
+				i += 2;
 			} else {
-				res += ord_at(i);
+				res += src[i];
 			}
 		} else {
-			res += ord_at(i);
+			res += src[i];
 		}
 	}
-	return String::utf8(res.ascii());
+	return String::utf8(res);
 }
 
 String String::uri_encode() const {
-- 
2.43.0


From 651a9b0de7d92458e940390461fd2994da0ebff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 138/209] fix: String::percent_decode measures the encoded
 bytes, not the characters

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 992f34c..3aa881a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7185,7 +7185,7 @@ String String::percent_decode() const {
 	CharString cs = utf8();
 	for (int i = 0; i < cs.length(); i++) {
 		uint8_t c = cs[i];
-		if (c == '%' && i < length() - 2) {
+		if (c == '%' && i < cs.length() - 2) {
 			uint8_t a = LOWERCASE(cs[i + 1]);
 			uint8_t b = LOWERCASE(cs[i + 2]);
 
-- 
2.43.0


From bce1c928dc2aed9529c75ffd242d6749ae9bcdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 139/209] fix: String::append_path ignores a path of only
 slashes, and does not take other characters for a slash

---
 platform/sfw.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3aa881a..a3da6da 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6564,13 +6564,13 @@ String String::append_path(const char *path) const {
 	int sindex = 0;
 	char ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
-		if (ch == '\0') {
-			return ret;
-		}
-
 		ch = path[++sindex];
 	}
 
+	if (ch == '\0') {
+		return ret;
+	}
+
 	// /////folder
 	//      ^ (sindex)
 
@@ -6601,14 +6601,16 @@ String String::append_path(const String &path) const {
 	}
 
 	int sindex = 0;
-	int ts = path.size() - 1;
-	char ch = path[sindex];
+	int ts = path.length();
+	CharType ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
+		++sindex;
+
 		if (sindex == ts) {
 			return *this;
 		}
 
-		ch = path[++sindex];
+		ch = path[sindex];
 	}
 
 	String ret = *this;
-- 
2.43.0


From fc7129b7ab5aabe825e273fe229db1572ba1a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 140/209] fix: String::path_clean_end_slash accepts an empty
 path and cleans one-character ones

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a3da6da..b0237b6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6638,11 +6638,15 @@ String String::path_clean_end_slash() const {
 
 	String ret = *this;
 
+	if (ret.empty()) {
+		return ret;
+	}
+
 	int strip_to = ret.length() - 1;
 
 	CharType c = ret[strip_to];
 
-	while (strip_to > 1 && (c == '/' || c == '\\')) {
+	while (strip_to > 0 && (c == '/' || c == '\\')) {
 		--strip_to;
 		c = ret[strip_to];
 	}
-- 
2.43.0


From c7c019f48608b6c7745361d877db11463e13ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 141/209] fix: String::num has room for every double

---
 platform/sfw.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b0237b6..6a0355f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4595,15 +4595,16 @@ String String::num(double p_num, int p_decimals) {
 		fmt[5] = 'f';
 		fmt[6] = 0;
 	}
-	char buf[256];
+	// sign, 309 digits, period, 16 decimals
+	char buf[336];
 
 #if defined(__GNUC__) || defined(_MSC_VER)
-	snprintf(buf, 256, fmt, p_num);
+	snprintf(buf, 336, fmt, p_num);
 #else
 	sprintf(buf, fmt, p_num);
 #endif
 
-	buf[255] = 0;
+	buf[335] = 0;
 	//destroy trailing zeroes
 	{
 		bool period = false;
-- 
2.43.0


From 63993692129d038e013d0ae087068f1a01f594c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 142/209] fix: String::num_real prints numbers that do not fit
 an int

---
 platform/sfw.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6a0355f..8714d43 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4770,6 +4770,13 @@ String String::num_real(double p_num) {
 
 	String s;
 	String sd;
+
+	if (ABS(p_num) >= (double)INT32_MAX) {
+		// The integer part does not fit an int
+		s = num(p_num);
+		return s.find(".") == -1 ? s + ".0" : s;
+	}
+
 	/* integer part */
 
 	bool neg = p_num < 0;
-- 
2.43.0


From 58ccd54ba0a10e5a51a04968acb0264fe869644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 143/209] fix: String::to_int(const CharType *) does not
 overflow at the last digit

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 8714d43..1049ade 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -8182,7 +8182,7 @@ int64_t String::to_int(const CharType *p_str, int p_len, bool p_clamp) {
 			}
 			case READING_INT: {
 				if (is_digit(c)) {
-					if (integer > INT64_MAX / 10) {
+					if (integer > INT64_MAX / 10 || (integer == INT64_MAX / 10 && ((sign == 1 && c > '7') || (sign == -1 && c > '8')))) {
 						String number("");
 						str = p_str;
 						while (*str && str != limit) {
-- 
2.43.0


From b22fe47be68e3b7aa5d619510e1bd1b5832fdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 144/209] fix: String::is_valid_hex_number needs a digit after
 a sign and prefix

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1049ade..20b9e34 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7390,7 +7390,7 @@ bool String::is_valid_hex_number(bool p_with_prefix) const {
 	}
 
 	if (p_with_prefix) {
-		if (len < 3) {
+		if (len < from + 3) {
 			return false;
 		}
 		if (operator[](from) != '0' || operator[](from + 1) != 'x') {
-- 
2.43.0


From 0a4f0de8e7645c3c63cb3a0a9b190ba946ce5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 145/209] fix: String::begins_with: an empty char prefix begins
 an empty string

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 20b9e34..06187f0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4172,10 +4172,14 @@ bool String::begins_with(const String &p_string) const {
 
 bool String::begins_with(const char *p_string) const {
 	int l = length();
-	if (l == 0 || !p_string) {
+	if (!p_string) {
 		return false;
 	}
 
+	if (l == 0) {
+		return *p_string == 0;
+	}
+
 	const CharType *str = &operator[](0);
 	int i = 0;
 
-- 
2.43.0


From c1110e3a35a1eb4b320235a59964f926b31ca171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 146/209] fix: String::substr does not overflow when asked for
 INT_MAX characters

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 06187f0..5abe8ed 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3747,7 +3747,7 @@ String String::substr(int p_from, int p_chars) const {
 		return "";
 	}
 
-	if ((p_from + p_chars) > length()) {
+	if (p_chars > length() - p_from) {
 		p_chars = length() - p_from;
 	}
 
-- 
2.43.0


From f65e5a60043ea21f631fe5b2da45b42d244179ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 147/209] fix: String::split_floats and split_floats_mk accept
 an empty string

---
 platform/sfw.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5abe8ed..e8792ab 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -5288,9 +5288,13 @@ Vector<float> String::split_floats(const String &p_splitter, bool p_allow_empty)
 			end = len;
 		}
 		if (p_allow_empty || (end > from)) {
-			buffer[end] = 0;
+			if (end < len) {
+				buffer[end] = 0;
+			}
 			ret.push_back(String::to_double(&buffer.get_data()[from]));
-			buffer[end] = _cowdata.get(end);
+			if (end < len) {
+				buffer[end] = _cowdata.get(end);
+			}
 		}
 
 		if (end == len) {
@@ -5320,9 +5324,13 @@ Vector<float> String::split_floats_mk(const Vector<String> &p_splitters, bool p_
 		}
 
 		if (p_allow_empty || (end > from)) {
-			buffer[end] = 0;
+			if (end < len) {
+				buffer[end] = 0;
+			}
 			ret.push_back(String::to_double(&buffer.get_data()[from]));
-			buffer[end] = _cowdata.get(end);
+			if (end < len) {
+				buffer[end] = _cowdata.get(end);
+			}
 		}
 
 		if (end == len) {
-- 
2.43.0


From d43fce876401fc29111de399780046d1dbd6f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 148/209] fix: PoolVector::join of no elements is an empty
 string

---
 platform/sfw.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 502adb1..954e92b 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9092,7 +9092,9 @@ public:
 		for (int i = 0; i < s; i++) {
 			rs += r[i] + delimiter;
 		}
-		rs.erase(rs.length() - delimiter.length(), delimiter.length());
+		if (s > 0) {
+			rs.erase(rs.length() - delimiter.length(), delimiter.length());
+		}
 		return rs;
 	}
 
-- 
2.43.0


From 19d176aff98c2847a8da6dcdd9bdcd65d26dd092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:49 +0000
Subject: [PATCH 149/209] fix: String::hex_to_int, hex_to_int64 and
 bin_to_int64: the smallest integer followed by more digits does not fit

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e8792ab..f5ee839 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7705,7 +7705,7 @@ int String::hex_to_int(bool p_with_prefix) const {
 			ERR_FAIL_V_MSG(0, "Invalid hexadecimal notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
 		// Check for overflow/underflow, with special case to ensure INT32_MIN does not result in error
-		bool overflow = ((hex > INT32_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT32_MAX >> 4) + 1))) || (sign == -1 && hex == (INT32_MAX >> 4) + 1 && c > '0');
+		bool overflow = hex < 0 || ((hex > INT32_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT32_MAX >> 4) + 1))) || (sign == -1 && hex == (INT32_MAX >> 4) + 1 && c > '0');
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT32_MAX : INT32_MIN, "Cannot represent " + *this + " as a 32-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		hex *= 16;
 		hex += n;
@@ -7744,7 +7744,7 @@ int64_t String::hex_to_int64(bool p_with_prefix) const {
 		} else {
 			ERR_FAIL_V_MSG(0, "Invalid hexadecimal notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
-		bool overflow = ((hex > INT64_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT64_MAX >> 4) + 1))) || (sign == -1 && hex == (INT64_MAX >> 4) + 1 && c > '0');
+		bool overflow = hex < 0 || ((hex > INT64_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT64_MAX >> 4) + 1))) || (sign == -1 && hex == (INT64_MAX >> 4) + 1 && c > '0');
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + *this + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		hex *= 16;
 		hex += n;
@@ -7782,7 +7782,7 @@ int64_t String::bin_to_int64(bool p_with_prefix) const {
 			ERR_FAIL_V_MSG(0, "Invalid binary notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
 		// Check for overflow/underflow, with special case to ensure INT64_MIN does not result in error
-		bool overflow = ((binary > INT64_MAX / 2) && (sign == 1 || (sign == -1 && binary != (INT64_MAX >> 1) + 1))) || (sign == -1 && binary == (INT64_MAX >> 1) + 1 && c > '0');
+		bool overflow = binary < 0 || ((binary > INT64_MAX / 2) && (sign == 1 || (sign == -1 && binary != (INT64_MAX >> 1) + 1))) || (sign == -1 && binary == (INT64_MAX >> 1) + 1 && c > '0');
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + *this + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		binary *= 2;
 		binary += n;
-- 
2.43.0


From cec5f4df2a90c8ea15f1d00abdcd264f36b25306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 150/209] fix: PoolAllocator::resize of the last block does not
 read beyond the blocks, and an exact fit fits

---
 platform/sfw.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f5ee839..c1a107b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2434,7 +2434,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
 	};
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
@@ -2445,7 +2445,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact(entry_indices_pos + 1);
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
@@ -2461,7 +2461,11 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact_up(entry_indices_pos + 1);
 
-	if ((entry_array[entry_indices[entry_indices_pos + 1]].pos - e->pos) > alloc_size) {
+	if (entry_indices_pos + 1 < entry_count) {
+		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
+	}
+
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
-- 
2.43.0


From 0bfca3847b60e3aa5a65ade6a2e56bf00aa2cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 151/209] fix: PoolAllocator::resize to no bytes is refused
 (the block counted as used and as free)

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c1a107b..d6e1125 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2382,6 +2382,8 @@ int PoolAllocator::get_size(ID p_mem) const {
 }
 
 Error PoolAllocator::resize(ID p_mem, int p_new_size) {
+	ERR_FAIL_COND_V(p_new_size < 1, ERR_INVALID_PARAMETER);
+
 	mt_lock();
 	Entry *e = get_entry(p_mem);
 
-- 
2.43.0


From cb90c90be79acc5bf45bcccf22d0b35368639fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 152/209] fix: PoolAllocator frees its aligned pool the way it
 was allocated

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d6e1125..1c70c87 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2653,7 +2653,7 @@ PoolAllocator::PoolAllocator(void *p_mem, int p_size, int p_align, bool p_needs_
 
 PoolAllocator::PoolAllocator(int p_align, int p_size, bool p_needs_locking, int p_max_entries) {
 	ERR_FAIL_COND(p_align < 1);
-	mem_ptr = Memory::alloc_static(p_size + p_align, true);
+	mem_ptr = memalloc(p_size + p_align);
 	uint8_t *mem8 = (uint8_t *)mem_ptr;
 	uint64_t ofs = (uint64_t)mem8;
 	if (ofs % p_align) {
-- 
2.43.0


From 089fe8b1af986cd0b31f10719018409f96528612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 153/209] fix: PoolAllocator::resize records the least free
 memory also when the block grows in place

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1c70c87..bba21a9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2440,6 +2440,9 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
+		if (free_mem < free_mem_peak) {
+			free_mem_peak = free_mem;
+		}
 		mt_unlock();
 		return OK;
 	}
-- 
2.43.0


From d022d2e49730a9f8342ffd8d34ad7262359f1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 154/209] fix: PagedAllocator::free counts the cell before it
 lets other threads in

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 954e92b..deb032e 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -6157,10 +6157,10 @@ public:
 		}
 		p_mem->~T();
 		available_pool[allocs_available >> page_shift][allocs_available & page_mask] = p_mem;
+		allocs_available++;
 		if (thread_safe) {
 			spin_lock.unlock();
 		}
-		allocs_available++;
 	}
 
 	void reset(bool p_allow_unfreed = false) {
-- 
2.43.0


From b2bf2407989d30cbecb3e7134415b32d8020387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 155/209] fix: PoolAllocator keeps blocks aligned when the pool
 size is not a multiple of the alignment

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index bba21a9..c3abf8c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2210,7 +2210,7 @@ void PoolAllocator::compact(int p_up_to) {
 }
 
 void PoolAllocator::compact_up(int p_from) {
-	uint32_t next_entry_end_pos = pool_size; // - static_area_size;
+	uint32_t next_entry_end_pos = pool_size - pool_size % align; // - static_area_size;
 
 	for (int i = entry_count - 1; i >= p_from; i--) {
 		Entry &entry = entry_array[entry_indices[i]];
-- 
2.43.0


From e129f787a4bb87bf52d5427811c877a4350534b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 156/209] fix: Variant: compare Arrays with < and > element by
 element, as Array does

---
 platform/sfw.cpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c3abf8c..e9655a1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24311,16 +24311,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() < l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (!((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(true);
-					}
-				}
-
-				_RETURN(false);
+				_RETURN(*arr_a < *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_LESS, INT, <, _int);
@@ -24434,16 +24425,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() > l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(false);
-					}
-				}
-
-				_RETURN(true);
+				_RETURN(*arr_a > *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_GREATER, INT, >, _int);
-- 
2.43.0


From cf9231e5fa1fc89a6acf2f545f6aece8baa3e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 157/209] fix: Variant: compare pool arrays with < and >
 lexicographically, and not past the end of the shorter one

---
 platform/sfw.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e9655a1..39c0d77 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24037,10 +24037,33 @@ bool Variant::booleanize() const {
 	}
 
 #define DEFAULT_OP_ARRAY_LT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, <, !=, false, a_len < array_b.size(), true)
+	DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, array_a, array_b)
 
 #define DEFAULT_OP_ARRAY_GT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, >, !=, false, a_len < array_b.size(), true)
+	DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, array_b, array_a)
+
+#define DEFAULT_OP_ARRAY_CMP(m_prefix, m_op_name, m_name, m_type, m_lesser, m_greater)                 \
+	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                           \
+		if (p_a.type != p_b.type)                                                                      \
+			_RETURN_FAIL                                                                               \
+                                                                                                       \
+		const PoolVector<m_type> &array_a = *reinterpret_cast<const PoolVector<m_type> *>(p_a._data._mem); \
+		const PoolVector<m_type> &array_b = *reinterpret_cast<const PoolVector<m_type> *>(p_b._data._mem); \
+                                                                                                       \
+		int l_len = m_lesser.size();                                                                   \
+		int g_len = m_greater.size();                                                                  \
+		PoolVector<m_type>::Read rl = m_lesser.read();                                                 \
+		PoolVector<m_type>::Read rg = m_greater.read();                                                \
+                                                                                                       \
+		for (int i = 0; i < l_len && i < g_len; i++) {                                                 \
+			if (rl[i] < rg[i])                                                                         \
+				_RETURN(true);                                                                         \
+			if (rg[i] < rl[i])                                                                         \
+				_RETURN(false);                                                                        \
+		}                                                                                              \
+                                                                                                       \
+		_RETURN(l_len < g_len);                                                                        \
+	}
 
 #define DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f)      \
 	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                     \
-- 
2.43.0


From 805b3e3ce6e24d880accf7be78ad41b179221b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 158/209] fix: Variant::is_zero: a StringName is zero when it
 is empty

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 39c0d77..2b1d1e3 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -20841,7 +20841,7 @@ bool Variant::is_zero() const {
 			return _UNSAFE_OBJ_PROXY_PTR(*this) == nullptr;
 		} break;
 		case STRING_NAME: {
-			return *reinterpret_cast<const StringName *>(_data._mem) != StringName();
+			return *reinterpret_cast<const StringName *>(_data._mem) == StringName();
 		} break;
 		case DICTIONARY: {
 			return reinterpret_cast<const Dictionary *>(_data._mem)->empty();
-- 
2.43.0


From 9e7266dd39232c2cb42fe70d24f25c6ed6fe883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 159/209] fix: Variant::sub: subtract the second Rect2i from
 the first

---
 platform/sfw.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2b1d1e3..78be247 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28589,10 +28589,10 @@ void Variant::sub(const Variant &a, const Variant &b, Variant &r_dst) {
 
 			int32_t vax = ra->position.x;
 			int32_t vay = ra->position.y;
-			int32_t vbx = ra->size.x;
-			int32_t vby = ra->size.y;
-			int32_t vcx = rb->position.x;
-			int32_t vcy = rb->position.y;
+			int32_t vbx = rb->position.x;
+			int32_t vby = rb->position.y;
+			int32_t vcx = ra->size.x;
+			int32_t vcy = ra->size.y;
 			int32_t vdx = rb->size.x;
 			int32_t vdy = rb->size.y;
 
-- 
2.43.0


From 401f21144c8f903977555cdc268bed04c97c4f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 160/209] fix: Variant: compare a String with a StringName by >
 and >= without taking one for the other

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 78be247..9a8a3e2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -23899,7 +23899,7 @@ bool Variant::booleanize() const {
 		if (p_b.type == STRING)                                                                                                    \
 			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const String *>(p_a._data._mem));     \
 		if (p_b.type == STRING_NAME)                                                                                               \
-			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const StringName *>(p_a._data._mem)); \
+			_RETURN(m_type(*reinterpret_cast<const StringName *>(p_b._data._mem)) m_op *reinterpret_cast<const m_type *>(p_a._data._mem)); \
                                                                                                                                    \
 		_RETURN_FAIL                                                                                                               \
 	};
-- 
2.43.0


From 67b4db5726bf8be7f48c2f35895b66ea479e3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 161/209] fix: FileAccess::seek_end() clears the last error
 like seek()

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9a8a3e2..d782f5b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14684,6 +14684,8 @@ void FileAccess::seek(uint64_t p_position) {
 void FileAccess::seek_end(int64_t p_position) {
 	ERR_FAIL_COND(!f);
 
+	last_error = OK;
+
 	if (_fseeki64(f, p_position, SEEK_END)) {
 		check_errors();
 	}
@@ -14973,6 +14975,7 @@ void FileAccess::seek(uint64_t p_position) {
 void FileAccess::seek_end(int64_t p_position) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 
+	last_error = OK;
 	if (fseeko(f, p_position, SEEK_END)) {
 		check_errors();
 	}
-- 
2.43.0


From c85b0c8f9bb64083043001bfbba684c2a4e2cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 162/209] fix: opening a file again finishes the file being
 saved before

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d782f5b..a4aeb00 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14851,7 +14851,7 @@ void FileAccess::check_errors() const {
 
 Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 	if (f) {
-		fclose(f);
+		close();
 	}
 	f = nullptr;
 
-- 
2.43.0


From efaf6f40d7677f405d0d163ca0d11a4ab9c97291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 163/209] fix: a file that cannot be opened is not left marked
 as being saved

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a4aeb00..312b740 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14906,6 +14906,7 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 				last_error = ERR_FILE_CANT_OPEN;
 			} break;
 		}
+		save_path = "";
 		return last_error;
 	}
 
-- 
2.43.0


From 1137c0408b4712c991fda63ba2a51fb85e02d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 164/209] fix: opening a file resets the endian swap as
 documented

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 312b740..079915d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14925,6 +14925,7 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 
 	last_error = OK;
 	flags = p_mode_flags;
+	endian_swap = false;
 	return OK;
 }
 
-- 
2.43.0


From ffa9c84efd38e217ce7a49168f366bf1bf041342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 165/209] fix: FileAccess reads reals with the width it stores
 them

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 079915d..c20e4fd 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -15125,7 +15125,7 @@ FileAccess::FileAccess() :
 		flags(0),
 		last_error(OK) {
 	endian_swap = false;
-	real_is_double = false;
+	real_is_double = sizeof(real_t) == sizeof(double);
 }
 
 FileAccess::~FileAccess() {
-- 
2.43.0


From 9645a322ba77c91fdeafb69c5db3cf1ce380d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 166/209] fix: get_pascal_string() of a cut off file does not
 return uninitialised memory

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c20e4fd..a68d4d6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -15535,8 +15535,8 @@ String FileAccess::get_pascal_string() {
 	uint32_t sl = get_32();
 	CharString cs;
 	cs.resize(sl + 1);
-	get_buffer((uint8_t *)cs.ptr(), sl);
-	cs[sl] = 0;
+	uint64_t read = get_buffer((uint8_t *)cs.ptr(), sl);
+	cs[(int)(read < sl ? read : sl)] = 0;
 
 	String ret;
 	ret.parse_utf8(cs.ptr());
-- 
2.43.0


From 498a2b1ca9ed6857dd3f4c01ec1d9a7e7660d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 167/209] fix: DirAccess recognises .. as a special entry

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a68d4d6..d8144fe 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16828,7 +16828,7 @@ String DirAccess::get_filesystem_abspath_for(String p_path) {
 }
 
 bool DirAccess::is_special(const String &p_path) {
-	if (p_path.size() > 2) {
+	if (p_path.length() > 2) {
 		return false;
 	}
 
-- 
2.43.0


From fda68b326aec8fd01083f948351ddc7f75ba82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 168/209] fix: DirAccess::is_link() of a path that does not
 exist is false

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d8144fe..db16868 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16439,7 +16439,7 @@ bool DirAccess::is_link(String p_file) {
 
 	struct stat flags;
 	if ((lstat(p_file.utf8().get_data(), &flags) != 0)) {
-		return FAILED;
+		return false;
 	}
 
 	return S_ISLNK(flags.st_mode);
-- 
2.43.0


From 109b55a54dada368e29609cb1af46cdedcbc2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 169/209] fix: DirAccess::remove() removes a link itself,
 dangling or not

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index db16868..2bd4709 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16421,7 +16421,7 @@ Error DirAccess::remove(String p_path) {
 	}
 
 	struct stat flags;
-	if ((stat(p_path.utf8().get_data(), &flags) != 0)) {
+	if ((lstat(p_path.utf8().get_data(), &flags) != 0)) {
 		return FAILED;
 	}
 
-- 
2.43.0


From 1d87837fc40f9df9f1f9558e8ffbf60326164fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 170/209] fix: erasing contents recursively does not follow
 links out of the directory

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2bd4709..c1d3b4e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16534,7 +16534,7 @@ static Error _erase_recursive(DirAccess *da) {
 	String n = da->get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
-			if (da->current_is_dir()) {
+			if (da->current_is_dir() && !da->is_link(n)) {
 				dirs.push_back(n);
 			} else {
 				files.push_back(n);
-- 
2.43.0


From f6330a681c0913eb19a60d5e795d7e6d7e7adb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 171/209] fix: setting a pixel takes the nearest level, so that
 a read colour can be written back

---
 platform/image.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d14dfaa..0bf290f 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2379,38 +2379,38 @@ void Image::set_pixel(int p_x, int p_y, const Color &p_color) {
 
 	switch (format) {
 		case FORMAT_L8: {
-			ptr[ofs] = uint8_t(CLAMP(p_color.get_v() * 255.0, 0, 255));
+			ptr[ofs] = uint8_t(CLAMP(p_color.get_v() * 255.0 + 0.5, 0, 255));
 		} break;
 		case FORMAT_LA8: {
-			ptr[ofs * 2 + 0] = uint8_t(CLAMP(p_color.get_v() * 255.0, 0, 255));
-			ptr[ofs * 2 + 1] = uint8_t(CLAMP(p_color.a * 255.0, 0, 255));
+			ptr[ofs * 2 + 0] = uint8_t(CLAMP(p_color.get_v() * 255.0 + 0.5, 0, 255));
+			ptr[ofs * 2 + 1] = uint8_t(CLAMP(p_color.a * 255.0 + 0.5, 0, 255));
 		} break;
 		case FORMAT_R8: {
-			ptr[ofs] = uint8_t(CLAMP(p_color.r * 255.0, 0, 255));
+			ptr[ofs] = uint8_t(CLAMP(p_color.r * 255.0 + 0.5, 0, 255));
 		} break;
 		case FORMAT_RG8: {
-			ptr[ofs * 2 + 0] = uint8_t(CLAMP(p_color.r * 255.0, 0, 255));
-			ptr[ofs * 2 + 1] = uint8_t(CLAMP(p_color.g * 255.0, 0, 255));
+			ptr[ofs * 2 + 0] = uint8_t(CLAMP(p_color.r * 255.0 + 0.5, 0, 255));
+			ptr[ofs * 2 + 1] = uint8_t(CLAMP(p_color.g * 255.0 + 0.5, 0, 255));
 		} break;
 		case FORMAT_RGB8: {
-			ptr[ofs * 3 + 0] = uint8_t(CLAMP(p_color.r * 255.0, 0, 255));
-			ptr[ofs * 3 + 1] = uint8_t(CLAMP(p_color.g * 255.0, 0, 255));
-			ptr[ofs * 3 + 2] = uint8_t(CLAMP(p_color.b * 255.0, 0, 255));
+			ptr[ofs * 3 + 0] = uint8_t(CLAMP(p_color.r * 255.0 + 0.5, 0, 255));
+			ptr[ofs * 3 + 1] = uint8_t(CLAMP(p_color.g * 255.0 + 0.5, 0, 255));
+			ptr[ofs * 3 + 2] = uint8_t(CLAMP(p_color.b * 255.0 + 0.5, 0, 255));
 		} break;
 		case FORMAT_RGBA8: {
-			ptr[ofs * 4 + 0] = uint8_t(CLAMP(p_color.r * 255.0, 0, 255));
-			ptr[ofs * 4 + 1] = uint8_t(CLAMP(p_color.g * 255.0, 0, 255));
-			ptr[ofs * 4 + 2] = uint8_t(CLAMP(p_color.b * 255.0, 0, 255));
-			ptr[ofs * 4 + 3] = uint8_t(CLAMP(p_color.a * 255.0, 0, 255));
+			ptr[ofs * 4 + 0] = uint8_t(CLAMP(p_color.r * 255.0 + 0.5, 0, 255));
+			ptr[ofs * 4 + 1] = uint8_t(CLAMP(p_color.g * 255.0 + 0.5, 0, 255));
+			ptr[ofs * 4 + 2] = uint8_t(CLAMP(p_color.b * 255.0 + 0.5, 0, 255));
+			ptr[ofs * 4 + 3] = uint8_t(CLAMP(p_color.a * 255.0 + 0.5, 0, 255));
 
 		} break;
 		case FORMAT_RGBA4444: {
 			uint16_t rgba = 0;
 
-			rgba = uint16_t(CLAMP(p_color.r * 15.0, 0, 15)) << 12;
-			rgba |= uint16_t(CLAMP(p_color.g * 15.0, 0, 15)) << 8;
-			rgba |= uint16_t(CLAMP(p_color.b * 15.0, 0, 15)) << 4;
-			rgba |= uint16_t(CLAMP(p_color.a * 15.0, 0, 15));
+			rgba = uint16_t(CLAMP(p_color.r * 15.0 + 0.5, 0, 15)) << 12;
+			rgba |= uint16_t(CLAMP(p_color.g * 15.0 + 0.5, 0, 15)) << 8;
+			rgba |= uint16_t(CLAMP(p_color.b * 15.0 + 0.5, 0, 15)) << 4;
+			rgba |= uint16_t(CLAMP(p_color.a * 15.0 + 0.5, 0, 15));
 
 			((uint16_t *)ptr)[ofs] = rgba;
 
@@ -2418,9 +2418,9 @@ void Image::set_pixel(int p_x, int p_y, const Color &p_color) {
 		case FORMAT_RGBA5551: {
 			uint16_t rgba = 0;
 
-			rgba = uint16_t(CLAMP(p_color.r * 31.0, 0, 31)) << 11;
-			rgba |= uint16_t(CLAMP(p_color.g * 31.0, 0, 31)) << 6;
-			rgba |= uint16_t(CLAMP(p_color.b * 31.0, 0, 31)) << 1;
+			rgba = uint16_t(CLAMP(p_color.r * 31.0 + 0.5, 0, 31)) << 11;
+			rgba |= uint16_t(CLAMP(p_color.g * 31.0 + 0.5, 0, 31)) << 6;
+			rgba |= uint16_t(CLAMP(p_color.b * 31.0 + 0.5, 0, 31)) << 1;
 			rgba |= uint16_t(p_color.a > 0.5 ? 1 : 0);
 
 			((uint16_t *)ptr)[ofs] = rgba;
-- 
2.43.0


From 4d9993670012321209df827d24aa275fd79a11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 172/209] fix: reading RGBA5551 pixels scales by 31 levels

---
 platform/image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 0bf290f..63f1d8d 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2327,9 +2327,9 @@ Color Image::get_pixel(int p_x, int p_y) const {
 		}
 		case FORMAT_RGBA5551: {
 			uint16_t u = ((uint16_t *)ptr)[ofs];
-			float r = ((u >> 11) & 0x1F) / 15.0;
-			float g = ((u >> 6) & 0x1F) / 15.0;
-			float b = ((u >> 1) & 0x1F) / 15.0;
+			float r = ((u >> 11) & 0x1F) / 31.0;
+			float g = ((u >> 6) & 0x1F) / 31.0;
+			float b = ((u >> 1) & 0x1F) / 31.0;
 			float a = (u & 0x1) / 1.0;
 			return Color(r, g, b, a);
 		}
-- 
2.43.0


From 576bf8a84bf0a49c413c08121d081b00e7b1caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 173/209] fix: converting to grayscale does not read channels
 the source does not have

---
 platform/image.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 63f1d8d..2b5223e 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -177,8 +177,6 @@ int Image::get_mipmap_count() const {
 // using template generates perfectly optimized code due to constant expression reduction and unused variable removal present in all compilers
 template <uint32_t read_bytes, bool read_alpha, uint32_t write_bytes, bool write_alpha, bool read_gray, bool write_gray>
 static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p_dst) {
-	uint32_t max_bytes = MAX(read_bytes, write_bytes);
-
 	for (int y = 0; y < p_height; y++) {
 		for (int x = 0; x < p_width; x++) {
 			const uint8_t *rofs = &p_src[((y * p_width) + x) * (read_bytes + (read_alpha ? 1 : 0))];
@@ -191,7 +189,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 				rgba[1] = rofs[0];
 				rgba[2] = rofs[0];
 			} else {
-				for (uint32_t i = 0; i < max_bytes; i++) {
+				for (uint32_t i = 0; i < 3; i++) {
 					rgba[i] = (i < read_bytes) ? rofs[i] : 0;
 				}
 			}
@@ -202,7 +200,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 
 			if (write_gray) {
 				// TODO: not correct grayscale, should use fixed point version of actual weights
-				wofs[0] = uint8_t((uint16_t(rofs[0]) + uint16_t(rofs[1]) + uint16_t(rofs[2])) / 3);
+				wofs[0] = uint8_t((uint16_t(rgba[0]) + uint16_t(rgba[1]) + uint16_t(rgba[2])) / 3);
 			} else {
 				for (uint32_t i = 0; i < write_bytes; i++) {
 					wofs[i] = rgba[i];
-- 
2.43.0


From 81a2f8a09254713eff9c0ce6a499f0b3d9b21ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 174/209] fix: Image::get_rect makes an image of the size of
 the area

---
 platform/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 2b5223e..1cc2853 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1965,7 +1965,7 @@ Rect2 Image::get_used_rect() const {
 }
 
 Ref<Image> Image::get_rect(const Rect2 &p_area) const {
-	Ref<Image> img = new Image(p_area.position.x, p_area.position.y, mipmaps, format);
+	Ref<Image> img = memnew(Image(p_area.size.x, p_area.size.y, mipmaps, format));
 	img->blit_rect(Ref<Image>((Image *)this), p_area, Vector2(0, 0));
 	return img;
 }
-- 
2.43.0


From ff575edd0c831f9115e247e9ff1f2ad142aa3388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 175/209] fix: blitting and blending clip the source with the
 destination

---
 platform/image.cpp | 88 +++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 1cc2853..3781068 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1970,6 +1970,30 @@ Ref<Image> Image::get_rect(const Rect2 &p_area) const {
 	return img;
 }
 
+static void _clip_src_and_dest_rects(const Size2i &p_src_size, const Size2i &p_dest_size, const Rect2i &p_src_rect, const Point2i &p_dest, Rect2i &r_src_rect, Rect2i &r_dest_rect) {
+	r_dest_rect.position = p_dest;
+	r_src_rect = p_src_rect;
+
+	// What lies left of or above the source moves the destination, what lies left of or above the destination moves the source.
+	for (int i = 0; i < 2; ++i) {
+		if (r_src_rect.position[i] < 0) {
+			r_dest_rect.position[i] -= r_src_rect.position[i];
+			r_src_rect.size[i] += r_src_rect.position[i];
+			r_src_rect.position[i] = 0;
+		}
+
+		if (r_dest_rect.position[i] < 0) {
+			r_src_rect.position[i] -= r_dest_rect.position[i];
+			r_src_rect.size[i] += r_dest_rect.position[i];
+			r_dest_rect.position[i] = 0;
+		}
+
+		r_src_rect.size[i] = MAX(0, MIN(r_src_rect.size[i], MIN(p_src_size[i] - r_src_rect.position[i], p_dest_size[i] - r_dest_rect.position[i])));
+	}
+
+	r_dest_rect.size = r_src_rect.size;
+}
+
 void Image::blit_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const Vector2 &p_dest) {
 	ERR_FAIL_COND_MSG(p_src.is_null(), "It's not a reference to a valid Image object.");
 	int dsize = data.size();
@@ -1979,22 +2003,14 @@ void Image::blit_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const Ve
 	ERR_FAIL_COND(format != p_src->format);
 	ERR_FAIL_COND_MSG(!_can_modify(format), "Cannot blit_rect in compressed or custom image formats.");
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
-
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_src_and_dest_rects(Size2i(p_src->width, p_src->height), Size2i(width, height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
-	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
+	if (clipped_src_rect.has_no_area() || dest_rect.has_no_area()) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	write_lock = true;
 	uint8_t *dst_data_ptr = data.ptrw();
 
@@ -2035,22 +2051,14 @@ void Image::blit_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, co
 	ERR_FAIL_COND_MSG(p_src->height != p_mask->height, "Source image height is different from mask height.");
 	ERR_FAIL_COND(format != p_src->format);
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_src_and_dest_rects(Size2i(p_src->width, p_src->height), Size2i(width, height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
-
-	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
+	if (clipped_src_rect.has_no_area() || dest_rect.has_no_area()) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	write_lock = true;
 
 	uint8_t *dst_data_ptr = data.ptrw();
@@ -2094,22 +2102,14 @@ void Image::blend_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const V
 	ERR_FAIL_COND(srcdsize == 0);
 	ERR_FAIL_COND(format != p_src->format);
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
-
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_src_and_dest_rects(Size2i(p_src->width, p_src->height), Size2i(width, height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
-	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
+	if (clipped_src_rect.has_no_area() || dest_rect.has_no_area()) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	lock();
 	Ref<Image> img = p_src;
 	img->lock();
@@ -2148,22 +2148,14 @@ void Image::blend_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, c
 	ERR_FAIL_COND_MSG(p_src->height != p_mask->height, "Source image height is different from mask height.");
 	ERR_FAIL_COND(format != p_src->format);
 
-	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
-
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
+	Rect2i clipped_src_rect;
+	Rect2i dest_rect;
+	_clip_src_and_dest_rects(Size2i(p_src->width, p_src->height), Size2i(width, height), p_src_rect, p_dest, clipped_src_rect, dest_rect);
 
-	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
+	if (clipped_src_rect.has_no_area() || dest_rect.has_no_area()) {
 		return;
 	}
 
-	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
-
 	lock();
 	Ref<Image> img = p_src;
 	Ref<Image> msk = p_mask;
-- 
2.43.0


From 5d5c34b6398333d5fdf6d53a9d6b8b126291a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 176/209] fix: Image(xpm) starts unlocked

---
 platform/image.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 3781068..905b682 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1897,6 +1897,7 @@ Image::Image(const char **p_xpm) {
 	height = 0;
 	mipmaps = false;
 	format = FORMAT_L8;
+	write_lock = false;
 
 	create(p_xpm);
 }
-- 
2.43.0


From d663ebe0be57823e4c1fc805bd062aaa9f26e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 177/209] fix: premultiplying leaves opaque pixels as they are

---
 platform/image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 905b682..c400734 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2643,9 +2643,9 @@ void Image::premultiply_alpha() {
 		for (int j = 0; j < width; j++) {
 			uint8_t *ptr = &data_ptr[(i * width + j) * 4];
 
-			ptr[0] = (uint16_t(ptr[0]) * uint16_t(ptr[3])) >> 8;
-			ptr[1] = (uint16_t(ptr[1]) * uint16_t(ptr[3])) >> 8;
-			ptr[2] = (uint16_t(ptr[2]) * uint16_t(ptr[3])) >> 8;
+			ptr[0] = (uint16_t(ptr[0]) * uint16_t(ptr[3]) + 255) >> 8;
+			ptr[1] = (uint16_t(ptr[1]) * uint16_t(ptr[3]) + 255) >> 8;
+			ptr[2] = (uint16_t(ptr[2]) * uint16_t(ptr[3]) + 255) >> 8;
 		}
 	}
 
-- 
2.43.0


From 44425961fd41fb42c6262eb939f5a19f6956c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 178/209] fix: bumpmap_to_normalmap makes the mipmaps again

---
 platform/image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index c400734..4f5bcfe 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2586,6 +2586,10 @@ void Image::bumpmap_to_normalmap(float bump_scale) {
 	}
 	format = FORMAT_RGBA8;
 	data = result_image;
+
+	if (mipmaps) {
+		generate_mipmaps();
+	}
 }
 
 void Image::srgb_to_linear() {
-- 
2.43.0


From 648c3d72899354fd334e4bbc7e8a4c9c1f4b9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 179/209] fix: save_png closes its file and frees its buffer

---
 platform/image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 4f5bcfe..ee37f39 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1666,16 +1666,22 @@ Error Image::save_png(const String &file_name) {
 	write_lock = false;
 
 	if (!ret_arr || out_length == 0) {
+		STBIW_FREE(ret_arr);
 		return FAILED;
 	}
 
 	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
 
 	if (!f) {
+		STBIW_FREE(ret_arr);
 		return FAILED;
 	}
 
 	f->store_buffer(ret_arr, out_length);
+	f->close();
+	memdelete(f);
+
+	STBIW_FREE(ret_arr);
 
 	return OK;
 }
-- 
2.43.0


From 18cd42a9aeff6dc01216503271e5348378eb8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 180/209] fix: resizing packed formats keeps their pixels
 instead of clearing them

---
 platform/image.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index ee37f39..9e7e917 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -744,6 +744,8 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 		return;
 	}
 
+	ERR_FAIL_COND_MSG((format == FORMAT_RGBA4444 || format == FORMAT_RGBA5551) && p_interpolation != INTERPOLATE_NEAREST, "Packed formats can only be resized with the nearest filter.");
+
 	Image dst(p_width, p_height, false, format);
 
 	// Setup mipmap-aware scaling
@@ -810,6 +812,9 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 						_scale_nearest<4, float>(r_ptr, w_ptr, width, height, p_width, p_height);
 						break;
 				}
+			} else {
+				// FORMAT_RGBA4444 and FORMAT_RGBA5551
+				_scale_nearest<1, uint16_t>(r_ptr, w_ptr, width, height, p_width, p_height);
 			}
 
 		} break;
-- 
2.43.0


From 3dbe5aa001cfb24b812747f185eca6090eca4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 181/209] fix: shrink_x2 leaves 1x1 images with mipmaps and
 packed formats without them alone

---
 platform/image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 9e7e917..13b7d23 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1190,6 +1190,7 @@ void Image::shrink_x2() {
 		Vector<uint8_t> new_img;
 
 		int ofs = get_mipmap_offset(1);
+		ERR_FAIL_COND(ofs < 0);
 
 		int new_size = data.size() - ofs;
 		new_img.resize(new_size);
@@ -1209,6 +1210,7 @@ void Image::shrink_x2() {
 		Vector<uint8_t> new_img;
 
 		ERR_FAIL_COND(!_can_modify(format));
+		ERR_FAIL_COND_MSG(format == FORMAT_RGBA4444 || format == FORMAT_RGBA5551, "Cannot average pixels of packed formats.");
 		int ps = get_format_pixel_size(format);
 		new_img.resize((width / 2) * (height / 2) * ps);
 		ERR_FAIL_COND(new_img.size() == 0);
-- 
2.43.0


From 64f8f814ccb1f4c44147d0ad3f0e74910081df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 182/209] fix: is_invisible knows which formats have
 transparency

---
 platform/image.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 13b7d23..01a2c53 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1831,9 +1831,19 @@ bool Image::is_invisible() const {
 				DETECT_NON_ALPHA(data_ptr[(i << 2) + 3])
 			}
 
+		} break;
+		case FORMAT_RGBA4444:
+		case FORMAT_RGBA5551:
+		case FORMAT_RGBAF: {
+			for (int i = 0; i < width * height && !detected; i++) {
+				detected = get_pixel(i % width, i / width).a > 0;
+			}
+
 		} break;
 
 		default: {
+			// No transparency
+			detected = true;
 		}
 	}
 
-- 
2.43.0


From bfc73f0095bfcde264ee55463ec566e10fe6fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 183/209] fix: detect_alpha knows all formats with transparency

---
 platform/image.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 01a2c53..ad1519a 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1877,6 +1877,14 @@ Image::AlphaMode Image::detect_alpha() const {
 				DETECT_ALPHA(data_ptr[(i << 2) + 3])
 			}
 
+		} break;
+		case FORMAT_RGBA4444:
+		case FORMAT_RGBA5551:
+		case FORMAT_RGBAF: {
+			for (int i = 0; i < width * height; i++) {
+				DETECT_ALPHA(uint8_t(CLAMP(get_pixel(i % width, i / width).a * 255.0, 0, 255)))
+			}
+
 		} break;
 
 		default: {
-- 
2.43.0


From eb9a8a388ada06a2c0bdea013ee30079ecaa7ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 184/209] fix: values become the nearest level of an image
 (matrix)

---
 core/mlpp_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 46a991d..6848fc9 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -3097,7 +3097,7 @@ void MLPPMatrix::get_into_image(Ref<Image> out) const {
 	uint8_t *wptr = w.ptr();
 
 	for (int i = 0; i < ds; ++i) {
-		wptr[i] = static_cast<uint8_t>(_data[i] * 255.0);
+		wptr[i] = static_cast<uint8_t>(CLAMP(_data[i] * 255.0 + 0.5, 0, 255));
 	}
 
 	out->create(_size.x, _size.y, false, Image::FORMAT_L8, arr);
-- 
2.43.0


From 03b26417ba34b74fca144766eb7d4b10ffb2b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 185/209] fix: values become the nearest level of an image
 (tensor3)

---
 core/mlpp_tensor3.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index e202f98..15487db 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -778,7 +778,7 @@ Ref<Image> MLPPTensor3::z_slice_get_image(const int p_index_z) const {
   uint8_t *wptr = w.ptr();
 
   for (int i = 0; i < fms; ++i) {
-    wptr[i] = static_cast<uint8_t>(_data[fmsi + i] * 255.0);
+    wptr[i] = static_cast<uint8_t>(CLAMP(_data[fmsi + i] * 255.0 + 0.5, 0, 255));
   }
 
   image->create(_size.x, _size.y, false, Image::FORMAT_L8, arr);
@@ -1150,7 +1150,7 @@ Ref<Image> MLPPTensor3::x_slice_get_image(const int p_index_x) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, y, p_index_x) * 255.0);
+      wptr[i] = static_cast<uint8_t>(CLAMP(element_get(z, y, p_index_x) * 255.0 + 0.5, 0, 255));
 
       ++i;
     }
@@ -1285,7 +1285,7 @@ Ref<Image> MLPPTensor3::y_slice_get_image(const int p_index_y) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_y, x) * 255.0);
+      wptr[i] = static_cast<uint8_t>(CLAMP(element_get(z, p_index_y, x) * 255.0 + 0.5, 0, 255));
 
       ++i;
     }
-- 
2.43.0


From 4d6ff3e28cad746a817226bccc1f338a4f1d4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:13 +0000
Subject: [PATCH 186/209] fix: the weights of the cubic filter add up to one at
 the first pixels too

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index ad1519a..d29f9a0 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -398,13 +398,13 @@ static void _scale_cubic(const uint8_t *__restrict p_src, uint8_t *__restrict p_
 	for (uint32_t y = 0; y < p_dst_height; y++) {
 		// Y coordinates
 		oy = (double)y * yfac - 0.5f;
-		oy1 = (int)oy;
+		oy1 = (int)Math::floor(oy);
 		dy = oy - (double)oy1;
 
 		for (uint32_t x = 0; x < p_dst_width; x++) {
 			// X coordinates
 			ox = (double)x * xfac - 0.5f;
-			ox1 = (int)ox;
+			ox1 = (int)Math::floor(ox);
 			dx = ox - (double)ox1;
 
 			// initial pixel value
-- 
2.43.0


From b40136647522720f265ff61506872bf1f0bfb75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 187/209] fix: pixels loaded by stb_image are freed by it

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d29f9a0..8a85760 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1438,7 +1438,7 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 	ERR_FAIL_COND_MSG(!pixels, "Couldn't load image! " + file_name);
 
 	if (n != img_n) {
-		memdelete(pixels);
+		stbi_image_free(pixels);
 		ERR_PRINT("Couldn't load image! n != img_n");
 		return;
 	}
@@ -1457,7 +1457,7 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 	mipmaps = false;
 	format = FORMAT_RGBA8;
 
-	memdelete(pixels);
+	stbi_image_free(pixels);
 
 	if (p_format != FORMAT_RGBA8) {
 		convert(p_format);
-- 
2.43.0


From ac4c16e681bca674d54b49f3c7a9d18394fa52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:23 +0000
Subject: [PATCH 188/209] fix: parse_utf16 keeps and reports a lead surrogate
 followed by an ordinary character

---
 platform/sfw.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c1d3b4e..9e6cef6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6077,6 +6077,10 @@ Error String::parse_utf16(const char16_t *p_utf16, int p_len) {
 				}
 				skip = false;
 			} else {
+				if (skip) {
+					//print_unicode_error(vformat("Unpaired lead surrogate (%x [trail?] %x)", c_prev, c));
+					decode_error = true;
+				}
 				skip = false;
 			}
 
@@ -6119,6 +6123,9 @@ Error String::parse_utf16(const char16_t *p_utf16, int p_len) {
 			}
 			skip = false;
 		} else {
+			if (skip) {
+				*(dst++) = c_prev; // unpaired, store as is
+			}
 			*(dst++) = c;
 			skip = false;
 		}
-- 
2.43.0


From eec61b596bc16a28a0e6cad403853480c8bee06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 189/209] fix: Vector4 and Vector4i set_all and zero cover the
 fourth component

---
 platform/sfw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index deb032e..c5f5438 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -12091,7 +12091,7 @@ struct _NO_DISCARD_CLASS_ Vector4 {
 };
 
 void Vector4::set_all(const real_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 real_t Vector4::dot(const Vector4 &p_vec4) const {
@@ -12103,7 +12103,7 @@ real_t Vector4::length_squared() const {
 }
 
 void Vector4::zero() {
-	x = y = z = 0;
+	x = y = z = w = 0;
 }
 
 void Vector4::operator+=(const Vector4 &p_vec4) {
@@ -12360,7 +12360,7 @@ struct _NO_DISCARD_CLASS_ Vector4i {
 };
 
 void Vector4i::set_all(const int32_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 int64_t Vector4i::length_squared() const {
-- 
2.43.0


From 61d6d28cca0e488b32faa1cb3514983f1262d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 190/209] fix: normalizing a zero Vector4 leaves it zero, as
 for Vector2 and Vector3

---
 platform/sfw.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9e6cef6..e663a48 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14284,11 +14284,18 @@ real_t Vector4::length() const {
 }
 
 void Vector4::normalize() {
-	*this /= length();
+	real_t lengthsq = length_squared();
+	if (lengthsq == 0) {
+		x = y = z = w = 0;
+	} else {
+		*this /= Math::sqrt(lengthsq);
+	}
 }
 
 Vector4 Vector4::normalized() const {
-	return *this / length();
+	Vector4 v = *this;
+	v.normalize();
+	return v;
 }
 
 bool Vector4::is_normalized() const {
-- 
2.43.0


From b322900e86702c34b77d9ea31ed3735fba9bfe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 191/209] fix: Color::html_is_valid accepts the short forms
 that Color::html parses

---
 platform/sfw.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e663a48..d3cb2e7 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -13352,6 +13352,15 @@ bool Color::html_is_valid(const String &p_color) {
 		color = color.substr(1, color.length() - 1);
 	}
 
+	if (color.length() == 3 || color.length() == 4) {
+		String exp_color;
+		for (int i = 0; i < color.length(); i++) {
+			exp_color += color[i];
+			exp_color += color[i];
+		}
+		color = exp_color;
+	}
+
 	bool alpha = false;
 
 	if (color.length() == 8) {
-- 
2.43.0


From ff7a44d18e5b4036daaf270ced994e996c647266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 192/209] fix: Transform::inverse_xform brings the origin back
 with the inverse basis

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index c5f5438..86b7e3e 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -14488,7 +14488,7 @@ struct _NO_DISCARD_CLASS_ Transform {
 	_FORCE_INLINE_ Transform inverse_xform(const Transform &t) const {
 		Vector3 v = t.origin - origin;
 		return Transform(basis.transpose_xform(t.basis),
-				basis.xform(v));
+				basis.xform_inv(v));
 	}
 
 	void set(real_t xx, real_t xy, real_t xz, real_t yx, real_t yy, real_t yz, real_t zx, real_t zy, real_t zz, real_t tx, real_t ty, real_t tz) {
-- 
2.43.0


From 28d9f653bca9826a856f6f3e48ed897b61460290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 193/209] fix: Basis::orthogonalize keeps a reflection

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d3cb2e7..3eff13b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -11237,7 +11237,7 @@ bool Basis::is_orthogonal() const {
 }
 
 void Basis::orthogonalize() {
-	Vector3 scl = get_scale();
+	Vector3 scl = get_scale_abs();
 	orthonormalize();
 	scale_local(scl);
 }
-- 
2.43.0


From 72893f107b0b194a8917fa0bf3f255532650d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 194/209] fix: the shortest arc between opposite vectors turns
 about a perpendicular axis

---
 platform/sfw.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 86b7e3e..f90a635 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -13250,9 +13250,10 @@ struct _NO_DISCARD_CLASS_ Quaternion {
 		real_t d = v0.dot(v1);
 
 		if (d < -1 + (real_t)CMP_EPSILON) {
-			x = 0;
-			y = 1;
-			z = 0;
+			Vector3 p = v0.cross(Math::abs(v0.y) < (real_t)0.9 ? Vector3(0, 1, 0) : Vector3(1, 0, 0)).normalized();
+			x = p.x;
+			y = p.y;
+			z = p.z;
 			w = 0;
 		} else {
 			real_t s = Math::sqrt((1 + d) * 2);
-- 
2.43.0


From b84d345735e2fd273a3c8bef24432b731b658669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 195/209] fix: Transform2D::interpolate_with interpolates the
 scale in local space

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3eff13b..6c33f3a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9871,7 +9871,7 @@ Transform2D Transform2D::interpolate_with(const Transform2D &p_transform, real_t
 
 	//construct matrix
 	Transform2D res(Math::atan2(v.y, v.x), Vector2::linear_interpolate(p1, p2, p_c));
-	res.scale_basis(Vector2::linear_interpolate(s1, s2, p_c));
+	res.set_scale(Vector2::linear_interpolate(s1, s2, p_c));
 	return res;
 }
 
-- 
2.43.0


From c3fd7907245eb5d8aac0e041422e8d7cca5def43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 196/209] fix: rotref_posscale_decomposition keeps the
 reflection in the returned matrix

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6c33f3a..97a0a10 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -11466,14 +11466,14 @@ Vector3 Basis::rotref_posscale_decomposition(Basis &rotref) const {
 	Basis m = transposed() * (*this);
 	ERR_FAIL_COND_V(!m.is_diagonal(), Vector3());
 #endif
-	Vector3 scale = get_scale();
-	Basis inv_scale = Basis().scaled(scale.inverse()); // this will also absorb the sign of scale
+	Vector3 scale = get_scale_abs();
+	Basis inv_scale = Basis().scaled(scale.inverse());
 	rotref = (*this) * inv_scale;
 
 #ifdef MATH_CHECKS
 	ERR_FAIL_COND_V(!rotref.is_orthogonal(), Vector3());
 #endif
-	return scale.abs();
+	return scale;
 }
 
 // Multiplies the matrix from left by the rotation matrix: M -> R.M
-- 
2.43.0


From 15a145e59c2ae4a104c2685e3d2a013782f630a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:28 +0000
Subject: [PATCH 197/209] fix: Quaternion::get_axis_angle has an answer for no
 rotation

---
 platform/sfw.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index f90a635..71b3186 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -13170,6 +13170,10 @@ struct _NO_DISCARD_CLASS_ Quaternion {
 	void set_axis_angle(const Vector3 &axis, const real_t &angle);
 	_FORCE_INLINE_ void get_axis_angle(Vector3 &r_axis, real_t &r_angle) const {
 		r_angle = 2 * Math::acos(w);
+		if (w * w >= 1) {
+			r_axis = Vector3(x, y, z);
+			return;
+		}
 		real_t r = ((real_t)1) / Math::sqrt(1 - w * w);
 		r_axis.x = x * r;
 		r_axis.y = y * r;
-- 
2.43.0


From 2f8e30c9b14119e37ae013234576fb5896025f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 198/209] fix: log10 of a double computed in single precision

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 71b3186..7ea1abe 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -2292,8 +2292,8 @@ public:
 	static _ALWAYS_INLINE_ double log1p(double p_x) { return ::log1p(p_x); }
 	static _ALWAYS_INLINE_ float log1p(float p_x) { return ::log1pf(p_x); }
 
-	static _ALWAYS_INLINE_ double log10(double p_x) { return ::log10f(p_x); }
-	static _ALWAYS_INLINE_ float log10(float p_x) { return ::log10(p_x); }
+	static _ALWAYS_INLINE_ double log10(double p_x) { return ::log10(p_x); }
+	static _ALWAYS_INLINE_ float log10(float p_x) { return ::log10f(p_x); }
 
 	static _ALWAYS_INLINE_ double log2(double p_x) { return ::log2(p_x); }
 	static _ALWAYS_INLINE_ float log2(float p_x) { return ::log2f(p_x); }
-- 
2.43.0


From 355e44b38a39546afdbb4f821a0ae36ed9022cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 199/209] fix: rand_from_seed never advances the seed it hands
 back

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 97a0a10..dadc4d7 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2724,7 +2724,7 @@ RandomPCG Math::default_rand(RandomPCG::DEFAULT_SEED, RandomPCG::DEFAULT_INC);
 uint32_t Math::rand_from_seed(uint64_t *seed) {
 	RandomPCG rng = RandomPCG(*seed, RandomPCG::DEFAULT_INC);
 	uint32_t r = rng.rand();
-	*seed = rng.get_seed();
+	*seed = rng.get_state();
 	return r;
 }
 
-- 
2.43.0


From 35325f69285f5b56fa1ba19e3a3cadf6264f4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 200/209] fix: Projection::create_orthogonal uses the far
 distance for the near plane

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index dadc4d7..97ef475 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9960,7 +9960,7 @@ Projection Projection::create_for_hmd(int p_eye, real_t p_aspect, real_t p_intra
 
 Projection Projection::create_orthogonal(real_t p_left, real_t p_right, real_t p_bottom, real_t p_top, real_t p_znear, real_t p_zfar) {
 	Projection proj;
-	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_zfar, p_zfar);
+	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_znear, p_zfar);
 	return proj;
 }
 
-- 
2.43.0


From e41284302ea9ce597fd903efee3c2e297156ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 201/209] fix: Face3::get_random_point_inside only ever returns
 a vertex

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 97ef475..f5e9bd2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12471,8 +12471,8 @@ Face3::Side Face3::get_side_of(const Face3 &p_face, ClockDirection p_clock_dir)
 }
 
 Vector3 Face3::get_random_point_inside() const {
-	real_t a = Math::random(0, 1);
-	real_t b = Math::random(0, 1);
+	real_t a = Math::randomr(0, 1);
+	real_t b = Math::randomr(0, 1);
 	if (a > b) {
 		SWAP(a, b);
 	}
-- 
2.43.0


From 9ef0350b6b77410ca5deb0da5cff37b9c8abcdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 202/209] fix: Face3::split_by_plane counts a vertex in the
 plane twice

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f5e9bd2..76a21d8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12379,7 +12379,11 @@ int Face3::split_by_plane(const Plane &p_plane, Face3 p_res[3], bool p_is_point_
 				below[below_count++] = vertex[i];
 			}
 
-			/* Check for Intersection between this and the next vertex*/
+			/* Check for Intersection between this and the next vertex (which is added on its own when it is in the plane) */
+
+			if (p_plane.has_point(vertex[(i + 1) % 3], (real_t)CMP_EPSILON)) {
+				continue;
+			}
 
 			Vector3 inters;
 			if (!p_plane.intersects_segment(vertex[i], vertex[(i + 1) % 3], &inters)) {
-- 
2.43.0


From e40ef641e2d8dd0831709971e62292685e6f53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 203/209] fix: Face3::get_support never considers the edge back
 to the first vertex

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 76a21d8..3a148c8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12621,7 +12621,7 @@ void Face3::get_support(const Vector3 &p_normal, const Transform &p_transform, V
 	/** TEST EDGES AS SUPPORT **/
 
 	for (int i = 0; i < 3; i++) {
-		if (i != vert_support_idx && i + 1 != vert_support_idx) {
+		if (i != vert_support_idx && (i + 1) % 3 != vert_support_idx) {
 			continue;
 		}
 
-- 
2.43.0


From da203148c08288d68ec90a11c7ef04ce7f21272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 204/209] fix: copies of an InetAddress share one buffer and
 free it twice

---
 platform/sfw.cpp | 14 ++++++++++++++
 platform/sfw.h   |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3a148c8..32383fc 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17186,6 +17186,20 @@ InetAddress::InetAddress(const struct sockaddr_in6 &addr) {
 	_is_unspecified = false;
 }
 
+InetAddress::InetAddress(const InetAddress &other) {
+	_data = memnew(InetAddressData);
+	*_data = *other._data;
+	_is_ip_v6 = other._is_ip_v6;
+	_is_unspecified = other._is_unspecified;
+}
+
+InetAddress &InetAddress::operator=(const InetAddress &other) {
+	*_data = *other._data;
+	_is_ip_v6 = other._is_ip_v6;
+	_is_unspecified = other._is_unspecified;
+	return *this;
+}
+
 InetAddress::~InetAddress() {
 	memdelete(_data);
 }
diff --git a/platform/sfw.h b/platform/sfw.h
index 7ea1abe..689374d 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17844,6 +17844,9 @@ public:
 	explicit InetAddress(const struct sockaddr_in &addr);
 	explicit InetAddress(const struct sockaddr_in6 &addr);
 
+	InetAddress(const InetAddress &other);
+	InetAddress &operator=(const InetAddress &other);
+
 	~InetAddress();
 
 private:
-- 
2.43.0


From 4fd1f57442a7bf0cc7cb7a852a1c48a791b7160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 205/209] fix: InetAddress leaves its version and unspecified
 flags uninitialised, and is_unspecified cannot be linked

---
 platform/sfw.cpp | 2 +-
 platform/sfw.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 32383fc..9e96809 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17107,7 +17107,7 @@ void InetAddress::set_port_net_endian(uint16_t port) {
 	_data->_addr.sin_port = port;
 }
 
-inline bool InetAddress::is_unspecified() const {
+bool InetAddress::is_unspecified() const {
 	return _is_unspecified;
 }
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 689374d..25612e2 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17836,7 +17836,7 @@ public:
 
 	void set_port_net_endian(uint16_t port);
 
-	inline bool is_unspecified() const;
+	bool is_unspecified() const;
 
 	InetAddress(uint16_t port = 0, bool loopbackOnly = false, bool ipv6 = false);
 	InetAddress(const String &ip, uint16_t port, bool ipv6 = false);
@@ -17852,8 +17852,8 @@ public:
 private:
 	InetAddressData *_data;
 
-	bool _is_ip_v6;
-	bool _is_unspecified;
+	bool _is_ip_v6 = false;
+	bool _is_unspecified = true;
 };
 
 #line 0
-- 
2.43.0


From a18924ca1bfaab93eb47fa5844ca1fffab93f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 206/209] fix: SubProcess lets the shell expand the arguments
 it passes

---
 platform/sfw.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9e96809..0e6418d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17948,6 +17948,11 @@ SubProcess::~SubProcess() {
 #include <sys/wait.h>
 #include <unistd.h>
 
+// Single quotes, so the shell takes the text as it is
+static String _quote_shell_argument(const String &p_text) {
+	return "'" + p_text.replace("'", "'\\''") + "'";
+}
+
 Error SubProcess::start() {
 #ifdef __EMSCRIPTEN__
 	// Don't compile this code at all to avoid undefined references.
@@ -17964,10 +17969,10 @@ Error SubProcess::start() {
 
 	if (_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _quote_shell_argument(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _quote_shell_argument(_arguments[i]);
 		}
 
 		if (_read_std_err) {
@@ -17999,10 +18004,10 @@ Error SubProcess::start() {
 
 	if (!_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _quote_shell_argument(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _quote_shell_argument(_arguments[i]);
 		}
 
 		if (_read_std_err) {
-- 
2.43.0


From be0b9de1ba331ef62115dab7f7c6a084a087a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 207/209] fix: SubProcess forgets the exit code of a finished
 program, and stop() signals its old process id

---
 platform/sfw.cpp | 3 +++
 platform/sfw.h   | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0e6418d..3d3a843 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18155,6 +18155,9 @@ bool SubProcess::is_process_running() const {
 
 	int status = 0;
 	if (waitpid(_process_id, &status, WNOHANG) != 0) {
+		// Finished, the id may belong to some other process from now on
+		_exitcode = WIFEXITED(status) ? WEXITSTATUS(status) : status;
+		_process_id = 0;
 		return false;
 	}
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 25612e2..648d758 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18013,8 +18013,8 @@ protected:
 
 	bool _open_console;
 
-	ProcessID _process_id;
-	int _exitcode;
+	mutable ProcessID _process_id;
+	mutable int _exitcode;
 
 #if defined(_WIN64) || defined(_WIN32)
 
-- 
2.43.0


From 9405d1676e8eca6dab61c8508654d58145a9f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 208/209] fix: SubProcess breaks characters at the end of its
 read buffer

---
 platform/sfw.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3d3a843..0b03adb 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17985,15 +17985,35 @@ Error SubProcess::start() {
 		ERR_FAIL_COND_V_MSG(!f, ERR_CANT_OPEN, "Cannot pipe stream from process running with following arguments '" + argss + "'.");
 
 		char buf[65535];
+		LocalVector<char> line;
+		bool more = true;
+
+		while (more) {
+			more = fgets(buf, 65535, f) != NULL;
+
+			if (more) {
+				for (const char *c = buf; *c; ++c) {
+					line.push_back(*c);
+				}
+
+				if (!line.empty() && line[line.size() - 1] != '\n') {
+					continue; // The rest of the line is still to come
+				}
+			}
+
+			if (line.empty()) {
+				continue;
+			}
 
-		while (fgets(buf, 65535, f)) {
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
-			_pipe += String::utf8(buf);
+			_pipe += String::utf8(line.ptr(), line.size());
 			if (_pipe_mutex) {
 				_pipe_mutex->unlock();
 			}
+
+			line.clear();
 		}
 		int rv = pclose(f);
 
-- 
2.43.0


From 625bdab4b6b9734d84fbe3a6e1528f99eb10a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 209/209] fix: InetAddress for the loopback interface only is
 every interface

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0b03adb..fb902a4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16938,7 +16938,7 @@ struct in6__addruint {
 
 // INADDR_ANY use (type)value casting.
 static const in_addr_t kInaddrAny = INADDR_ANY;
-static const in_addr_t kInaddrLoopback = INADDR_ANY;
+static const in_addr_t kInaddrLoopback = INADDR_LOOPBACK;
 
 //     /* Structure describing an Internet socket address.  */
 //     struct sock_addrin {
-- 
2.43.0

