From e29bb0fee686065b22480c1096ab3896a897847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:31 +0000
Subject: [PATCH 01/67] fix: vector operations are correct when operands alias
 the result

---
 include/softlib/General/Vector.tcc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index a819e18..81b9f54 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -102,8 +102,9 @@ Vector<N,T>& Vector<N,T>::operator+=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator+=(const T& s) {
+	const T c = s;	// 's' may refer to an element of this vector
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] += s;
+		elems[i] += c;
 
 	return *this;
 }
@@ -124,8 +125,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
+	const T c = s;	// 's' may refer to an element of this vector
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] -= s;
+		elems[i] -= c;
 
 	return *this;
 }
@@ -137,8 +139,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
  */
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator*=(const T& s) {
+	const T c = s;	// 's' may refer to an element of this vector
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] *= s;
+		elems[i] *= c;
 
 	return *this;
 }
@@ -306,9 +309,14 @@ Vector<N,T> &Vector<N,T>::Cross(const Vector<N,T> &a, const Vector<N,T> &b, Vect
     if (N != 3)
         throw SOFTLibException("Cross products are only defined for 3-vectors.");
     else {
-        c[0] = a[1]*b[2] - a[2]*b[1];
-        c[1] = a[2]*b[0] - a[0]*b[2];
-        c[2] = a[0]*b[1] - a[1]*b[0];
+        // 'c' may refer to the same vector as 'a' or 'b'
+        const T c0 = a[1]*b[2] - a[2]*b[1];
+        const T c1 = a[2]*b[0] - a[0]*b[2];
+        const T c2 = a[0]*b[1] - a[1]*b[0];
+
+        c[0] = c0;
+        c[1] = c1;
+        c[2] = c2;
 
         return c;
     }
-- 
2.43.0


From b0acf6531291c94e0085875a4e489e7ccb7a2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:37 +0000
Subject: [PATCH 02/67] fix: assigning and adding matrices compiles (elements
 are accessed with parentheses)

---
 include/softlib/General/Matrix.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 0bcff02..e993b18 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -124,7 +124,7 @@ unsigned int Matrix<M,N,T>::Cols() const { return N; }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = mat[i];
+        elems[i] = mat(i);
 
     return *this;
 }
@@ -137,7 +137,7 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator+=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] += mat[i];
+        elems[i] += mat(i);
 
     return *this;
 }
-- 
2.43.0


From c9453c3dbb61802b1da174a64d75f27ce8e768a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:37 +0000
Subject: [PATCH 03/67] fix: product of a scalar and a matrix multiplies
 instead of adding

---
 include/softlib/General/Matrix.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index e993b18..b38c261 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -311,13 +311,13 @@ Matrix<M,K,T> operator*(const Matrix<M,N,T>& l, const Matrix<N,K,T>& r) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const Matrix<M,N,T>& l, const T r) {
     Matrix<M,N,T> C(l);
-    C += r;
+    C *= r;
     return C;
 }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const T l, const Matrix<M,N,T>& r) {
     Matrix<M,N,T> C(r);
-    C += l;
+    C *= l;
     return C;
 }
 
-- 
2.43.0


From c27bcd8f0a845b2555175ac9500ce633184d1305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:38 +0000
Subject: [PATCH 04/67] fix: subtracting a matrix from a scalar has the right
 sign

---
 include/softlib/General/Matrix.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index b38c261..1e325e1 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -281,7 +281,8 @@ Matrix<M,N,T> operator-(const Matrix<M,N,T>& lhs, const T rhs) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator-(const T lhs, const Matrix<M,N,T>& rhs) {
     Matrix<M,N,T> C(rhs);
-    C -= lhs;
+    C *= -1;
+    C += lhs;
     return C;
 }
 
-- 
2.43.0


From f251a1f4013dc4ea4f7e746bd324781564ed7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:38 +0000
Subject: [PATCH 05/67] fix: product of a (row) vector and a matrix compiles

---
 include/softlib/General/Matrix.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 1e325e1..954363b 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -352,7 +352,7 @@ Vector<N,T> operator*(const Vector<M,T>& l, const Matrix<M,N,T>& r) {
     for (unsigned int i = 0; i < N; i++) {
         T sum = 0;
         for (unsigned int j = 0; j < M; j++)
-            sum += l(j,i) * r[j];
+            sum += l[j] * r(j,i);
 
         vec[i] = sum;
     }
-- 
2.43.0


From 1b064f1f64308b3ee849a6bdc241b0cb54150f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:39 +0000
Subject: [PATCH 06/67] fix: negating a matrix leaves the operand unchanged

---
 include/softlib/General/Matrix.tcc | 9 +++++----
 include/softlib/Matrix.h           | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 954363b..a555367 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -219,14 +219,15 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const T s) {
 }
 
 /**
- * Negate all elements of this matrix.
+ * Returns a copy of this matrix with all elements negated.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator-() {
+Matrix<M,N,T> Matrix<M,N,T>::operator-() const {
+    Matrix<M,N,T> C;
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = -elems[i];
+        C(i) = -elems[i];
 
-    return *this;
+    return C;
 }
 
 
diff --git a/include/softlib/Matrix.h b/include/softlib/Matrix.h
index a5b346f..2da9003 100644
--- a/include/softlib/Matrix.h
+++ b/include/softlib/Matrix.h
@@ -34,7 +34,7 @@ class Matrix {
         Matrix<M,N,T>& operator-=(const T);
         Matrix<M,N,T>& operator*=(const Matrix<N,M,T>&);
         Matrix<M,N,T>& operator*=(const T);
-        Matrix<M,N,T>& operator-();
+        Matrix<M,N,T>  operator-() const;
 
         unsigned int Rows() const;
         unsigned int Cols() const;
-- 
2.43.0


From f406c8447cb004b18010e807ba08dafbc30f22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:39 +0000
Subject: [PATCH 07/67] fix: multiplying a matrix in place does not overwrite
 elements still needed

---
 include/softlib/General/Matrix.tcc | 14 ++------------
 include/softlib/Matrix.h           |  2 +-
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index a555367..861981b 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -191,18 +191,8 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator-=(const T s) {
  * mat: Matrix to multiply with.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,M,T>& mat) {
-    for (unsigned int i = 0; i < M; i++) {
-        for (unsigned int j = 0; j < M; j++) {
-            T sum = 0;
-            for (unsigned k = 0; k < N; k++)
-                sum += elems[i*N+k] * mat(k,j);
-
-            elems[i*N+j] = sum;
-        }
-    }
-
-    return *this;
+Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,N,T>& mat) {
+    return (*this = (*this) * mat);
 }
 
 /**
diff --git a/include/softlib/Matrix.h b/include/softlib/Matrix.h
index 2da9003..6189514 100644
--- a/include/softlib/Matrix.h
+++ b/include/softlib/Matrix.h
@@ -32,7 +32,7 @@ class Matrix {
         Matrix<M,N,T>& operator+=(const T);
         Matrix<M,N,T>& operator-=(const Matrix<M,N,T>&);
         Matrix<M,N,T>& operator-=(const T);
-        Matrix<M,N,T>& operator*=(const Matrix<N,M,T>&);
+        Matrix<M,N,T>& operator*=(const Matrix<N,N,T>&);
         Matrix<M,N,T>& operator*=(const T);
         Matrix<M,N,T>  operator-() const;
 
-- 
2.43.0


From 91e3984d8901e913b0059652b2f49482b08c11a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:28 +0000
Subject: [PATCH 08/67] fix: gradient of |B| of the analytical field for
 non-constant safety factors

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 446b2c3..0fff682 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -159,7 +159,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 	r_qRm = r / (Rm * q);
 	sqr = sqrt(r_qRm*r_qRm + 1);
 
-	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr)/sqr + costheta * iR * sqr);
+	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr/q)/sqr + costheta * iR * sqr);
 	DB0 =-B0*Rm*sintheta * iR*iR * sqr;
 	ddr_rB0 = sigmaI * B0 * iR / q * (Rm*iR + 1 - rdq_dr/q);
 
-- 
2.43.0


From 080f2d870b34b96181c9e927c16a2df1dae8a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:30 +0000
Subject: [PATCH 09/67] fix: poloidal flux of a numeric field converted from an
 analytical field is initialised

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 0fff682..9f774e6 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -290,6 +290,7 @@ MagneticFieldNumeric2D *MagneticFieldAnalytical2D::ToNumeric2D(const unsigned in
             Br  [i + j*nr] = B[0];
             Bphi[i + j*nr] = B[1];
             Bz  [i + j*nr] = B[2];
+            Psi [i + j*nr] = EvalFlux(R[i], 0.0, Z[j]);
         }
     }
 
-- 
2.43.0


From c5a8fc65f8fe66e094f8b22b3100329955bae820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:04 +0000
Subject: [PATCH 10/67] fix: lines parallel to a wall segment cross it only if
 they overlap, and the contour is closed

---
 src/MagneticField/MagneticField2D.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 3b83b87..67f78aa 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -49,18 +49,30 @@ bool MagneticField2D::CrossesDomain(
         x10, y10, x11, y11, s, t, det;
 
     unsigned int i;
-    for (i = 0; i < ndomain-1; i++) {
+    for (i = 0; i < ndomain; i++) {
+        /* The last point is connected to the first */
+        unsigned int ip = (i+1 < ndomain) ? i+1 : 0;
+
         x10 = rdomain[i];
-        x11 = rdomain[i+1] - x10;
+        x11 = rdomain[ip] - x10;
         y10 = zdomain[i];
-        y11 = zdomain[i+1] - y10;
+        y11 = zdomain[ip] - y10;
 
-        /* Check if matrix is zero */
-        if (x00-x10 == 0 && y00-y10 == 0) continue;
-        
         /* Compute determinant and check if zero */
         det = x11*y01 - x01*y11;
-        if (det == 0) return true;
+        if (det == 0) {
+            /* Parallel segments intersect only if they
+             * lie on the same line and overlap */
+            if ((x00-x10)*y11 == (y00-y10)*x11 &&
+                (x00-x10)*y01 == (y00-y10)*x01 &&
+                max(x00, r) >= min(rdomain[i], rdomain[ip]) &&
+                min(x00, r) <= max(rdomain[i], rdomain[ip]) &&
+                max(y00, z2) >= min(zdomain[i], zdomain[ip]) &&
+                min(y00, z2) <= max(zdomain[i], zdomain[ip]))
+                return true;
+
+            continue;
+        }
 
         s = (1/det) * ((x00-x10)*y01 - (y00-y10)*x01);
         t =-(1/det) * ((y00-y10)*x11 - (x00-x10)*y11);
-- 
2.43.0


From c40a64029765d859539ae2979325904d7f4feb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:41 +0000
Subject: [PATCH 11/67] fix: radial and vertical extent of the domain take all
 crossings of the closed contour into account

---
 src/MagneticField/MagneticField2D.cpp | 95 +++++++++++++--------------
 1 file changed, 44 insertions(+), 51 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 67f78aa..6e7b9ca 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -220,43 +220,35 @@ slibreal_t MagneticField2D::FindMinRadius() {
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	#define MAGFIELD2D_MAXRPOINTS 2
-	unsigned int i, ir;
+	unsigned int i, ip, ir;
 	slibreal_t za = this->GetMagneticAxisZ();
-	slibreal_t rpoints[MAGFIELD2D_MAXRPOINTS];
-
-	for (i = ir = 0; i < n-1 && ir < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((z[i] >= za && z[i+1] <= za) ||
-			(z[i] <= za && z[i+1] >= za)) {
-			if (z[i+1] == z[i])
-				rpoints[ir++] = max(r[i], r[i+1]);
-			else
-				rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
+	slibreal_t rmx, rmn;
+
+	for (i = ir = 0; i < n; i++) {
+		// The last point is connected to the first
+		ip = (i+1 < n) ? i+1 : 0;
+
+		if ((z[i] >= za && z[ip] <= za) ||
+			(z[i] <= za && z[ip] >= za)) {
+			if (z[ip] == z[i]) {
+				rmx = max(r[i], r[ip]);
+				rmn = min(r[i], r[ip]);
+			} else
+				rmx = rmn = r[i] + (r[ip]-r[i]) * (za-z[i])/(z[ip]-z[i]);
+
+			// Find max & min radii
+			if (ir == 0 || rmx > this->maxradius)
+				this->maxradius = rmx;
+			if (ir == 0 || rmn < this->minradius)
+				this->minradius = rmn;
+
+			ir++;
 		}
 	}
 
-	// Handle last/first point
-	if ((z[n-1] >= za && z[0] <= za) ||
-		(z[n-1] <= za && z[0] >= za)) {
-		if (z[0] == z[n-1])
-			rpoints[ir++] = max(r[i], r[i+1]);
-		else
-			rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-	}
-
 	if (ir == 0)
 		throw SOFTLibException("Unable to find maximum allowed drop radius. Magnetic axis not within domain.");
 
-	// Find max & min radii
-	this->maxradius = rpoints[0];
-	this->minradius = rpoints[0];
-	for (i = 1; i < ir; i++) {
-		if (rpoints[i] > this->maxradius)
-			this->maxradius = rpoints[i];
-		else if (rpoints[i] < this->minradius)
-			this->minradius = rpoints[i];
-	}
-
 	return this->maxradius;
 }
 
@@ -306,32 +298,33 @@ void MagneticField2D::FindMaxMin(
     unsigned int n, const slibreal_t *x, const slibreal_t *y,
     const slibreal_t a, slibreal_t &mn, slibreal_t &mx
 ) {
-	#define MAGFIELD2D_MAXXPOINTS 2
-	unsigned int i, ix;
-	slibreal_t xpoints[MAGFIELD2D_MAXXPOINTS];
-
-	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((y[i] >= a && y[i+1] <= a) ||
-			(y[i] <= a && y[i+1] >= a)) {
-			if (y[i+1] == y[i])
-				xpoints[ix++] = max(x[i], x[i+1]);
-			else
-				xpoints[ix++] = x[i] + (x[i+1]-x[i]) * (a-y[i])/(y[i+1]-y[i]);
+	unsigned int i, ip, ix;
+	slibreal_t xmx, xmn;
+
+	for (i = ix = 0; i < n; i++) {
+		// The last point is connected to the first
+		ip = (i+1 < n) ? i+1 : 0;
+
+		if ((y[i] >= a && y[ip] <= a) ||
+			(y[i] <= a && y[ip] >= a)) {
+			if (y[ip] == y[i]) {
+				xmx = max(x[i], x[ip]);
+				xmn = min(x[i], x[ip]);
+			} else
+				xmx = xmn = x[i] + (x[ip]-x[i]) * (a-y[i])/(y[ip]-y[i]);
+
+			// Find max & min radii
+			if (ix == 0 || xmx > mx)
+				mx = xmx;
+			if (ix == 0 || xmn < mn)
+				mn = xmn;
+
+			ix++;
 		}
 	}
 
 	if (ix == 0)
 		throw SOFTLibException("Unable to find maximum point. Requested point is not within the domain.");
-
-	// Find max & min radii
-	mx = xpoints[0];
-	mn = xpoints[0];
-	for (i = 1; i < ix; i++) {
-		if (xpoints[i] > mx)
-			mx = xpoints[i];
-		else if (xpoints[i] < mn)
-			mn = xpoints[i];
-	}
 }
 
 /**
-- 
2.43.0


From 76dc89be67d5c6e647bb196cc8722f97c4d2ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:43 +0000
Subject: [PATCH 12/67] fix: bounds of the domain are recomputed when the
 domain is replaced

---
 src/MagneticField/MagneticField2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 6e7b9ca..ae666e8 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -465,6 +465,7 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->rdomain = rd;
     this->zdomain = zd;
     this->ndomain = nd;
+    this->bounds_set = false;
 
 	this->FindMaxRadius();
 }
-- 
2.43.0


From dfb59ee9dbce13df4b3094d1299fe8c0ae1b33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 13/67] fix: line-of-sight test on arrays uses the z coordinate
 of the origin

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index ae666e8..9e332d2 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -364,7 +364,7 @@ slibreal_t  MagneticField2D::GetMagneticAxisZ() { return this->magnetic_axis[1];
  */
 bool MagneticField2D::IntersectsDomain3D(slibreal_t *xyz0, slibreal_t *xyz1, bool has_outer_wall) {
     return IntersectsDomain3D(
-        xyz0[0], xyz0[1], xyz0[1],
+        xyz0[0], xyz0[1], xyz0[2],
         xyz1[0], xyz1[1], xyz1[2],
         has_outer_wall
     );
-- 
2.43.0


From baf31363615a03659cc627f9da8f2afdd2218b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:15 +0000
Subject: [PATCH 14/67] fix: line of sight through the plane of a horizontal
 wall tile hits it only within the tile

---
 src/MagneticField/MagneticField2D.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 9e332d2..fc34902 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -422,13 +422,17 @@ bool MagneticField2D::__IntersectsDomain3D(
         if (zc == zp) return false;
 
         t1 = t2 = (zn-zp)/(zc-zp);
-        ic = 1/(xn-xnp);
+        if (t1 < 0 || t1 > 1) return false;
+
         term1 = xp + (xc-xp)*t1, term2 = yp + (yc-yp)*t1;
         square = term1*term1 + term2*term2;
         sqr = sqrt(square);
 
-        s1 = ic * (xn + sqr);
-        s2 = ic * (xn + sqr);
+        if (xnp == xn) return (sqr == xn);
+
+        ic = 1/(xnp-xn);
+        s1 = ic * (sqr - xn);
+        s2 = s1;
 
         if ((s1 >= 0 && s1 <= 1) || (s2 >= 0 && s2 <= 1))
             return true;
-- 
2.43.0


From fb27250a53fb06dcc71c8543f4128f999fd1ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 15/67] fix: line of sight hits a wall tile only where it meets
 the tile itself, not its extension

---
 src/MagneticField/MagneticField2D.cpp | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index fc34902..a06f0ce 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -445,20 +445,31 @@ bool MagneticField2D::__IntersectsDomain3D(
         m = xn+mz*(xnp-xn);
 
         abc = a*a + b*b - c*c;
-        if (abc == 0) return true;
-        iabc = 1/abc;
+        if (abc == 0) {
+            /* Line parallel to the surface of the (extended) cone */
+            term = a*xp + b*yp - c*m;
+            q = m*m - xp*xp - yp*yp;
+            if (term == 0)
+                return (q == 0 && max(mz, mz+kz) >= 0 && min(mz, mz+kz) <= 1);
+
+            t1 = t2 = q / (2*term);
+        } else {
+            iabc = 1/abc;
 
-        term = (c*m - a*xp - b*yp) * iabc;
-        q = (m*m - xp*xp - yp*yp)*iabc;
-        square = term*term + q;
+            term = (c*m - a*xp - b*yp) * iabc;
+            q = (m*m - xp*xp - yp*yp)*iabc;
+            square = term*term + q;
 
-        if (square < 0) return false;
+            if (square < 0) return false;
 
-        sqr = sqrt(square);
-        t1 = term + sqr, t2 = term - sqr;
-        s1 = kz*t1,      s2 = kz*t2;
+            sqr = sqrt(square);
+            t1 = term + sqr, t2 = term - sqr;
+        }
+
+        s1 = mz + kz*t1, s2 = mz + kz*t2;
 
-        if ((t1 >= 0 && t1 <= 1) || (t2 >= 0 && t2 <= 1))
+        if ((t1 >= 0 && t1 <= 1 && s1 >= 0 && s1 <= 1) ||
+            (t2 >= 0 && t2 <= 1 && s2 >= 0 && s2 <= 1))
             return true;
     }
 
-- 
2.43.0


From 0d8472e7f33e775bf0a004480d6408fc13f5a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:43 +0000
Subject: [PATCH 16/67] fix: numeric magnetic field outside the grid is rotated
 to the toroidal angle of the point

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 0eaba73..629e31e 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -298,7 +298,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t *xyz) {
 	return Eval(xyz[0], xyz[1], xyz[2]);
 }
 slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t z) {
-	slibreal_t r = hypot(x, y), br, bphi, bz, sin0, cos0;
+	slibreal_t rho = hypot(x, y), r = rho, br, bphi, bz, sin0, cos0;
 
 	/* Make sure requested point is within domain */
 		 if (r < rmin) r = rmin;
@@ -311,7 +311,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
     bphi = (slibreal_t)gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz   = (slibreal_t)gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) { sin0 = y/r, cos0 = x/r; }
+    if (rho != 0) { sin0 = y/rho, cos0 = x/rho; }
     else { sin0 = 0, cos0 = 1; }
     interpval[0] = br * cos0 - bphi * sin0;
     interpval[1] = br * sin0 + bphi * cos0;
@@ -331,7 +331,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
  *            to evaluate the magnetic field.
  */
 slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y, slibreal_t z) {
-    slibreal_t r = hypot(x, y),
+    slibreal_t rho = hypot(x, y), r = rho,
         sin0, cos0, sin20, cos20, sc0,
         dsin0_dx, dcos0_dx, dsin0_dy, dcos0_dy,
         dBr_dr, dBr_dz, dB0_dr, dB0_dz, dBz_dr, dBz_dz,
@@ -359,8 +359,8 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
     b0 = gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz = gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) {
-        sin0 = y/r, cos0 = x/r;
+    if (rho != 0) {
+        sin0 = y/rho, cos0 = x/rho;
         sin20 = sin0*sin0, cos20 = cos0*cos0;
         sc0 = sin0*cos0;
 
-- 
2.43.0


From 64a97977803afcf5e7a8a5e05dd121cbb85de483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:45 +0000
Subject: [PATCH 17/67] fix: evaluating the poloidal flux outside the grid does
 not abort the program

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 629e31e..ddcfc4b 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -443,6 +443,12 @@ slibreal_t MagneticFieldNumeric2D::EvalFlux(
         throw SOFTLibException("Trying to evaluate magnetic flux coordinates which have not been defined.");
 
     slibreal_t r = hypot(x, y);
+
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     return (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
 }
 
@@ -468,6 +474,11 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
 
     slibreal_t r = hypot(x, y);
 
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     flux_data.psi     = (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
     flux_data.dpsi_dR = (slibreal_t)gsl_spline2d_eval_deriv_x(sPsi, r, z, ra, za);
     flux_data.dpsi_dZ = (slibreal_t)gsl_spline2d_eval_deriv_y(sPsi, r, z, ra, za);
-- 
2.43.0


From 11f22575100d93881bc2a50f320e10143a31862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:47 +0000
Subject: [PATCH 18/67] fix: clone of a numeric magnetic field without wall or
 separatrix has none either

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index ddcfc4b..2ab2929 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -123,10 +123,10 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     nBr    = new slibreal_t[nB];
     nBphi  = new slibreal_t[nB];
     nBz    = new slibreal_t[nB];
-    nrsep  = new slibreal_t[this->nsep];
-    nzsep  = new slibreal_t[this->nsep];
-    nrwall = new slibreal_t[this->nwall];
-    nzwall = new slibreal_t[this->nwall];
+    nrsep  = (this->nsep  > 0) ? new slibreal_t[this->nsep]  : nullptr;
+    nzsep  = (this->nsep  > 0) ? new slibreal_t[this->nsep]  : nullptr;
+    nrwall = (this->nwall > 0) ? new slibreal_t[this->nwall] : nullptr;
+    nzwall = (this->nwall > 0) ? new slibreal_t[this->nwall] : nullptr;
 
     for (i = 0; i < this->nr; i++)
         nR[i] = this->R[i];
-- 
2.43.0


From 9e18cc707089bfab7c19a607908db7271b135a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 19/67] fix: saving a numeric magnetic field without poloidal
 flux

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 2ab2929..ffadb2f 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -758,7 +758,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
-	sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+	if (HasMagneticFlux())
+		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
-- 
2.43.0


From cbfa40419ab884f6577d124534a35faa4bb4129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:51 +0000
Subject: [PATCH 20/67] fix: name, description, magnetic axis and derivatives
 of numeric magnetic fields are defined

---
 include/softlib/MagneticField/MagneticFieldNumeric2D.h | 3 ---
 src/MagneticField/MagneticFieldNumeric2D.cpp           | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index b65a063..17c648b 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -63,9 +63,6 @@ class MagneticFieldNumeric2D : public MagneticField2D {
         virtual struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
 		slibreal_t FindMaxRadius() override;
 		slibreal_t FindMinRadius() override;
-		std::string& GetDescription();
-		std::string& GetName();
-        slibreal_t *GetMagneticAxis();
 		void Init(
 			const std::string& name, const std::string& description,
 			slibreal_t *R, slibreal_t *Z, unsigned int nr, unsigned int nz,
diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index ffadb2f..ee2b171 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -394,6 +394,9 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
     return jacobian;
 }
 
+struct magnetic_field_data& MagneticFieldNumeric2D::EvalDerivatives(slibreal_t *xyz) {
+	return EvalDerivatives(xyz[0], xyz[1], xyz[2]);
+}
 struct magnetic_field_data& MagneticFieldNumeric2D::EvalDerivatives(slibreal_t x, slibreal_t y, slibreal_t z) {
 	slibreal_t **J = __EvalJacobian(x, y, z);
 
-- 
2.43.0


From 381b75277a6cb59ca11cbbc8c896deb33ad8771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:58 +0000
Subject: [PATCH 21/67] fix: refuse magnetic field files whose fields do not
 match the grid

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index ee2b171..fea57b3 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -489,6 +489,18 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
     return &flux_data;
 }
 
+/**
+ * Verify that a field of the given size is specified on
+ * the grid (or is the transpose of such a field).
+ */
+static void CheckSize(
+	const string& filename, const char *fld, const sfilesize_t *fs,
+	unsigned int nr, unsigned int nz
+) {
+	if ((fs[0] != nz || fs[1] != nr) && (fs[0] != nr || fs[1] != nz))
+		throw SFileException("%s: The size of '%s' does not match the size of the grid.", filename.c_str(), fld);
+}
+
 /**
  * Loads a 2D numeric magnetic field from the
  * file named 'filename'.
@@ -522,21 +534,27 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	this->nz = fs[0];
 
 	_Br = sf->GetDoubles("Br", fs);
+	CheckSize(filename, "Br", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Br = Transpose(_Br, fs[0], fs[1]);
 	_Bphi = sf->GetDoubles("Bphi", fs);
+	CheckSize(filename, "Bphi", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bphi = Transpose(_Bphi, fs[0] ,fs[1]);
 	_Bz = sf->GetDoubles("Bz", fs);
+	CheckSize(filename, "Bz", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bz = Transpose(_Bz, fs[0], fs[1]);
 
     /* Load magnetic flux */
     try {
         _Psi = sf->GetDoubles("Psi", fs);
+    } catch (SFileException& ex) {}
+    if (_Psi != nullptr) {
+        CheckSize(filename, "Psi", fs, this->nr, this->nz);
         if (fs[0] != (sfilesize_t)this->nz)
             _Psi = Transpose(_Psi, fs[0], fs[1]);
-    } catch (SFileException& ex) {}
+    }
 
     /* Load verification vectors (if present) */
     try {
-- 
2.43.0


From f7482c3e5e25e14dec6c858a96b4c2fb3498a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:46 +0000
Subject: [PATCH 22/67] fix: keep the first point of the radial grid when
 initializing a distribution

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 1b4ee2a..360f5e1 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -135,9 +135,13 @@ void NumericDistributionFunction::Initialize(
     bool ascnd = true;
 
     // Ensure that the radial grid is monotonically increasing or decreasing
-    if (nr > 2)
+    if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
+    this->r.clear();
+    this->msdf.clear();
+    this->r.push_back(r[0]);
+
     for (unsigned int i = 1; i < nr; i++) {
         if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
-- 
2.43.0


From bb41e31211e2f0afc78333a90f65267b3fee3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:48 +0000
Subject: [PATCH 23/67] fix: interpolation of numeric distributions at the ends
 of the radial grid

---
 .../NumericDistributionFunction.cpp            | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 360f5e1..c3a13a0 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -41,22 +41,16 @@ slibreal_t NumericDistributionFunction::Eval(
     slibreal_t r0, r1;
 
     if (nr == 1) {
-        r0 = rho;
-        r1 = 0;
-
-        f0 = this->msdf[0]->Eval(p, xi);
-        f1 = 0;
+        return this->msdf[0]->Eval(p, xi);
     } else if (ir <= 0) {
-        r0 = 0;
-        r1 = this->r[0];
-        slibreal_t r2 = this->r[1], f2;
+        r0 = this->r[0];
+        r1 = this->r[1];
 
-        f1 = this->msdf[0]->Eval(p, xi);
-        f2 = this->msdf[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
+        f0 = this->msdf[0]->Eval(p, xi);
+        f1 = this->msdf[1]->Eval(p, xi);
     } else if ((size_t)ir >= nr-1) {
         r0 = this->r[nr-1];
-        r1 = r0 + (2*r0 - this->r[nr-2]);
+        r1 = 2*r0 - this->r[nr-2];
 
         f0 = this->msdf[nr-1]->Eval(p, xi);
         f1 = 2*f0 - this->msdf[nr-2]->Eval(p, xi);
-- 
2.43.0


From 3ea6ad8073c3366869a5db49c0ff85007a3322fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:49 +0000
Subject: [PATCH 24/67] fix: radial look-up on decreasing grids and insertion
 before the first radius

---
 .../NumericDistributionFunction.cpp                   | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index c3a13a0..b33843b 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -80,7 +80,7 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
     int il, im, iu, nnr = (int)this->r.size();
 
     if (nnr == 0) return -1;
-    else if (nnr == 1) return 0;
+    else if (nnr == 1) return (r < this->r[0]) ? -1 : 0;
     ascnd = (this->r[1] > this->r[0]);
     
     il = 0;
@@ -95,9 +95,9 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
 
     if (il > nnr-1)
         return nnr-1;
-    else if (r < this->r[0])
+    else if (ascnd ? r < this->r[0] : r > this->r[0])
         return -1;
-    else if (r > this->r[nnr-1])
+    else if (ascnd ? r > this->r[nnr-1] : r < this->r[nnr-1])
         return nnr-1;
     else
         return il;
@@ -230,10 +230,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
-    if (ir == -1)
-        this->r.push_back(r);
-    else
-        this->r.insert(this->r.begin() + ir+1, r);
+    this->r.insert(this->r.begin() + ir+1, r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
-- 
2.43.0


From b1f720ecd170383ca3996cc7ed9b46661b14666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:51 +0000
Subject: [PATCH 25/67] fix: logarithmize distributions into the newly
 allocated array

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index b33843b..b3ed01c 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -193,11 +193,10 @@ void NumericDistributionFunction::InitializeLog(
 ) {
 	slibreal_t *tf;
 
-    if (alloc) {
+    if (alloc)
         tf = new slibreal_t[nr*np*nxi];
-        for (unsigned int i = 1; i < nr; i++)
-            tf[i] = tf[i-1] + np*nxi;
-    } else tf = f;
+    else
+        tf = f;
 
     for (unsigned int i = 0; i < nr*np*nxi; i++) {
 		if (f[i] <= 0)
@@ -288,7 +287,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
     }
 
     int idx = this->InsertMomentumSpaceDistribution(
-        np, nxi, r, p, xi, f, interptype
+        np, nxi, r, p, xi, tf, interptype
     );
 
     this->msdf[idx]->SetLogarithmic(true);
-- 
2.43.0


From 031f5dcfa73525589a4811685f5f9d5087d5b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:52 +0000
Subject: [PATCH 26/67] fix: copies of numeric distributions keep logarithm and
 extrapolation settings

---
 src/DistributionFunction/NumericDistributionFunction.cpp       | 3 +++
 .../NumericMomentumSpaceDistributionFunction.cpp               | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index b3ed01c..7e30812 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -308,6 +308,9 @@ NumericDistributionFunction *NumericDistributionFunction::MinClone() {
         );
     }
 
+    df->SetExtrapolationPermission(this->allowExtrapolation);
+    df->SetLogarithmic(this->logarithmic);
+
     return df;
 }
 
diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 9cd74d7..b761787 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -138,6 +138,7 @@ NumericMomentumSpaceDistributionFunction *NumericMomentumSpaceDistributionFuncti
 
     df->Initialize(this->np, this->nxi, this->p, this->xi, this->f, this->interptype);
     df->FlipPitchSign(this->flipPitchSign);
+    df->SetLogarithmic(this->logarithmic);
     return df;
 }
 
-- 
2.43.0


From 6290d4cbb3d1b63d5a798b5920518f7f8beaee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:11 +0000
Subject: [PATCH 27/67] fix: giving a setting a new value does not mark it as
 used

---
 src/Configuration/ConfigBlock.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 563c66f..d13e896 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -54,12 +54,18 @@ ConfigBlock::~ConfigBlock() {
 Setting *ConfigBlock::AddSetting(Setting *set) {
     if (HasSetting(set->GetName())) {
         // Replace setting
-        Setting *s = GetSetting(set->GetName());
-        s->OverwriteValues(set);
+        // (without marking it as used, hence not 'GetSetting()')
+        for (Setting *s : this->settings) {
+            if (s->HasName(set->GetName())) {
+                s->OverwriteValues(set);
 
-        delete set;
+                delete set;
 
-        return s;
+                return s;
+            }
+        }
+
+        return nullptr;
     } else {
         this->settings.push_back(set);
         return set;
-- 
2.43.0


From 287c32a4b7ac7ed8749edd6a257b6d817c6dbd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:12 +0000
Subject: [PATCH 28/67] fix: sub-blocks of copied and merged blocks belong to
 the new block

---
 src/Configuration/ConfigBlock.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index d13e896..ee18a49 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -10,7 +10,7 @@ using namespace std;
 /**
  * Constructor & Destructor
  */
-ConfigBlock::ConfigBlock() { }
+ConfigBlock::ConfigBlock() : type(0), parent(nullptr) { }
 ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
     this->type = cb->GetType();
     this->name = cb->GetName();
@@ -19,8 +19,10 @@ ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
 
     // Copy sub-blocks
     vector<ConfigBlock*> sub = cb->GetAllSubBlocks();
-    for (unsigned int i = 0; i < sub.size(); i++)
+    for (unsigned int i = 0; i < sub.size(); i++) {
         subblocks.push_back(new ConfigBlock(sub.at(i)));
+        subblocks.back()->SetParent(this);
+    }
 
     // Copy settings
     vector<Setting*> set = cb->GetAllSettings();
@@ -88,6 +90,7 @@ ConfigBlock *ConfigBlock::AddSubBlock(ConfigBlock *cb) {
     if (HasSubBlock(cb->GetType(), cb->GetName())) {
         return GetConfigBlock(cb->GetType(), cb->GetName());
     } else {
+        cb->SetParent(this);
         this->subblocks.push_back(cb);
         return cb;
     }
-- 
2.43.0


From 94a693e83d7b20ed2a0bd4f0f4de300db9fd7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:13 +0000
Subject: [PATCH 29/67] fix: merged blocks own a copy of new settings

---
 src/Configuration/ConfigBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index ee18a49..ea6b4ff 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -328,7 +328,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 		if (this->HasSetting(set[i]->GetName()))
 			this->MergeSetting(set[i]);
 		else if (allowNew) {
-			this->AddSetting(set[i]);
+			this->AddSetting(set[i]->Copy());
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(set[i]->GetName());
-- 
2.43.0


From c0579f60c7ac78d1d5f365f6efc3478318d48ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:15 +0000
Subject: [PATCH 30/67] fix: only complete numbers in range are scalars

---
 src/Configuration/Script/SettingScript.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 6af9591..86ac1fa 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -242,14 +242,17 @@ bool SettingScript::IsScalar() const {
 }
 bool SettingScript::IsScalar(unsigned int i) const {
 	const string& value = this->values.at(i);
+	size_t end = 0;
 
 	try {
-		stod(value, NULL);
+		stod(value, &end);
 	} catch (invalid_argument& e) {
 		return false;
+	} catch (out_of_range& e) {
+		return false;
 	}
 
-	return true;
+	return (end == value.length());
 }
 
 /**
@@ -260,11 +263,8 @@ bool SettingScript::IsScalar(unsigned int i) const {
 bool SettingScript::IsNumericVector() const {
 	size_t l = this->values.size();
 	for (size_t i = 0; i < l; i++) {
-		try {
-			stod(this->values[i], NULL);
-		} catch (invalid_argument& e) {
+		if (!IsScalar(i))
 			return false;
-		}
 	}
 
 	return true;
-- 
2.43.0


From 3bcafd602b5dbd5c5bde60ee4e097c850d70139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:16 +0000
Subject: [PATCH 31/67] fix: unsigned integer settings must be non-negative and
 fit their type

---
 src/Configuration/Script/SettingScript.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 86ac1fa..28f3c13 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -1,4 +1,6 @@
 
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -182,8 +184,14 @@ bool SettingScript::IsUnsignedInteger32(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    // 'stoul()' accepts (and wraps) negative numbers, and
+    // may have more than 32 bits
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
-        stoul(value, &end);
+        if (stoul(value, &end) > numeric_limits<uint32_t>::max())
+            return false;
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
@@ -218,6 +226,10 @@ bool SettingScript::IsUnsignedInteger64(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    // 'stoull()' accepts (and wraps) negative numbers
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
         stoull(value, &end);
     } catch (invalid_argument& e) {
-- 
2.43.0


From 72f188612458552db607d2362633cdec2a3be2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 32/67] fix: comments may end at the end of the configuration

---
 src/Configuration/Script/Lexer.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ee8a881..eb9615e 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -43,15 +43,11 @@ char ConfigurationScript::nextc() {
 		switch (c) {
 			case '#':
 				// Ignore all characters til end-of-line (or file)
-				do {
-					if (this->cnfbufferpos >= this->cnfbufferlength)
-						break;
-
-					c = this->cnfbuffer[this->cnfbufferpos++];
-				} while (c != 0 && c != '\n');
-
-				// Handle the newline or EOF in a new iteration
-				this->cnfbufferpos--;
+				// (the newline or EOF is handled in a new iteration)
+				while (this->cnfbufferpos < this->cnfbufferlength &&
+					   this->cnfbuffer[this->cnfbufferpos] != 0 &&
+					   this->cnfbuffer[this->cnfbufferpos] != '\n')
+					this->cnfbufferpos++;
 
 				break;
 			case '\n':
-- 
2.43.0


From 9cf2db97d94f4487a610060e2d7f010f0cd83623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:15 +0000
Subject: [PATCH 33/67] fix: quoted text may be empty or a single symbol

---
 .../softlib/Configuration/ConfigurationScript.h |  4 ++--
 src/Configuration/Script/Lexer.cpp              | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index e36c1bd..a79f99a 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -119,8 +119,8 @@ private:
 
 	void initbuffer(const std::string&);
 	char nextc();
-	ConfigToken *gettkn(std::string&, ConfigToken*);
-	void pushbuffer(std::string&, std::vector<ConfigToken*>&);
+	ConfigToken *gettkn(std::string&, ConfigToken*, bool quoted=false);
+	void pushbuffer(std::string&, std::vector<ConfigToken*>&, bool quoted=false);
 
 	/* Interpreter properties/methods */
 	std::vector<ConfigToken*>::iterator tknstream;
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index eb9615e..9d3a7fc 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -71,9 +71,10 @@ char ConfigurationScript::nextc() {
 
 	return 0;
 }
-ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
-	// First we check for simple tokens
-	if (s == "=") {
+ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev, bool quoted) {
+	// First we check for simple tokens (quoted text is never a symbol)
+	if (quoted) {
+	} else if (s == "=") {
 		return new ConfigToken(CTKN_EQUALS, s, prev, this->linecounter, this->charpos, this->file);
     } else if (s == "(") {
         return new ConfigToken(CTKN_LPAR, s, prev, this->linecounter, this->charpos, this->file);
@@ -105,16 +106,16 @@ ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
 	// Else, it must be a name.
 	return new ConfigToken(CTKN_NAME, s, prev, this->linecounter, this->charpos, this->file);
 }
-void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns) {
-	if (buffer.empty()) return;
+void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns, bool quoted) {
+	if (buffer.empty() && !quoted) return;
 
     ConfigToken *ct;
 	if (tkns.empty())
 		//tkns.push_back(gettkn(buffer, NULL));
-        ct = gettkn(buffer, nullptr);
+        ct = gettkn(buffer, nullptr, quoted);
 	else
 		//tkns.push_back(gettkn(buffer, &(tkns.back())));
-        ct = gettkn(buffer, tkns.back());
+        ct = gettkn(buffer, tkns.back(), quoted);
 
     tkns.push_back(ct);
 }
@@ -195,7 +196,7 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 
 		switch (c) {
 			case '"': {
-				pushbuffer(buffer, tkns);
+				pushbuffer(buffer, tkns, this->instring);
 				buffer.clear();
 				this->instring = !this->instring;
 			} break;
-- 
2.43.0


From d13b7d289888c2d3275b2c202cb0fa60ed3e9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:16 +0000
Subject: [PATCH 34/67] fix: do not read beyond the end of the token stream
 after an error

---
 src/Configuration/Script/Interpreter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index efe6b18..e56dc3b 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -36,6 +36,9 @@ bool ConfigurationScript::advance() {
  *   at the first match in this array.
  */
 bool ConfigurationScript::advanceTo(std::initializer_list<conftoken_t> args) {
+	// There is nothing beyond EOF
+	if (tokent() == CTKN_EOF) return false;
+
 	do {
 		ConfigToken *tkn = *(this->tknstream+1);
 
-- 
2.43.0


From b75cac3e7e588dbd5520dd1a9396663da3e74944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:33 +0000
Subject: [PATCH 35/67] fix: an empty configuration is not a syntax error

---
 src/Configuration/Script/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index e56dc3b..37cc117 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -194,6 +194,7 @@ ConfigBlock *ConfigurationScript::Interpret(vector<ConfigToken*>& tkns) {
 						blck = blck->GetParent();
 					else throw ConfigurationException(currline(), currcharpos(), currfile(), "Syntax error: Mismatched '{'.");
 				} break;
+				case CTKN_EOF: break;		// Empty configuration
 				default:
 					const string toks = ttos(tokent());
 					throw ConfigurationException(currline(), currcharpos(), currfile(), "Syntax error: Expected name or block-type, but got " + toks);
-- 
2.43.0


From 9917af92bf70e55d23064e225459baf4f3bf62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:34 +0000
Subject: [PATCH 36/67] fix: errors in included configuration files name that
 file

---
 src/Configuration/Script/Lexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 9d3a7fc..bfbbb42 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -136,14 +136,14 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
 
     if (!cfile.is_open())
         throw ConfigurationException(
-            this->linecounter, this->charpos, this->filename,
+            this->linecounter, this->charpos, this->file,
             "Unable to open included configuration file '%s'.",
             name.c_str()
         );
 
     // Save current state
-    oldname = this->filename;
-    this->filename = name;
+    oldname = this->file;
+    this->file = name;
     
     oldbuf = this->cnfbuffer;
     bufpos = this->cnfbufferpos;
@@ -168,7 +168,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     this->cnfbufferlength = buflen;
     this->cnfbufferpos = bufpos;
     this->cnfbuffer = oldbuf;
-    this->filename = oldname;
+    this->file = oldname;
 
     return tkns;
 }
-- 
2.43.0


From ee3240cf354f6ddc1110b6d3b4b945eaa20b463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 37/67] fix: SDT matrices were returned without copying them,
 so that reading a variable twice used freed memory

---
 src/SFile/SFile_SDT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 2acaad7..ef6c7f5 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -141,7 +141,11 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
 
-    return it->second.value;
+    for (sfilesize_t i = 0; i < dims[0]; i++)
+        for (sfilesize_t j = 0; j < dims[1]; j++)
+            narr[i][j] = it->second.value[i][j];
+
+    return narr;
 }
 
 /**
-- 
2.43.0


From 658af076279e183bd7f9b705a301868f1c390283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 38/67] fix: SDT column vectors were refused, and matrices
 accepted, as vectors

---
 src/SFile/SFile_SDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index ef6c7f5..50427b7 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -217,7 +217,7 @@ double *SFile_SDT::GetDoubles1D(const string &name, sfilesize_t *dims) {
 
     if (it->second.nrows == 1)
         *dims = it->second.ncols;
-    else if (it->second.ncols != 1)
+    else if (it->second.ncols == 1)
         *dims = it->second.nrows;
     else
         throw SFileException("The requested variable is not a vector: '%s'.", name.c_str());
-- 
2.43.0


From 30b0dbe559b0d79f112bad62cde554a75f0ff714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 39/67] fix: SDT files that could not be opened were silently
 taken as empty

---
 src/SFile/SFile_SDT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 50427b7..5b7f77d 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -51,6 +51,8 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             Load();
             Close();
             break;
@@ -59,10 +61,14 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             break;
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
     }
+
+    this->filename = filename;
 }
 
 /**
-- 
2.43.0


From fb0e939ca11cb90fba21e7d1b4b75a6c9caf934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 40/67] fix: opening an SDT file for update did not load its
 variables and overwrote them

---
 src/SFile/SFile_SDT.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 5b7f77d..0f446ed 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -57,7 +57,14 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
             Close();
             break;
         case SFILE_MODE_UPDATE:
-            sdtfile.open(filename, ios::in | ios::out);
+            sdtfile.open(filename, ios::in);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
+            Load();
+            Close();
+            sdtfile.open(filename, ios::out | ios::app);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
-- 
2.43.0


From 7363b89806a828a16543ef2a0ac33d948c09ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 41/67] fix: SDT files held only six digits of each number

---
 src/SFile/SFile_SDT.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 0f446ed..faddabb 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -32,6 +32,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <softlib/SFile.h>
 #include <softlib/SFileException.h>
@@ -345,6 +346,9 @@ void SFile_SDT::WriteNumArray(const string& name, const T *const* arr, sfilesize
     // Definition string
     sdtfile << "@matrix " << name << " " << nrows << " " << ncols << endl;
 
+    // Use enough digits to recover the exact value
+    sdtfile.precision(numeric_limits<double>::max_digits10);
+
     for (sfilesize_t i = 0; i < nrows; i++) {
         for (sfilesize_t j = 0; j < ncols; j++) {
             sdtfile << arr[i][j] << " ";
@@ -388,6 +392,7 @@ void SFile_SDT::WriteUInt64Array(const string& name, const uint64_t *const* arr,
 void SFile_SDT::WriteAttribute_scalar(const string& datasetname, const string& name, const double val) {
     string att_name = GetAttributeName(datasetname, name);
 
+    sdtfile.precision(numeric_limits<double>::max_digits10);
     sdtfile << "@matrix " << att_name << " 1 1" << endl << val << endl << endl;
 }
 void SFile_SDT::WriteAttribute_string(const string& datasetname, const string& name, const string& val) {
-- 
2.43.0


From 4c22a7f571e309dee90d28034d1b77f130985d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 42/67] fix: lines of white space in SDT files were taken as a
 repeated variable type

---
 src/SFile/SFile_SDT.load.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 928dff5..8214b1c 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -21,7 +21,8 @@ void SFile_SDT::Load() {
             continue;
 
         stringstream ss(line);
-        ss >> type;
+        if (!(ss >> type))
+            continue;
 
         if (type == "@matrix") {
             string name;
-- 
2.43.0


From 389147c8928650cfd2dd217a06f62eec3ba74172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 43/67] fix: SDT matrices without rows were written out of
 bounds

---
 src/SFile/SFile_SDT.load.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 8214b1c..e8dd39c 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -60,6 +60,9 @@ void SFile_SDT::Load() {
  * ncols: Number of columns of matrix.
  */
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
+    if (nrows == 0)
+        throw SFileException("Matrix '%s' has no rows.", name.c_str());
+
     slibreal_t **vals = new slibreal_t*[nrows];
     vals[0] = new slibreal_t[nrows*ncols];
 
@@ -73,7 +76,7 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
 
         for (sfilesize_t j = 0; j < ncols; j++) {
             if (!(ss >> vals[i][j]))
-                throw SFileException("Invalid format of matrix '%s' at index (%u, %u).", name.c_str(), i, j);
+                throw SFileException("Invalid format of matrix '%s' at index (%llu, %llu).", name.c_str(), (unsigned long long)i, (unsigned long long)j);
         }
     }
 
-- 
2.43.0


From f63714d112c78e0bec66d5183787d70d50f66bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 44/67] fix: reading a one-dimensional array as a
 multidimensional one ran out of bounds

---
 src/SFile/SFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 669d152..39c5dfa 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -100,6 +100,10 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 	if (ptr == nullptr)
 		return nullptr;
 
+	// One-dimensional arrays need no further pointers
+	if (ndims <= 1)
+		return (void*)ptr;
+
 	// Convert to multidimensional pointer
 	sfilesize_t nel = 1;
 	for (sfilesize_t i = 0; i < ndims; i++)
-- 
2.43.0


From 087e549f48e9dd2c420801202a33e6182f270590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 45/67] fix: HDF5 file objects that were never opened freed an
 uninitialised pointer

---
 src/SFile/SFile_HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 49a994b..fa8a54c 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -14,7 +14,7 @@
 using namespace H5;
 using namespace std;
 
-SFile_HDF5::SFile_HDF5() {
+SFile_HDF5::SFile_HDF5() : file(nullptr) {
     // Disable HDF5 error messages
     H5::Exception::dontPrint();
 }
-- 
2.43.0


From 8bbd8d31ca5e2d940f15c9d5f457a905515de2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 46/67] fix: HDF5 variables with more than two, or no,
 dimensions were read out of bounds as matrix or vector

---
 src/SFile/SFile_HDF5.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index fa8a54c..a354ff8 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -207,7 +207,12 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(dims);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims > 2)
+		throw SFileException("%s: The requested variable has more than two dimensions: '%s'.", filename.c_str(), name.c_str());
+
+	dims[0] = dims[1] = 1;
+	dspace.getSimpleExtentDims(dims);
 	
 	if (ndims == 1) {
         dims[1] = dims[0];
@@ -270,7 +275,12 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(d);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims > 2)
+		throw SFileException("%s: The requested variable has more than two dimensions: '%s'.", sf->filename.c_str(), name.c_str());
+
+	d[0] = d[1] = 1;
+	dspace.getSimpleExtentDims(d);
 	
 	if (ndims == 1) {
         *dims = d[0];
-- 
2.43.0


From 92bf73b2fba4b732e4b6558987d98954aa1489e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 47/67] fix: HDF5 matrices were written out of bounds unless
 their rows were contiguous in memory

---
 src/SFile/SFile_HDF5.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index a354ff8..ae754da 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -386,8 +386,17 @@ void SFile_HDF5::WriteNumArray(
 	hsize_t dims[] = {rows, cols};
 	DataSpace dspace(2, dims);
 	DataSet dset = file->createDataSet(name, op, dspace);
-	dset.write(arr[0], ip);
+
+	// The rows need not be contiguous in memory
+	T *data = new T[rows*cols];
+	for (sfilesize_t i = 0; i < rows; i++)
+		for (sfilesize_t j = 0; j < cols; j++)
+			data[i*cols + j] = arr[i][j];
+
+	dset.write(data, ip);
 	dset.close();
+
+	delete [] data;
 }
 
 void SFile_HDF5::WriteArray(const string& name, const double *const* arr, sfilesize_t rows, sfilesize_t cols) {
-- 
2.43.0


From 1a45244d8e48dd0ff125dadaa78ed839cd8198ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 48/67] fix: reading a missing HDF5 attribute raised an
 exception of the HDF5 library

---
 src/SFile/SFile_HDF5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index ae754da..3a3409f 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -133,7 +133,7 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         attr.read(type, &s);
 
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
@@ -154,7 +154,7 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
 
         attr.read(type, s);
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
-- 
2.43.0


From 3cb58a36aaa94ce1dc935fe5af392d664bfb9039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 49/67] fix: writing multidimensional integer arrays to MAT
 files always failed

---
 src/SFile/SFile_MAT.HDF5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e682640..8621f36 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -299,19 +299,19 @@ void SFile_MAT::WriteMultiArray(const string& name, const double *arr, const sfi
 }
 void SFile_MAT::WriteMultiInt32Array(const string& name, const int32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt32Array(name, arr, ndims, dims);
-    WriteString(name, "int32");
+    WriteMATLAB_class(name, "int32");
 }
 void SFile_MAT::WriteMultiInt64Array(const string& name, const int64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt64Array(name, arr, ndims, dims);
-    WriteString(name, "int64");
+    WriteMATLAB_class(name, "int64");
 }
 void SFile_MAT::WriteMultiUInt32Array(const string& name, const uint32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt32Array(name, arr, ndims, dims);
-    WriteString(name, "uint32");
+    WriteMATLAB_class(name, "uint32");
 }
 void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt64Array(name, arr, ndims, dims);
-    WriteString(name, "uint64");
+    WriteMATLAB_class(name, "uint64");
 }
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
-- 
2.43.0


From 02c3fbd10da547fe923e8570a3012cdf7dae9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 50/67] fix: month in MAT file header read out of bounds in
 January and was one too early otherwise

---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 8621f36..1d3f2d3 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -73,7 +73,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
 
     int
         dayw = local_tm.tm_wday,
-        imon = local_tm.tm_mon-1,
+        imon = local_tm.tm_mon,
         iday = local_tm.tm_mday,
         hour = local_tm.tm_hour,
         minute = local_tm.tm_min,
-- 
2.43.0


From a01d53a70d8cf669225a71eae0a4fe6f76a98141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:56 +0000
Subject: [PATCH 51/67] fix: reading a string from a MAT file leaked memory

---
 src/SFile/SFile_MAT.HDF5.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 1d3f2d3..aa53273 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -217,6 +217,7 @@ string SFile_MAT::GetString(const string& name) {
         delete [] arr;
 
         s = str;
+        delete [] str;
     } else if (type.getClass() == H5T_STRING) {
         dataset.read(s, type, dspace);
     } else {
-- 
2.43.0


From 315083ed81c8756ee733762dd305f59674f256d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:37 +0000
Subject: [PATCH 52/67] fix: reading a string from a MAT file overflowed its
 buffers for variables of more than one row and column

---
 src/SFile/SFile_MAT.HDF5.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index aa53273..e964b04 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -194,16 +194,17 @@ string SFile_MAT::GetString(const string& name) {
     DataSpace dspace = dataset.getSpace();
 
     sfilesize_t dims[2]={0,0};
-    sfilesize_t n = dspace.getSimpleExtentDims(dims);
+    sfilesize_t n = dspace.getSimpleExtentNdims();
     if (n != 1 && n != 2)
         throw SFileException("Invalid number of dimensions (%llu) for string: %s.", n, name.c_str());
+    dspace.getSimpleExtentDims(dims);
     
     if (type == PredType::STD_U16LE) {
         sfilesize_t len;
         if (n == 1)
             len = dims[0];
         else
-            len = (dims[1]==1?dims[0]:dims[1]);
+            len = dims[0]*dims[1];
 
         unsigned short *arr = new unsigned short[len];
         dataset.read(arr, type, dspace);
-- 
2.43.0


From 79f158c38bf7a26f94b63ee9d4433b4f0303906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:57 +0000
Subject: [PATCH 53/67] fix: dense output read out of bounds before the first
 step and extrapolated for times before the start or out of order

---
 include/softlib/Integrator/RKDP45.tcc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 6496e0c..98ec83d 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -95,9 +95,22 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	unsigned int it = 0, i, j, indx;
 	slibreal_t T, s, s1, stepsize;
 
+	if (this->ntimesteps < 2 || rcont1 == NULL)
+		throw SOFTLibException("No dense output is available: no timestep has been taken with dense output enabled.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
+		if (T < this->time[0])
+			throw SOFTLibException(
+                "The requested tmin requires extrapolation. T = %e, tmin = %e",
+                T, this->time[0]
+            );
+
+		/* Times need not be given in order */
+		while (it > 0 && T < this->time[it])
+			it--;
+
 		/* Find next time */
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
-- 
2.43.0


From 2e3e36f8fe601d0103c8cfa869d01a2bff02705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:06 +0000
Subject: [PATCH 54/67] fix: colormap scaled values by the upper limit instead
 of the width of the range, and converted values out of range to int

---
 include/softlib/ImageGenerator/ImageColormap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index 55b8e2a..16b4d9a 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -32,22 +32,22 @@ public:
     }
 
     scolor_t Eval(const slibreal_t v) {
-        int l;
+        unsigned int l;
         slibreal_t i, f;
 
-        i = ((v-vmin)/vmax * (ncolors-1));
-        l = floor(i);
+        i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
 
         scolor_t clr;
-        if (l >= ((int)ncolors)-1) {
+        if (i >= (slibreal_t)(ncolors-1)) {
             clr.red   = colors[ncolors-1].red;
             clr.green = colors[ncolors-1].green;
             clr.blue  = colors[ncolors-1].blue;
-        } else if (l < 0) {
+        } else if (!(i >= 0)) {     // Also if 'v' is not a number
             clr.red   = colors[0].red;
             clr.green = colors[0].green;
             clr.blue  = colors[0].blue;
         } else {
+            l = (unsigned int)floor(i);
             f = i - (slibreal_t)l;
 
             // Linearly interpolate in colors
-- 
2.43.0


From 692706d72e615f4aba0826d8740049e960149aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:07 +0000
Subject: [PATCH 55/67] fix: generating an image without giving a colormap
 crashed

---
 src/ImageGenerator/ImageGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageGenerator/ImageGenerator.cpp b/src/ImageGenerator/ImageGenerator.cpp
index b92871d..4f02aea 100644
--- a/src/ImageGenerator/ImageGenerator.cpp
+++ b/src/ImageGenerator/ImageGenerator.cpp
@@ -34,6 +34,9 @@ void ImageGenerator::gen(
     enum image_type type, const std::string& name, const slibreal_t *img,
     const unsigned int nrows, const unsigned int ncols, ImageColormap *colormap
 ) {
+    if (colormap == nullptr)
+        return gen(type, name, img, nrows, ncols, COLORMAP_GERIMAP);
+
     ImageGenerator *igen = GetImageGenerator(type);
     igen->SaveImage(name, img, nrows, ncols, colormap);
     delete igen;
-- 
2.43.0


From 8c0df780eeb6f98e1bea7dc7c57aa0a42981ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:09 +0000
Subject: [PATCH 56/67] fix: images that could not be written to a PPM file
 were lost silently

---
 src/ImageGenerator/ImageGeneratorPPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ImageGenerator/ImageGeneratorPPM.cpp b/src/ImageGenerator/ImageGeneratorPPM.cpp
index c993506..873d75f 100644
--- a/src/ImageGenerator/ImageGeneratorPPM.cpp
+++ b/src/ImageGenerator/ImageGeneratorPPM.cpp
@@ -19,6 +19,8 @@ void ImageGeneratorPPM::SaveImage(
 ) {
     ofstream file;
     file.open(name);
+    if (!file.is_open())
+        throw SOFTLibException("Unable to create PPM file.");
 
     /********************
      * Write PPM header *
-- 
2.43.0


From 0fe1e92806f97663058759b59dc9a2285781ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:10 +0000
Subject: [PATCH 57/67] fix: saving a PNG image leaked the pixels

---
 src/ImageGenerator/ImageGeneratorPNG.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageGenerator/ImageGeneratorPNG.cpp b/src/ImageGenerator/ImageGeneratorPNG.cpp
index ba59e96..a3f1bc8 100644
--- a/src/ImageGenerator/ImageGeneratorPNG.cpp
+++ b/src/ImageGenerator/ImageGeneratorPNG.cpp
@@ -83,5 +83,8 @@ void ImageGeneratorPNG::SaveImage(
 
     png_destroy_write_struct(&png_ptr, &info_ptr);
     fclose(f);
+
+    delete [] png->pixels;
+    delete png;
 }
 
-- 
2.43.0


From 16104df76f1b2708e71eaa4809e649550a54d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:07 +0000
Subject: [PATCH 58/67] fix: contours without two coordinates per point were
 read out of bounds

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index fea57b3..8a14f16 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -603,7 +603,9 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             _zwall = _temp[1];
             this->nwall = fs[1];
             delete [] _temp;
-        } else {
+        } else if (fs[1] != 2)
+            throw SOFTLibException(filename+": The wall must be given as points with two coordinates.");
+        else {
             this->nwall = fs[0];
             _rwall = new slibreal_t[this->nwall];
             _zwall = new slibreal_t[this->nwall];
@@ -629,7 +631,9 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             _zsep = _temp[1];
             this->nsep = fs[1];
             delete [] _temp;
-        } else {
+        } else if (fs[1] != 2)
+            throw SOFTLibException(filename+": The separatrix must be given as points with two coordinates.");
+        else {
             this->nsep = fs[0];
             _rsep = new slibreal_t[this->nsep];
             _zsep = new slibreal_t[this->nsep];
-- 
2.43.0


From 4c58592ceea710377d0e49f3e0dbefbbbd8fd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:22 +0000
Subject: [PATCH 59/67] fix: a field without flux loaded after one with flux
 crashed

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 8a14f16..2aa7968 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -691,8 +691,10 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
                 this->Psi[i + j*this->nr] = (slibreal_t)_Psi[j][i];
         
         this->hasFluxCoordinates = true;
-    } else
+    } else {
         this->Psi = nullptr;
+        this->hasFluxCoordinates = false;
+    }
 	
 	delete [] _maxis;
 	delete [] _Rgrid, delete [] _Zgrid;
-- 
2.43.0


From 26875c6d3d5dc7566ff967f845e989205d533dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:32 +0000
Subject: [PATCH 60/67] fix: loading and saving a magnetic field leaked the
 file and the flux

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 2aa7968..86da31d 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -653,6 +653,7 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	}
 
 	sf->Close();
+	delete sf;
 	
 	/* Convert doubles to 'slibreal_t' */
 	this->name = name;
@@ -691,6 +692,9 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
                 this->Psi[i + j*this->nr] = (slibreal_t)_Psi[j][i];
         
         this->hasFluxCoordinates = true;
+
+        delete [] _Psi[0];
+        delete [] _Psi;
     } else {
         this->Psi = nullptr;
         this->hasFluxCoordinates = false;
@@ -828,5 +832,6 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 	}
 
 	sf->Close();
+	delete sf;
 }
 
-- 
2.43.0


From 7584047b353de76f512ab333acb5e4c145702931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:08 +0000
Subject: [PATCH 61/67] fix: loading a LUKE equilibrium leaked the files and
 the flux surfaces

---
 src/MagneticField/MagneticFieldLUKE.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index cfc1963..4a7cd0e 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -267,6 +267,7 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 	gsl_interp_accel_free(zaccZ);
 
 	sf->Close();
+	delete sf;
 
 	delete [] _xgpsi;
 	delete [] _ygpsi;
@@ -278,7 +279,8 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 	delete [] _Bt[0], delete [] _Bt;
 	delete [] _Bz[0], delete [] _Bz;
 
-	delete [] _pty, delete [] _ptx;
+	delete [] _pty[0], delete [] _pty;
+	delete [] _ptx[0], delete [] _ptx;
 
 	LoadWall(wallname, walltype);
 }
@@ -331,6 +333,9 @@ void MagneticFieldLUKE::LoadWall(const string& wallname, enum sfile_type walltyp
 				wallname.c_str(), fs[0], fs[1]
 			);
 
+		sf->Close();
+		delete sf;
+
 		delete [] _wall[0];
 		delete [] _wall;
 	}
-- 
2.43.0


From 632285c48d687809af61ff0c90a416966e6289b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:10 +0000
Subject: [PATCH 62/67] fix: CODE distributions with more modes than momenta
 wrote out of bounds

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 1b6883d..8ef2dff 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -304,7 +304,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-    this->interp = new gsl_interp*[this->np];
+    this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
         switch (interptype) {
             case INTERPOLATION_LINEAR:
-- 
2.43.0


From d6d84d97113864a406794a0ecf47f3373a42b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:11 +0000
Subject: [PATCH 63/67] fix: CODE distributions with a single mode wrote out of
 bounds

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 8ef2dff..403b607 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -188,7 +188,7 @@ void CODEDistributionFunction::ComputeLegendrePolynomials(
     slibreal_t n;
 
     legmodes[0] = 1.0;
-    if (Nleg >= 1)
+    if (Nleg > 1)
         legmodes[1] = xi;
 
     for (i = 0; i < Nleg-2; i++) {
-- 
2.43.0


From 71344284f0729226cd44479e70171fbe19445697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:13 +0000
Subject: [PATCH 64/67] fix: converting a CODE distribution left wrong Legendre
 polynomials stored

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 403b607..36fe38a 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -380,6 +380,7 @@ NumericMomentumSpaceDistributionFunction *CODEDistributionFunction::ToMomentumSp
     ff = new slibreal_t[nnxi*np];
     for (i = 0; i < nnxi; i++) {
         ComputeLegendrePolynomials(this->legendre, txi[i], this->nleg);
+        this->xileg = txi[i];
 
         for (j = 0; j < np; j++) {
             elindex = i*np + j;
-- 
2.43.0


From 0be280de26293ad85c8d991fc34ebd23701004af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:14 +0000
Subject: [PATCH 65/67] fix: loading CODE and GO+CODE distributions leaked the
 file

---
 src/DistributionFunction/CODEDistributionFunction.cpp   | 1 +
 src/DistributionFunction/GOCODEDistributionFunction.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 36fe38a..c4f38d9 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -71,6 +71,7 @@ void CODEDistributionFunction::Load(const string& fname, int time, int interptyp
     this->Load(sf, time, interptype, path);
     
     sf->Close();
+    delete sf;
 }
 void CODEDistributionFunction::Load(SFile *sf, int time, int interptype, const string& path) {
     double **tf, **ty, **tdelta, **tNxi, **tnref, **tTref;
diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 668dc36..f8bdfba 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -199,6 +199,9 @@ void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf,
 
         this->code[i] = new CODEDistributionFunction(sf, 0, interptype, groupname);
     }
+
+    sf->Close();
+    delete sf;
 }
 
 /**
-- 
2.43.0


From a548d4c81c6debdba88052e3b646b4b9fdf8ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:16 +0000
Subject: [PATCH 66/67] fix: GO+CODE distributions were extrapolated wrongly,
 and with one radius read out of bounds

---
 .../GOCODEDistributionFunction.cpp                    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index f8bdfba..2deb5e6 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -43,10 +43,13 @@ slibreal_t GOCODEDistributionFunction::Eval(
             throw SOFTLibException("GOCODEDistributionFunction: No data avilable for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
     }
 
-    unsigned int ir = (unsigned int)__FindNearestR(rho);
+    if (this->nr == 1)
+        return this->code[0]->Eval(p, xi);
+
+    int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (ir == 0) {
+    if (ir <= 0) {
         r0 = 0;
         r1 = this->rho[0];
         slibreal_t r2 = this->rho[1], f2;
@@ -54,9 +57,9 @@ slibreal_t GOCODEDistributionFunction::Eval(
         f1 = this->code[0]->Eval(p, xi);
         f2 = this->code[1]->Eval(p, xi);
         f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if (ir >= this->nr-1) {
+    } else if (ir >= (int)this->nr-1) {
         r0 = this->rho[this->nr-1];
-        r1 = r0 + (2*r0 - this->rho[nr-2]);
+        r1 = 2*r0 - this->rho[nr-2];
 
         f0 = this->code[this->nr-1]->Eval(p, xi);
         f1 = 2*f0 - this->code[this->nr-2]->Eval(p, xi);
-- 
2.43.0


From 1c7356cb32ce17b64c05f19f4a0c3a4fca673e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:18 +0000
Subject: [PATCH 67/67] fix: destroying an empty GO+CODE distribution crashed

---
 .../softlib/DistributionFunction/GOCODEDistributionFunction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
index 6535726..2ca6c9f 100644
--- a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
+++ b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
@@ -9,8 +9,8 @@
 class GOCODEDistributionFunction : public DistributionFunction {
     private:
         unsigned int nr;
-        slibreal_t *rho;
-        CODEDistributionFunction **code;
+        slibreal_t *rho=nullptr;
+        CODEDistributionFunction **code=nullptr;
 
         slibreal_t rhomin, rhomax;
 
-- 
2.43.0

