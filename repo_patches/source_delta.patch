From 4663e00b68d1d12971fa29de153fa57fbcc1aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 01/26] fix: default-constructed vectors and matrices own no
 memory

---
 src/LinearAlgebra/Models/Matrix.h | 5 ++---
 src/LinearAlgebra/Models/Vector.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LinearAlgebra/Models/Matrix.h b/src/LinearAlgebra/Models/Matrix.h
index 6693ec9..46ae833 100644
--- a/src/LinearAlgebra/Models/Matrix.h
+++ b/src/LinearAlgebra/Models/Matrix.h
@@ -93,6 +93,7 @@ protected:
     Matrix<T>::Matrix() {
         this->row = 0;
         this->col = 0;
+        this->values = nullptr;
     }
 
 
@@ -154,9 +155,7 @@ protected:
     template<class T>
     Matrix<T>& Matrix<T>::operator=(const Matrix<T>& _mat){
         if(this != &_mat){
-            if(this->row != 0 && this->col != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->row = _mat.row;
             this->col = _mat.col;
diff --git a/src/LinearAlgebra/Models/Vector.h b/src/LinearAlgebra/Models/Vector.h
index 9102884..48b78c4 100644
--- a/src/LinearAlgebra/Models/Vector.h
+++ b/src/LinearAlgebra/Models/Vector.h
@@ -83,6 +83,7 @@ protected:
     template<class T>
     Vector<T>::Vector(){
         this->size = 0;
+        this->values = nullptr;
     }
 
 
@@ -156,9 +157,7 @@ protected:
     template<class T>
     Vector<T>& Vector<T>::operator=(const Vector<T>& _vec){
         if(this != &_vec){
-            if(this->size != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->size = _vec.size;
             this->values = new T[this->size];
-- 
2.43.0


From 2153eaf493cf24f837fa4e32fa53dce474d6bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 02/26] fix: scaling a CSR matrix from the left by its own
 scalar type compiles

---
 src/LinearAlgebra/Models/CSR.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/LinearAlgebra/Models/CSR.h b/src/LinearAlgebra/Models/CSR.h
index 85e8527..3f92bc3 100644
--- a/src/LinearAlgebra/Models/CSR.h
+++ b/src/LinearAlgebra/Models/CSR.h
@@ -167,16 +167,6 @@ inline T CSR<T>::get(int _row, int _col) const {
 }
 
 
-template<class F>
-inline CSR<F> operator*(F _a, const CSR<F>& _m) {
-	CSR<F> m = CSR<F>(_m);
-	for (auto& datai : m.data) {
-		datai *= _a;
-	}
-	return m;
-}
-
-
 template<class T1, class T2>
 inline const CSR<T1> operator+(const CSR<T1>& _m1, const CSR<T2>& _m2) {
 	assert(_m1.ROWS == _m2.ROWS && _m1.COLS == _m2.COLS);
-- 
2.43.0


From 571417bbb564350ad4544c6c5c173b4149864842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:53 +0000
Subject: [PATCH 03/26] fix: iterative solvers return zero for a zero
 right-hand side

The relative residual |r|/|b| is 0/0 then, and every solver ran into NaN and reported failure.
---
 src/LinearAlgebra/Solvers/CG.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 4f08b25..962d103 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -129,6 +129,10 @@ std::vector<T> CG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps) {
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T rkrk = std::inner_product(rk.begin(), rk.end(), rk.begin(), T());
 
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -165,6 +169,10 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -209,6 +217,10 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for(int k = 0; k < _itrmax; k++) {
 		xeaxpbypcz(beta, pk, 1.0, rk, -beta, uk);
@@ -326,6 +338,10 @@ std::vector<T> ILU0CG(CSR<T>& _A, CSR<T>& _M, const std::vector<T>& _b, int _itr
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 	
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -363,6 +379,10 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Mpk = PreILU0(_M, pk);		//Preconditioning
@@ -427,6 +447,10 @@ std::vector<T> ScalingCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _e
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
@@ -465,6 +489,10 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Mpk = Scaling(D, pk);		//Preconditioning
@@ -542,6 +570,10 @@ std::vector<T> SORCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps,
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
+	if (bnorm == T()) {
+		return xk;			//{x}={0} for {b}={0}
+	}
+
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
 		std::vector<T> Apk = _A*pk;
-- 
2.43.0


From 5451e5159874cb565009d9d3af6d48903fe983c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:53 +0000
Subject: [PATCH 04/26] fix: BiCGSTAB family stops when the half step already
 solves the system

omega (and zeta) were 0/0 when the intermediate residual vanishes, for instance
for a system of order one, a multiple of the identity or an exact preconditioner:
the solution became NaN and failure was reported.
---
 src/LinearAlgebra/Solvers/CG.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 962d103..7fa6107 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -178,6 +178,10 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 		std::vector<T> Apk = _A*pk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), Apk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, Apk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, pk);
+			return xk;
+		}
 		std::vector<T> Ask = _A*sk;
 		T omega = std::inner_product(Ask.begin(), Ask.end(), sk.begin(), T())/std::inner_product(Ask.begin(), Ask.end(), Ask.begin(), T());
 		xeaxpbypcz(1.0, xk, alpha, pk, omega, sk);
@@ -228,6 +232,10 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), Apk.begin(), T());
 		std::vector<T> yk = zeavpbwpcxpdy(1.0, tkm1, -1.0, rk, -alpha, wk, alpha, Apk);
 		std::vector<T> tk = zeaxpby(1.0, rk, -alpha, Apk);
+		if (sqrt(std::inner_product(tk.begin(), tk.end(), tk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, pk);
+			return xk;
+		}
 		T zeta, ita;
 		std::vector<T> Atk = _A*tk;
 		T Att = std::inner_product(Atk.begin(), Atk.end(), tk.begin(), T());
@@ -389,6 +397,10 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 		std::vector<T> AMpk = _A*Mpk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), AMpk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, Mpk);
+			return xk;
+		}
 		std::vector<T> Msk = PreILU0(_M, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
 		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
@@ -499,6 +511,10 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 		std::vector<T> AMpk = _A*Mpk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), AMpk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, Mpk);
+			return xk;
+		}
 		std::vector<T> Msk = Scaling(D, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
 		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
-- 
2.43.0


From de90a2ab0ef264b19aefc06f1e3269c06e89750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:36 +0000
Subject: [PATCH 05/26] fix: general shifted-invert Lanczos starts from a
 B-normalised vector

The recurrence needs q'Bq=1; with the 2-norm the first row of the tridiagonal
matrix was scaled by q0'Bq0 and every eigenvalue was wrong unless that is one.
---
 src/LinearAlgebra/Solvers/Lanczos.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index b0631fa..72e516f 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -251,8 +251,10 @@ void GeneralShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>& _eigenv
     std::vector<T> beta = std::vector<T>(_m);                                                           //  Values of side of diagonal
     std::vector<std::vector<T> > q = std::vector<std::vector<T> >(_m, std::vector<T>(_A.ROWS, T()));    //  Orthogonal vectors
     q[0] = GetDiagonal(A);
-    xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T q0norm = sqrt(std::inner_product(q[0].begin(), q[0].end(), p.begin(), T()));
+    xexda(q[0], q0norm);
+    xexda(p, q0norm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
@@ -291,8 +293,10 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
     std::vector<T> beta = std::vector<T>(_m);                                                           //  Values of side of diagonal
     std::vector<std::vector<T> > q = std::vector<std::vector<T> >(_m, std::vector<T>(_A.ROWS, T()));    //  Orthogonal vectors
     q[0] = GetDiagonal(A);
-    xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T q0norm = sqrt(std::inner_product(q[0].begin(), q[0].end(), p.begin(), T()));
+    xexda(q[0], q0norm);
+    xexda(p, q0norm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
-- 
2.43.0


From c4ca6554953c58b7aceed34cfe1b39525fc84ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 06/26] fix: general restart Lanczos reorthogonalises along q,
 not Bq

Removing the B-component of s along q[i] must subtract a multiple of q[i];
subtracting Bq[i] adds an error instead of removing one.
---
 src/LinearAlgebra/Solvers/Lanczos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index 72e516f..fcfc339 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -304,7 +304,7 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
         std::vector<T> s = ScalingCG(A, p, itrmax, 1.0e-10);
         for(int i = 0; i < k - 2; i++) {
             std::vector<T> Bq = _B*q[i];
-            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), Bq);
+            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), q[i]);
         }
         if(k != 0){
             xexpay(s, -beta[k - 1], q[k - 1]);
-- 
2.43.0


From 4eb0f50bc6358ca9170daea11d963269fbd40777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:45 +0000
Subject: [PATCH 07/26] fix: inverse iteration survives an exact eigenvalue

A pivot of T-lambda*E that is exactly zero (lambda found exactly, always possible
for one Lanczos step) turned the eigenvector into NaN.
---
 src/LinearAlgebra/Solvers/Lanczos.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index fcfc339..8af2e98 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -90,13 +90,21 @@ std::vector<T> InversePowerMethod(const std::vector<T>& _alpha, const std::vecto
 
     std::vector<T> p = std::vector<T>(m);
     std::vector<T> q = std::vector<T>(m);
+    T tiny = T();                                   //  Replaces a pivot that vanishes because lambda is exact
+    for(int i = 0; i < m; i++){
+        tiny = std::max(tiny, T(1.0e-16)*(T)(fabs(_alpha[i]) + fabs(_beta[i])));
+    }
     for(int k = 0; k < 10000; k++){
         //.....Solve [T - lambda*E]{ykp1}={yk} with Thomas method.....
-        p[0] = -_beta[0]/(_alpha[0] - _lambda);
-        q[0] = yk[0]/(_alpha[0] - _lambda);
+        T d = _alpha[0] - _lambda;
+        d = d == T() ? tiny : d;
+        p[0] = -_beta[0]/d;
+        q[0] = yk[0]/d;
         for(int i = 1; i < m; i++){
-            p[i] = -_beta[i]/((_alpha[i] - _lambda) + _beta[i - 1]*p[i - 1]);
-            q[i] = (yk[i] - _beta[i - 1]*q[i - 1])/((_alpha[i] - _lambda) + _beta[i - 1]*p[i - 1]);
+            d = (_alpha[i] - _lambda) + _beta[i - 1]*p[i - 1];
+            d = d == T() ? tiny : d;
+            p[i] = -_beta[i]/d;
+            q[i] = (yk[i] - _beta[i - 1]*q[i - 1])/d;
         }
 
         yk[m - 1] = q[m - 1];
-- 
2.43.0


From 5eb8ef2a9d5bf0b645760f0291643ce40f2c41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:04 +0000
Subject: [PATCH 08/26] fix: the 20-node cube lists each of its nodes once

The spurious thirteenth entry shifted the positions of the eight nodes behind it.
---
 src/FEM/Controller/ShapeFunction.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/FEM/Controller/ShapeFunction.h b/src/FEM/Controller/ShapeFunction.h
index 19a14ab..b60ce5f 100644
--- a/src/FEM/Controller/ShapeFunction.h
+++ b/src/FEM/Controller/ShapeFunction.h
@@ -354,7 +354,6 @@ public:
 																	{ 1.0, T(), -1.0 },
 																	{ T(), 1.0, -1.0 },
 																	{ -1.0, T(), -1.0 },
-																	{ -1.0, 1.0, 1.0 },
 																	{ T(), -1.0, 1.0 },
 																	{ 1.0, T(), 1.0 },
 																	{ T(), 1.0, 1.0 },
-- 
2.43.0


From 853f93d2286915de7e15a577c9327763b9f79b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:36 +0000
Subject: [PATCH 09/26] fix: weak springs act on every listed degree of freedom

---
 src/FEM/Equation/General.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FEM/Equation/General.h b/src/FEM/Equation/General.h
index 586f275..fad4b22 100644
--- a/src/FEM/Equation/General.h
+++ b/src/FEM/Equation/General.h
@@ -127,7 +127,7 @@ namespace PANSFEM2 {
 		_nodetoelement = std::vector<std::vector<std::pair<int, int> > >(_element.size(), std::vector<std::pair<int, int> >(n));
 		for(int i = 0; i < _element.size(); i++) {
             for(int j = 0; j < n; j++) {
-                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i);
+                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i + j);
             }
 		}
 
-- 
2.43.0


From 97dc321fd2dc5f46dd6d544d732f6b16cca2f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 10/26] fix: B-bar stiffness keeps the coupling of an
 anisotropic law

---
 src/FEM/Equation/Homogenization.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FEM/Equation/Homogenization.h b/src/FEM/Equation/Homogenization.h
index b0b27d6..cc49a36 100644
--- a/src/FEM/Equation/Homogenization.h
+++ b/src/FEM/Equation/Homogenization.h
@@ -205,7 +205,14 @@ namespace PANSFEM2 {
 				Bvol(2, 2*n) = T();				Bvol(2, 2*n + 1) = T();	
 			}
 
-			_Ke += Bvol.Transpose()*_D*Bvol*J*_t*ICV<T>::Weights[g][0]*ICV<T>::Weights[g][1];
+			Matrix<T> Bdev = Matrix<T>(3, 2*_element.size());
+			for (int n = 0; n < _element.size(); n++) {
+				Bdev(0, 2*n) = 0.5*dNdX(0, n);	Bdev(0, 2*n + 1) = -0.5*dNdX(1, n);			
+				Bdev(1, 2*n) = -0.5*dNdX(0, n);	Bdev(1, 2*n + 1) = 0.5*dNdX(1, n);	
+				Bdev(2, 2*n) = dNdX(1, n);		Bdev(2, 2*n + 1) = dNdX(0, n);	
+			}
+
+			_Ke += (Bvol.Transpose()*_D*(Bvol + Bdev) + Bdev.Transpose()*_D*Bvol)*J*_t*ICV<T>::Weights[g][0]*ICV<T>::Weights[g][1];
 		}
 
 		//----------Integraion deviation strain term----------
-- 
2.43.0


From 67b25e86305d8246ccd90d3020967c5b69a68b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:45 +0000
Subject: [PATCH 11/26] fix: finite-deformation plane strain elements use the
 thickness

---
 src/FEM/Equation/PlaneStrain.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/FEM/Equation/PlaneStrain.h b/src/FEM/Equation/PlaneStrain.h
index 9019649..260e2cd 100644
--- a/src/FEM/Equation/PlaneStrain.h
+++ b/src/FEM/Equation/PlaneStrain.h
@@ -287,7 +287,7 @@ namespace PANSFEM2 {
 				BL(2, 2*n) = F(0, 1)*dNdX(0, n) + F(0, 0)*dNdX(1, n);	BL(2, 2*n + 1) = F(1, 1)*dNdX(0, n) + F(1, 0)*dNdX(1, n);
 			}
 
-			_Ke += BL.Transpose()*D*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*D*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> E = (Z + Z.Transpose() + Z.Transpose()*Z)/2.0;
 			Vector<T> Ev = Vector<T>({ E(0, 0), E(1, 1), E(0, 1) + E(1, 0) });
@@ -305,9 +305,9 @@ namespace PANSFEM2 {
 			Matrix<T> S10 = Sv(2)*Identity<T>(2);	Matrix<T> S11 = Sv(1)*Identity<T>(2);
 			Matrix<T> S = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
 
-			_Ke += BNL.Transpose()*S*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*S*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
@@ -360,7 +360,7 @@ namespace PANSFEM2 {
 				BL(1, 2*n) = T();			BL(1, 2*n + 1) = dNdx(1, n);
 				BL(2, 2*n) = dNdx(1, n);	BL(2, 2*n + 1) = dNdx(0, n);
 			}
-			_Ke += BL.Transpose()*C*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*C*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> S = (mu0/detF)*(F*F.Transpose() - Identity<T>(2)) + (lambda0*log(detF)/detF)*Identity<T>(2);
 			Matrix<T> BNL = Matrix<T>(4, 2*_element.size());
@@ -373,10 +373,10 @@ namespace PANSFEM2 {
 			Matrix<T> S00 = S(0, 0)*Identity<T>(2);	Matrix<T> S01 = S(0, 1)*Identity<T>(2);
 			Matrix<T> S10 = S(1, 0)*Identity<T>(2);	Matrix<T> S11 = S(1, 1)*Identity<T>(2);
 			Matrix<T> Sm = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
-			_Ke += BNL.Transpose()*Sm*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*Sm*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Vector<T> Sv = { S(0, 0), S(1, 1), S(0, 1) };
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
-- 
2.43.0


From 922ce85e475e110d46870a67a96374fe0a172591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:15 +0000
Subject: [PATCH 12/26] fix: Stokes stiffness couples the velocity components
 as the stress divergence does

---
 src/FEM/Equation/Stokes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FEM/Equation/Stokes.h b/src/FEM/Equation/Stokes.h
index cbd8490..249e45d 100644
--- a/src/FEM/Equation/Stokes.h
+++ b/src/FEM/Equation/Stokes.h
@@ -58,8 +58,8 @@ namespace PANSFEM2 {
             Matrix<T> K = Matrix<T>(2*m + n, 2*m + n);
             for(int i = 0; i < m; i++) {
                 for(int j = 0; j < m; j++) {
-                    K(i, j) = 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);    K(i, j + m) = _mu*dMdX(0, i)*dMdX(1, j);
-                    K(i + m, j) = _mu*dMdX(1, i)*dMdX(0, j);                                K(i + m, j + m) = _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);  
+                    K(i, j) = 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);    K(i, j + m) = _mu*dMdX(1, i)*dMdX(0, j);
+                    K(i + m, j) = _mu*dMdX(0, i)*dMdX(1, j);                                K(i + m, j + m) = _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);  
                 }
                 for(int j = 0; j < n; j++) {
                     K(i, j + 2*m) = -N(j)*dMdX(0, i);
-- 
2.43.0


From 06a231311ed76930e544b6aa3ed9bfacac90b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 13/26] fix: Navier-Stokes tangent puts the viscous cross terms
 in the cross blocks

---
 src/FEM/Equation/NavierStokes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FEM/Equation/NavierStokes.h b/src/FEM/Equation/NavierStokes.h
index b2b6dfa..bc63032 100644
--- a/src/FEM/Equation/NavierStokes.h
+++ b/src/FEM/Equation/NavierStokes.h
@@ -81,10 +81,10 @@ namespace PANSFEM2 {
             Matrix<T> K = Matrix<T>(2*m + n, 2*m + n);
             for(int i = 0; i < m; i++){
                 for(int j = 0; j < m; j++){
-                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j) + _mu*dMdX(1, i)*dMdX(0, j);	
-					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0);																	
-                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1);																		
-					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(1, j) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
+                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);	
+					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0) + _mu*dMdX(1, i)*dMdX(0, j);																	
+                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1) + _mu*dMdX(0, i)*dMdX(1, j);																		
+					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
                 }
                 for(int j = 0; j < n; j++){
 					K(i, j + 2*m) = -dMdX(0, i)*N(j);
-- 
2.43.0


From ea67a35cb589e54a00010c2a5e20d6f436a014e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:17 +0000
Subject: [PATCH 14/26] fix: convergence test of the optimisers works for a
 negative objective

---
 src/Optimize/Solver/CONLIN.h | 2 +-
 src/Optimize/Solver/MMA.h    | 2 +-
 src/Optimize/Solver/OC.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index 19d4500..a2d8dcc 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -80,7 +80,7 @@ private:
 
     template<class T>
     bool CONLIN<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index e15daa3..4a6c692 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -106,7 +106,7 @@ private:
 
     template<class T>
     bool MMA<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/OC.h b/src/Optimize/Solver/OC.h
index 7312ef1..bf93a63 100644
--- a/src/Optimize/Solver/OC.h
+++ b/src/Optimize/Solver/OC.h
@@ -66,7 +66,7 @@ private:
 
     template<class T>
     bool OC<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue)/(_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue)/fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
-- 
2.43.0


From 56ae8a62c915d4842dbdd2bafe8b9cfdf06ad949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 15/26] fix: MMA and CONLIN build the reduced system correctly
 with at least as many constraints as variables

---
 src/Optimize/Solver/CONLIN.h | 4 +++-
 src/Optimize/Solver/MMA.h    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index a2d8dcc..6a46e05 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -249,9 +249,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj];
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index 4a6c692..186687f 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -301,9 +301,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj];
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
-- 
2.43.0


From e5c6791a7da9a36ec3025a7a9bcb05e024e35048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:47 +0000
Subject: [PATCH 16/26] fix: the density filter's sensitivities are the
 derivative of the filtered functional

---
 src/Optimize/Filter/DensityFilter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Filter/DensityFilter.h b/src/Optimize/Filter/DensityFilter.h
index ce40c4c..4f041e2 100644
--- a/src/Optimize/Filter/DensityFilter.h
+++ b/src/Optimize/Filter/DensityFilter.h
@@ -62,10 +62,11 @@ private:
         for(int i = 0; i < this->n; i++){
             T wsum = T();
             for(int j = 0; j < this->neighbors[i].size(); j++){
-                dfds[i] += _dfdrho[this->neighbors[i][j]]*this->w[i][j];
                 wsum += this->w[i][j];
             }
-            dfds[i] /= wsum;       
+            for(int j = 0; j < this->neighbors[i].size(); j++){
+                dfds[this->neighbors[i][j]] += _dfdrho[i]*this->w[i][j]/wsum;
+            }
         }
         return dfds;
     }
-- 
2.43.0


From 771052f14bdd7ba265dddad3b2c4b962d82ef615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:48 +0000
Subject: [PATCH 17/26] fix: frame mesh selects fixed nodes by their actual
 coordinates

---
 src/PrePost/Mesher/SquareAnnulusMesh.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PrePost/Mesher/SquareAnnulusMesh.h b/src/PrePost/Mesher/SquareAnnulusMesh.h
index 3d6cf8c..3818763 100644
--- a/src/PrePost/Mesher/SquareAnnulusMesh.h
+++ b/src/PrePost/Mesher/SquareAnnulusMesh.h
@@ -102,28 +102,28 @@ private:
         for(int i = 0; i < this->nt + 1; i++){
             T t = i/(T)this->nt;
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*0.5*this->a + t*0.5*this->c, (1 - t)*this->b*(j/(T)this->ny - 0.5) + t*this->d*(j/(T)this->ny - 0.5) }))) {
+                if(_iscorrespond(Vector<T>({ t*0.5*this->a + (1 - t)*0.5*this->c, t*this->b*(j/(T)this->ny - 0.5) + (1 - t)*this->d*(j/(T)this->ny - 0.5) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(0.5 - j/(T)this->nx) + t*this->c*(0.5 - j/(T)this->nx), (1 - t)*0.5*this->b + t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(0.5 - j/(T)this->nx) + (1 - t)*this->c*(0.5 - j/(T)this->nx), t*0.5*this->b + (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ -(1 - t)*0.5*this->a - t*0.5*this->c, (1 - t)*this->b*(0.5 - j/(T)this->ny) + t*this->d*(0.5 - j/(T)this->ny) }))) {
+                if(_iscorrespond(Vector<T>({ -t*0.5*this->a - (1 - t)*0.5*this->c, t*this->b*(0.5 - j/(T)this->ny) + (1 - t)*this->d*(0.5 - j/(T)this->ny) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny + this->nx, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(j/(T)this->nx - 0.5) + t*this->c*(j/(T)this->nx - 0.5), -(1 - t)*0.5*this->b - t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(j/(T)this->nx - 0.5) + (1 - t)*this->c*(j/(T)this->nx - 0.5), -t*0.5*this->b - (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + 2*this->ny + this->nx, ui }, T() });
                     }
-- 
2.43.0


From c41b60cb54e505ebe13c6201347288ac41117bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 18/26] fix: Delaunay swaps a side only inside a convex
 quadrilateral

---
 src/PrePost/Mesher/Delaunay.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 57f43a2..1501a6a 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -636,11 +636,11 @@ private:
 				T r0 = this->nodes[this->elements[nowstack].nodes[1]].distance(this->nodes[this->elements[nowstack].nodes[2]]);
 				T r1 = this->nodes[this->elements[nowstack].nodes[0]].distance(this->nodes[this->elements[neighbortri].nodes[neighbornode]]);
 				if ((r0 > r1
+					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenump1)
+					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenumm1))
 					&& this->elements[nowstack].inouton(this->elements[neighbortri].nodes[neighbornode], this->nodes) == -1
 					&& this->elements[neighbortri].inouton(this->elements[nowstack].nodes[0], this->nodes) == -(neighbornode + 1)
-					&& this->elements[nowstack].sides[0] == false)
-					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenump1)
-					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenumm1)) {
+					&& this->elements[nowstack].sides[0] == false) {
 					
 					Element<T> tmpelement = Element<T>(this->elements[neighbortri]);
 
-- 
2.43.0


From fe4cd8a709132b29873bbbf7b080ee7ecd9f7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:43 +0000
Subject: [PATCH 19/26] fix: Delaunay's super triangle keeps clear of the
 outline

Its sides were tangent to the circle through the farthest node, so that a
node could lie on (or next to) a side and the outline was lost.
---
 src/PrePost/Mesher/Delaunay.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 1501a6a..7e861e7 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -287,7 +287,7 @@ private:
 		
 		//Generate SuperTriangle
 		for (int i = 0; i < 3; i++) {
-			this->nodes.push_back(Node<T>(-2.0*rmax*sin(2.0*M_PI*i/3.0), 2.0*rmax*cos(2.0*M_PI*i/3.0)));
+			this->nodes.push_back(Node<T>(-20.0*rmax*sin(2.0*M_PI*i/3.0), 20.0*rmax*cos(2.0*M_PI*i/3.0)));
 		}
 		this->elements.push_back(Element<T>(this->nodes.size() - 3, this->nodes.size() - 2, this->nodes.size() - 1));
 	}
-- 
2.43.0


From dee9d2e348b524af063af5eefe1b6ebb7f1ed632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:42 +0000
Subject: [PATCH 20/26] fix: Delaunay's smoothing does not turn elements over

---
 src/PrePost/Mesher/Delaunay.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 7e861e7..d2caf6a 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -722,11 +722,20 @@ private:
 					nowelement = this->elements[nowelement].neighbors[(this->elements[nowelement].nodeorder(i) + 1)%3];
 				} while (nowelement != startelement);
 
+				Vector<T> xbefore = this->nodes[i].x;
 				this->nodes[i].x = Vector<T>(2); 
 				for (auto j : stack) {
 					this->nodes[i].x += this->nodes[this->elements[j].nodes[(this->elements[j].nodeorder(i) + 1)%3]].x;
 				}
 				this->nodes[i].x /= (T)stack.size();
+
+				//.....keep node if some element around it would be turned over.....
+				for (auto j : stack) {
+					if (this->nodes[this->elements[j].nodes[0]].vecpro(this->nodes[this->elements[j].nodes[1]], this->nodes[this->elements[j].nodes[2]]) <= T()) {
+						this->nodes[i].x = xbefore;
+						break;
+					}
+				}
 			}
 		}
 	}
-- 
2.43.0


From c237caf80b2594c8a15a568d0112f118cdd4dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:19 +0000
Subject: [PATCH 21/26] fix: VTK import finds points, cells and fields in any
 order

Every request scanned on from the previous one and gave an empty answer for
anything before it in the file.  Also corrects the misspelt #pragma once.
---
 src/PrePost/Import/ImportFromVTK.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/PrePost/Import/ImportFromVTK.h b/src/PrePost/Import/ImportFromVTK.h
index a9b3837..8ffc6c2 100644
--- a/src/PrePost/Import/ImportFromVTK.h
+++ b/src/PrePost/Import/ImportFromVTK.h
@@ -6,7 +6,7 @@
 //*****************************************************************************
 
 
-#pragma oncce
+#pragma once
 #include <vector>
 #include <iostream>
 #include <fstream>
@@ -39,6 +39,8 @@ private:
         int mode = 0;           //  1:import POINT_DATA     2:import CELL_DATA
         int pointssize = 0;
         int cellssize = 0;
+
+        void rewind();          //  Go back to the beginning of file
     };
 
 
@@ -61,8 +63,17 @@ private:
     }
 
 
+    template<class T>
+    void ImportModelFromVTK<T>::rewind(){
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
+        this->mode = 0;
+    }
+
+
     template<class T>
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportPOINTS(){
+        this->rewind();
         std::string linestrings;
         std::vector<Vector<T> > nodes;
         while (getline(this->ifs, linestrings)) {
@@ -96,6 +107,7 @@ private:
 
     template<class T>
     std::vector<std::vector<int> > ImportModelFromVTK<T>::ImportCELLS(){
+        this->rewind();
         std::string linestrings;
         std::vector<std::vector<int> > elements;
         while (getline(this->ifs, linestrings)) {
@@ -132,6 +144,7 @@ private:
 
     template<class T>
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportPOINTVECTORS(std::string _keyword){
+        this->rewind();
         std::string linestrings;
         std::vector<Vector<T> > pointvectors;
         while (getline(this->ifs, linestrings)) {
@@ -167,6 +180,7 @@ private:
 
     template<class T>
     std::vector<T> ImportModelFromVTK<T>::ImportPOINTSCALARS(std::string _keyword){
+        this->rewind();
         std::string linestrings;
         std::vector<T> pointscalars;
         while (getline(this->ifs, linestrings)) {
@@ -201,6 +215,7 @@ private:
 
     template<class T>
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportCELLVECTORS(std::string _keyword){
+        this->rewind();
         std::string linestrings;
         std::vector<Vector<T> > cellvectors;
         while (getline(this->ifs, linestrings)) {
@@ -236,6 +251,7 @@ private:
 
     template<class T>
     std::vector<T> ImportModelFromVTK<T>::ImportCELLSCALARS(std::string _keyword){
+        this->rewind();
         std::string linestrings;
         std::vector<T> cellscalars;
         while (getline(this->ifs, linestrings)) {
-- 
2.43.0


From 5953f745c87981761676c918e39a083013559d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 22/26] fix: Delaunay works at any size of domain

---
 src/PrePost/Mesher/Delaunay.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index d2caf6a..b51c913 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -19,7 +19,6 @@
 
 
 #define SELFEPS0 1.0e-10
-#define SELFEPS1 1.0e-10
 
 
 namespace PANSFEM2{
@@ -152,17 +151,22 @@ private:
 		T vecpro4 = _nodes[this->nodes[1]].vecpro(_nodes[this->nodes[0]], _nodes[_nodenum]);
 		T vecpro5 = _nodes[this->nodes[2]].vecpro(_nodes[this->nodes[1]], _nodes[_nodenum]);
 
-		if (vecpro2 > T() && (vecpro0 < T() || (fabs(vecpro0) <= SELFEPS0 && vecpro5 > T()))) {
+		//	Tolerances relative to the length of the sides
+		T eps0 = SELFEPS0*pow(_nodes[this->nodes[0]].distance(_nodes[this->nodes[1]]), 2.0);
+		T eps1 = SELFEPS0*pow(_nodes[this->nodes[1]].distance(_nodes[this->nodes[2]]), 2.0);
+		T eps2 = SELFEPS0*pow(_nodes[this->nodes[2]].distance(_nodes[this->nodes[0]]), 2.0);
+
+		if (vecpro2 > T() && (vecpro0 < -eps0 || (fabs(vecpro0) <= eps0 && vecpro5 > T()))) {
 			return -3;
-		} else if (vecpro0 > T() && (vecpro1 < T() || (fabs(vecpro1) <= SELFEPS0 && vecpro3 > T()))) {
+		} else if (vecpro0 > T() && (vecpro1 < -eps1 || (fabs(vecpro1) <= eps1 && vecpro3 > T()))) {
 			return -1;
-		} else if (vecpro1 > T() && (vecpro2 < T() || (fabs(vecpro2) <= SELFEPS0 && vecpro4 > T()))) {
+		} else if (vecpro1 > T() && (vecpro2 < -eps2 || (fabs(vecpro2) <= eps2 && vecpro4 > T()))) {
 			return -2;
-		} else if (fabs(vecpro0) <= SELFEPS1) {
+		} else if (fabs(vecpro0) <= eps0) {
 			return 3;
-		} else if (fabs(vecpro1) <= SELFEPS1) {
+		} else if (fabs(vecpro1) <= eps1) {
 			return 1;
-		} else if (fabs(vecpro2) <= SELFEPS1) {
+		} else if (fabs(vecpro2) <= eps2) {
 			return 2;
 		}
 		return 0;
-- 
2.43.0


From 7ea36a7f865c7ae596a0fe7e2a14d4bc47fb7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 23/26] fix: bisection counts signs by ratios (no under- or
 overflow)

---
 src/LinearAlgebra/Solvers/Lanczos.h | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index 8af2e98..2e5f1e2 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -47,26 +47,19 @@ T BisectionMethod(const std::vector<T>& _alpha, const std::vector<T>& _beta, int
         }
     }
 
-    T a1 = -b, a2 = b, lambda;
+    T a1 = -b, a2 = b, lambda = T(), tiny = 1.0e-16*b;
     while((a2 - a1) > 1.0e-13*b){
         //----------Update lambda----------
         lambda = 0.5*(a1 + a2);
 
         //----------Count sign change----------
-        T pkm1 = 1.0, pk = _alpha[0] - lambda, sign = 1.0;
-        int Nlambda = 0;
-        if(sign*pk < T()){
-            Nlambda++;
-            sign *= -1.0;
-        }
+        T qk = _alpha[0] - lambda;              //  Ratio of successive terms of the Sturm sequence
+        int Nlambda = qk < T() ? 1 : 0;
         for(int k = 0; k < m - 1; k++){
-            T pkp1 = (_alpha[k + 1] - lambda)*pk - pow(_beta[k], 2.0)*pkm1;
-            if(sign*pkp1 < T()){
+            qk = (_alpha[k + 1] - lambda) - pow(_beta[k], 2.0)/(qk == T() ? tiny : qk);
+            if(qk < T()){
                 Nlambda++;
-                sign *= -1.0;
             }
-            pkm1 = pk;
-            pk = pkp1;
         }
 
         //----------Update a1 and a2----------
-- 
2.43.0


From d3504610ca87321d751ace9f35f61836982610a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 24/26] fix: restarted Lanczos orthogonalises against every
 earlier vector

---
 src/LinearAlgebra/Solvers/Lanczos.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index 2e5f1e2..f763908 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -178,14 +178,14 @@ void RestartLanczos(CSR<T>& _A, std::vector<T>& _eigenvalues, std::vector<std::v
     //----------Lanczos process----------
     for(int k = 0; k < _m; k++){
         std::vector<T> p = _A*q[k];
-        for(int i = 0; i < k - 2; i++) {
-            xexpay(p, -std::inner_product(p.begin(), p.end(), q[i].begin(), T()), q[i]);
-        }
         if( k != 0){
             xexpay(p, -beta[k - 1], q[k - 1]);
         }
         alpha[k] = std::inner_product(q[k].begin(), q[k].end(), p.begin(), T());
         xexpay(p, -alpha[k], q[k]);
+        for(int i = 0; i <= k; i++) {
+            xexpay(p, -std::inner_product(p.begin(), p.end(), q[i].begin(), T()), q[i]);
+        }
         beta[k] = sqrt(std::inner_product(p.begin(), p.end(), p.begin(), T()));
         if(k != _m - 1){
             xeyda(q[k + 1], p, beta[k]);
@@ -303,15 +303,15 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
     //----------Lanczos process----------
     for(int k = 0; k < _m; k++){
         std::vector<T> s = ScalingCG(A, p, itrmax, 1.0e-10);
-        for(int i = 0; i < k - 2; i++) {
-            std::vector<T> Bq = _B*q[i];
-            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), q[i]);
-        }
         if(k != 0){
             xexpay(s, -beta[k - 1], q[k - 1]);
         }
         alpha[k] = std::inner_product(p.begin(), p.end(), s.begin(), T());
         xexpay(s, -alpha[k], q[k]);
+        for(int i = 0; i <= k; i++) {
+            std::vector<T> Bq = _B*q[i];
+            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), q[i]);
+        }
         std::vector<T> r = _B*s;
         beta[k] = sqrt(std::inner_product(r.begin(), r.end(), s.begin(), T()));
         xeyda(p, r, beta[k]);
-- 
2.43.0


From d5b08a5757a6c2b694db043e6c5a8f8cd8124403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 25/26] fix: Delaunay swaps only where both new triangles have
 an area

---
 src/PrePost/Mesher/Delaunay.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index b51c913..8006c11 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -644,6 +644,8 @@ private:
 					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenumm1))
 					&& this->elements[nowstack].inouton(this->elements[neighbortri].nodes[neighbornode], this->nodes) == -1
 					&& this->elements[neighbortri].inouton(this->elements[nowstack].nodes[0], this->nodes) == -(neighbornode + 1)
+					&& this->nodes[this->elements[nowstack].nodes[0]].vecpro(this->nodes[this->elements[nowstack].nodes[1]], this->nodes[this->elements[neighbortri].nodes[neighbornode]]) > SELFEPS0*r1*r1
+					&& this->nodes[this->elements[nowstack].nodes[0]].vecpro(this->nodes[this->elements[neighbortri].nodes[neighbornode]], this->nodes[this->elements[nowstack].nodes[2]]) > SELFEPS0*r1*r1
 					&& this->elements[nowstack].sides[0] == false) {
 					
 					Element<T> tmpelement = Element<T>(this->elements[neighbortri]);
-- 
2.43.0


From e83fb92a9e0174fe913b1d138c10aad68df522e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:18 +0000
Subject: [PATCH 26/26] fix: ScalingBiCGSTAB starts with the residual as search
 direction (was scaled twice)

---
 src/LinearAlgebra/Solvers/CG.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 7fa6107..b74c80e 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -497,7 +497,7 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 	std::vector<T> xk(_b.size(), T());
 	std::vector<T> rk = subtract(_b, _A*xk);
 	std::vector<T> rdash = rk;
-	std::vector<T> pk = Scaling(D, rk);
+	std::vector<T> pk = rk;
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
 
-- 
2.43.0

