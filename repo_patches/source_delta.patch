From 4c19fb0a6a14c218a869e4f50cf2943634b074aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 01/14] fix: MatrixPartitionedTyings: extract dependent (not
 prescribed) DOFs from DOF-values

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 7ffa962..83b35ac 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -483,7 +483,7 @@ private:
 
 #pragma omp parallel for
         for (size_t d = 0; d < m_nnd; ++d) {
-            dofval_d(d) = dofval(m_iip(d));
+            dofval_d(d) = dofval(m_iid(d));
         }
 
         return dofval_d;
-- 
2.43.0


From 6e01c9a076085e670bdb0a3dabe50778609df710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 02/14] fix: MatrixPartitionedTyingsSolver: include forces on
 dependent DOFs when solving with DOF-values

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 83b35ac..e7cd548 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -572,6 +572,8 @@ private:
         Eigen::VectorXd B_d = A.AsDofs_d(b);
         Eigen::VectorXd X_p = A.AsDofs_p(x);
 
+        B_u += A.m_Cud * B_d;
+
         Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
-- 
2.43.0


From 852f499fba92ebd291e207a26038d1316ab39deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 03/14] fix: MatrixPartitionedTyingsSolver: include forces on
 dependent DOFs in solve_u

---
 include/GooseFEM/MatrixPartitionedTyings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index e7cd548..3671780 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -632,7 +632,6 @@ public:
         array_type::tensor<double, 1>& x_u
     )
     {
-        UNUSED(b_d);
         GOOSEFEM_ASSERT(b_u.size() == A.m_nnu);
         GOOSEFEM_ASSERT(b_d.size() == A.m_nnd);
         GOOSEFEM_ASSERT(x_p.size() == A.m_nnp);
@@ -642,7 +641,8 @@ public:
 
         Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
+                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
+                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
                 A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
-- 
2.43.0


From 6d61f76171f88b66868949a4e9b7c4c4b4843e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 04/14] fix: solvers: never re-use a factorisation of other or
 older matrix data

---
 include/GooseFEM/Matrix.h                  | 30 +++++++++++++++++++---
 include/GooseFEM/MatrixPartitioned.h       | 11 +++++---
 include/GooseFEM/MatrixPartitionedTyings.h | 27 ++++++++++++-------
 3 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 4a25c46..2dbfed2 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -13,12 +13,30 @@
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
 
+#include <atomic>
+
 namespace GooseFEM {
 
 // forward declaration
 template <class>
 class MatrixSolver;
 
+namespace detail {
+
+/**
+ * Positive number that is different every time that the function is called.
+ * Used to relate a factorisation to the matrix-data from which it was computed.
+ *
+ * @return Unique number.
+ */
+inline size_t unique_version()
+{
+    static std::atomic<size_t> version{0};
+    return ++version;
+}
+
+} // namespace detail
+
 /**
  * CRTP base class for a solver class.
  */
@@ -207,6 +225,7 @@ protected:
     size_t m_ndof; ///< See ndof().
 
     bool m_changed = true; ///< Signal changes to data.
+    size_t m_version = 0; ///< Version of the data (updated by the solver if the data changed).
 
 public:
     /**
@@ -892,19 +911,22 @@ private:
 
 private:
     Solver m_solver; ///< Solver.
-    bool m_factor = true; ///< Signal to force factorization.
+    size_t m_version = 0; ///< Version of the matrix-data that is factorized (0: none).
 
     /**
      * Compute inverse (evaluated by "solve").
      */
     void factorize(Matrix& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_version = detail::unique_version();
+            A.m_changed = false;
+        }
+        if (m_version == A.m_version) {
             return;
         }
         m_solver.compute(A.m_A);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = A.m_version;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 1567d61..b661ca6 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -625,19 +625,22 @@ private:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_version = 0; ///< version of the matrix-data that is factorized (0: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitioned& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_version = detail::unique_version();
+            A.m_changed = false;
+        }
+        if (m_version == A.m_version) {
             return;
         }
         m_solver.compute(A.m_Auu);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = A.m_version;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 3671780..b607a97 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -649,17 +649,13 @@ public:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_version = 0; ///< version of the matrix-data that is factorized (0: none)
 
     /**
-     * compute inverse (evaluated by "solve")
+     * apply the tyings to the matrix
      */
-    void factorize(MatrixPartitionedTyings& A)
+    void condense(MatrixPartitionedTyings& A)
     {
-        if (!A.m_changed && !m_factor) {
-            return;
-        }
-
         A.m_ACuu = A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
 
         A.m_ACup = A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
@@ -669,10 +665,23 @@ private:
 
         // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
         //     + A.m_Cpd * A.m_Add * A.m_Cdp;
+    }
 
+    /**
+     * compute inverse (evaluated by "solve")
+     */
+    void factorize(MatrixPartitionedTyings& A)
+    {
+        if (A.m_changed) {
+            this->condense(A);
+            A.m_version = detail::unique_version();
+            A.m_changed = false;
+        }
+        if (m_version == A.m_version) {
+            return;
+        }
         m_solver.compute(A.m_ACuu);
-        m_factor = false;
-        A.m_changed = false;
+        m_version = A.m_version;
     }
 };
 
-- 
2.43.0


From b7dc25ac8126a295e37ac2afd3b0f58091313ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 05/14] fix: MatrixPartitionedBase::Reaction_p: use number of
 prescribed DOFs of the derived class

---
 include/GooseFEM/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 2dbfed2..1f64d48 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -574,7 +574,7 @@ public:
         const array_type::tensor<double, 1>& x_p
     ) const
     {
-        array_type::tensor<double, 1> b_p = xt::empty<double>({m_nnp});
+        array_type::tensor<double, 1> b_p = xt::empty<double>({this->nnp()});
         derived_cast().reaction_p_impl(x_u, x_p, b_p);
         return b_p;
     }
-- 
2.43.0


From 4004ee51fe3b8389df6ef5c3ec3a963ff8c2630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 06/14] fix: gradient of shape functions of general elements
 used the wrong index of the local gradient

---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ce37145..c077b6a 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1217,7 +1217,7 @@ private:
                     for (size_t m = 0; m < D::s_nne; ++m) {
                         for (size_t i = 0; i < D::s_ndim; ++i) {
                             for (size_t j = 0; j < D::s_ndim; ++j) {
-                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, i);
+                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, j);
                             }
                         }
                     }
-- 
2.43.0


From fcbbde42033974880047cb827d92bdec698d9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 07/14] fix: weight of the mid-point scheme of Quad4 is the
 area of the isoparametric domain

---
 include/GooseFEM/ElementQuad4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index bbb146e..cd03740 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -214,7 +214,7 @@ inline array_type::tensor<double, 1> w()
 
     array_type::tensor<double, 1> w = xt::empty<double>({nip});
 
-    w(0) = 1.0;
+    w(0) = 4.0;
 
     return w;
 }
-- 
2.43.0


From 4e6cbf26a360c37be4c400391d8ba1d4a8e729dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 08/14] fix: Hex8::FineLayer: open faces include the refinement
 nodes of the outermost layers

---
 include/GooseFEM/MeshHex8.h | 128 ++++++++++++++++++++----------------
 1 file changed, 72 insertions(+), 56 deletions(-)

diff --git a/include/GooseFEM/MeshHex8.h b/include/GooseFEM/MeshHex8.h
index c43367e..cafbf2b 100644
--- a/include/GooseFEM/MeshHex8.h
+++ b/include/GooseFEM/MeshHex8.h
@@ -1581,20 +1581,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy + 1 < nely) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1606,11 +1606,13 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
-                ret(j) = m_startNode(iy) + ix;
-                ++j;
+            if (iy > 0) {
+                for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+                    ret(j) = m_startNode(iy) + ix;
+                    ++j;
+                }
             }
             // -- refinement layer
             if (m_refine(iy) == 0) {
@@ -1622,7 +1624,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1631,9 +1633,11 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
-                ret(j) = m_startNode(iy + 1) + ix;
-                ++j;
+            if (iy + 1 < nely) {
+                for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+                    ret(j) = m_startNode(iy + 1) + ix;
+                    ++j;
+                }
             }
         }
 
@@ -1649,20 +1653,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 0) {
-                n += m_layer_nelx(iy) * 3 - 1;
+                n += m_layer_nelx(iy) * 2;
             }
-            else {
+            if (iy + 1 < nely) {
                 n += m_layer_nelx(iy) - 1;
             }
         }
@@ -1674,11 +1678,13 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
-                ret(j) = m_startNode(iy) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
-                ++j;
+            if (iy > 0) {
+                for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+                    ret(j) = m_startNode(iy) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
+                    ++j;
+                }
             }
             // -- refinement layer
             if (m_refine(iy) == 0) {
@@ -1691,7 +1697,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1701,9 +1707,11 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
-                ret(j) = m_startNode(iy + 1) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
-                ++j;
+            if (iy + 1 < nely) {
+                for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+                    ret(j) = m_startNode(iy + 1) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
+                    ++j;
+                }
             }
         }
 
@@ -1719,20 +1727,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy + 1 < nely) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1744,11 +1752,13 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
-                ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1);
-                ++j;
+            if (iy > 0) {
+                for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+                    ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1);
+                    ++j;
+                }
             }
             // -- refinement layer
             if (m_refine(iy) == 2) {
@@ -1760,7 +1770,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1769,9 +1779,11 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
-                ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1);
-                ++j;
+            if (iy + 1 < nely) {
+                for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+                    ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1);
+                    ++j;
+                }
             }
         }
 
@@ -1787,20 +1799,20 @@ private:
         // - initialize
         size_t n = 0;
         // - bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy > 0) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
         // - top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             if (m_refine(iy) == 2) {
-                n += m_layer_nelz(iy) * 3 - 1;
+                n += m_layer_nelz(iy) * 2;
             }
-            else {
+            if (iy + 1 < nely) {
                 n += m_layer_nelz(iy) - 1;
             }
         }
@@ -1812,11 +1824,13 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
-                ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
-                ++j;
+            if (iy > 0) {
+                for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+                    ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
+                    ++j;
+                }
             }
             // -- refinement layer
             if (m_refine(iy) == 2) {
@@ -1829,7 +1843,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1839,9 +1853,11 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
-                ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
-                ++j;
+            if (iy + 1 < nely) {
+                for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+                    ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
+                    ++j;
+                }
             }
         }
 
-- 
2.43.0


From 52c8bb827484bdc10890dbd650957f4f9f5cc345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:09 +0000
Subject: [PATCH 09/14] fix: StopList::all_less: not-a-number is not less than
 the tolerance

---
 include/GooseFEM/Iterate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 8ec4c3b..54f2497 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -90,7 +90,7 @@ public:
      */
     bool all_less(double tol) const
     {
-        return !std::any_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i >= tol; });
+        return std::all_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i < tol; });
     }
 
     /**
-- 
2.43.0


From ac59ea4317d53f5fa27cf47a4250e74a48b3d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 10/14] fix: Element::isSequential: detect DOFs that do not
 occur

---
 include/GooseFEM/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index c077b6a..35def70 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -103,8 +103,8 @@ inline bool isSequential(const E& dofs)
         exists[i]++;
     }
 
-    for (auto& i : dofs) {
-        if (exists[i] == 0) {
+    for (auto& n : exists) {
+        if (n == 0) {
             return false;
         }
     }
-- 
2.43.0


From f38bba54da3f5f4126a33c1b54f4f24202917fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 11/14] fix: Element::isDiagonal: inline, and no return from an
 OpenMP structured block

---
 include/GooseFEM/Element.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 35def70..3ea28af 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -119,7 +119,7 @@ inline bool isSequential(const E& dofs)
  * @param elemmat Element-vectors ("elemmat")
  * @return `true` if all element matrices are diagonal.
  */
-bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
+inline bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 {
     GOOSEFEM_ASSERT(elemmat.shape(1) == elemmat.shape(2));
 
@@ -128,7 +128,6 @@ bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 
     double eps = std::numeric_limits<double>::epsilon();
 
-#pragma omp parallel for
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
             for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From 47685a9236ea85b6358531e1932fc6f2d460402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 12/14] fix: elements per node of tied nodes beyond the highest
 node of the connectivity

---
 include/GooseFEM/Mesh.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index d7d5b84..321fd59 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2520,6 +2520,11 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
     auto ret = elem2node(conn, sorted);
     auto nties = nodaltyings(dofs);
 
+    // nodes beyond the highest node number of "conn" are part of no element
+    if (ret.size() < nnode) {
+        ret.resize(nnode);
+    }
+
     for (size_t m = 0; m < nnode; ++m) {
         if (nties[m].size() <= 1) {
             continue;
-- 
2.43.0


From 185d1dfaebf05ef1e0398d8319bcfbd34dd0c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 13/14] fix: Quad4::FineLayer: rebuild single layers, any
 element size, and any number of fine layers

---
 include/GooseFEM/MeshQuad4.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 28b8e74..de8cefa 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1097,11 +1097,11 @@ private:
         size_t eleft = emid;
         size_t eright = emid;
 
-        while (conn(eleft, 0) == conn(eleft - 1, 1) && eleft > 0) {
+        while (eleft > 0 && conn(eleft, 0) == conn(eleft - 1, 1)) {
             eleft--;
         }
 
-        while (conn(eright, 1) == conn(eright + 1, 0) && eright < conn.shape(0) - 1) {
+        while (eright < conn.shape(0) - 1 && conn(eright, 1) == conn(eright + 1, 0)) {
             eright++;
         }
 
@@ -1124,8 +1124,19 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely = static_cast<size_t>((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
-        this->init(nelx, nely, hx);
+        size_t nely =
+            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
+
+        // try to reproduce the mesh: with the default, or a higher number of fine layers
+        for (size_t nfine = 1; nfine <= nely; nfine += 2) {
+            this->init(nelx, nely, hx, nfine);
+            if (m_nelem == conn.shape(0) && m_nnode == coor.shape(0)) {
+                break;
+            }
+        }
+
+        GOOSEFEM_CHECK(m_nelem == conn.shape(0));
+        GOOSEFEM_CHECK(m_nnode == coor.shape(0));
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
         GOOSEFEM_CHECK(
-- 
2.43.0


From 3101fa14c68cb71454a02c1cf5ce608c8e33a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 14/14] fix: Quad4::FineLayer: selections around elements that
 cross the edge, or of a single layer

---
 include/GooseFEM/MeshQuad4.h | 126 +++++++++++++++++------------------
 1 file changed, 62 insertions(+), 64 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index de8cefa..80988f1 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -411,10 +411,10 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = (m_nhy.size() - 1) / 2;
         size_t nel = m_layer_nelx(iy);
 
-        GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
+        GOOSEFEM_WIP_ASSERT(e >= m_startElem(iy) && e < m_startElem(iy) + nel);
 
         auto H = xt::cumsum(m_nhy);
 
@@ -435,37 +435,8 @@ public:
         size_t relx = (e - m_startElem(iy)) % step;
         size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
         size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
-        size_t dx = m_nhx(u);
-        size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= size) {
-            xl = mid - size;
-        }
-        if (mid + size < nel) {
-            xu = mid + size + 1;
-        }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < size) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
-        }
-        if (xu - mid < size) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
-            }
-        }
 
-        auto ret = this->elementgrid_ravel({lh, uh}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+        return this->elementgrid_periodic({lh, uh}, m_nhx(u), mid, size, size, nroll);
     }
 
     /**
@@ -484,51 +455,23 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = (m_nhy.size() - 1) / 2;
         size_t nel = m_layer_nelx(iy);
 
-        GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
+        GOOSEFEM_WIP_ASSERT(e >= m_startElem(iy) && e < m_startElem(iy) + nel);
 
         size_t step = xt::amax(m_nhx)();
         size_t relx = (e - m_startElem(iy)) % step;
         size_t mid = (nel / step - (nel / step) % 2) / 2 * step + relx;
         size_t nroll = (nel - (nel - mid + e - m_startElem(iy)) % nel) / step;
-        size_t dx = m_nhx(iy);
-        size_t xl = 0;
-        size_t xu = nel;
-        if (mid >= left) {
-            xl = mid - left;
-        }
-        if (mid + right < nel) {
-            xu = mid + right + 1;
-        }
-        xl = xl - xl % dx;
-        xu = xu - xu % dx;
-        if (mid - xl < left) {
-            if (xl < dx) {
-                xl = 0;
-            }
-            else {
-                xl -= dx;
-            }
-        }
-        if (xu - mid < right) {
-            if (xu > nel - dx) {
-                xu = nel;
-            }
-            else {
-                xu += dx;
-            }
-        }
 
         auto H = xt::cumsum(m_nhy);
         size_t yl = 0;
         if (iy > 0) {
             yl = H(iy - 1);
         }
-        auto ret = this->elementgrid_ravel({yl, H(iy)}, {xl, xu});
-        auto map = this->roll(nroll);
-        return xt::view(map, xt::keep(ret));
+
+        return this->elementgrid_periodic({yl, H(iy)}, m_nhx(iy), mid, left, right, nroll);
     }
 
     /**
@@ -568,6 +511,61 @@ private:
     friend class RegularBase2d<FineLayer>;
     friend class GooseFEM::Mesh::Quad4::Map::FineLayer2Regular;
 
+    /**
+     * Select the columns `mid - left` up to and including `mid + right` of the periodically rolled
+     * mesh (rounded to whole elements of width `dx`). The columns may cross the edges of the mesh.
+     *
+     * @param rows First and last row (exclusive).
+     * @param dx Width of the biggest elements.
+     * @param mid Column of the centre of the selection (in the rolled mesh).
+     * @param left Number of columns to the left.
+     * @param right Number of columns to the right.
+     * @param nroll Number of coarse elements by which the mesh is rolled, see roll().
+     * @return List of elements.
+     */
+    array_type::tensor<size_t, 1> elementgrid_periodic(
+        const std::vector<size_t>& rows,
+        size_t dx,
+        size_t mid,
+        size_t left,
+        size_t right,
+        size_t nroll
+    )
+    {
+        auto map = this->roll(nroll);
+        size_t nel = this->nelx();
+
+        // the selection [xl, xu), displaced by "nel" to the right
+        left = std::min(left, nel);
+        right = std::min(right, nel);
+        size_t xl = nel + mid - left;
+        size_t xu = nel + mid + right + 1;
+        xl -= xl % dx;
+        xu += (dx - xu % dx) % dx;
+
+        // all columns
+        if (xu - xl >= nel) {
+            auto ret = this->elementgrid_ravel(rows, {0, nel});
+            return xt::view(map, xt::keep(ret));
+        }
+
+        // no edge crossed
+        if (xl >= nel && xu <= 2 * nel) {
+            auto ret = this->elementgrid_ravel(rows, {xl - nel, xu - nel});
+            return xt::view(map, xt::keep(ret));
+        }
+
+        // left or right edge crossed: last, and first columns
+        if (xl >= nel) {
+            xl -= nel;
+            xu -= nel;
+        }
+        auto last = this->elementgrid_ravel(rows, {xl, nel});
+        auto first = this->elementgrid_ravel(rows, {0, xu - nel});
+        array_type::tensor<size_t, 1> ret = xt::concatenate(xt::xtuple(last, first));
+        return xt::view(map, xt::keep(ret));
+    }
+
     size_t nelx_impl() const
     {
         return xt::amax(m_layer_nelx)();
-- 
2.43.0

