From e27f47e55a2a8be12d5acc9577adbcdf0010ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:46 +0000
Subject: [PATCH 01/11] fix: HIPBasis::drop_last keeps all functions when no
 boundary condition is requested

drop_last(false, false) fell into the func-only branch and removed the
value function of the last node.
---
 libhelfem/include/HIPBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/include/HIPBasis.h b/libhelfem/include/HIPBasis.h
index 8c34c75..d387894 100644
--- a/libhelfem/include/HIPBasis.h
+++ b/libhelfem/include/HIPBasis.h
@@ -71,7 +71,7 @@ class HIPBasisT : public LIPBasisT<T> {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 2).eval();
     } else if (deriv) {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 1).eval();
-    } else {
+    } else if (func) {
       IVec new_enabled(this->enabled.size() - 1);
       new_enabled.segment(0, this->enabled.size() - 2)
           = this->enabled.segment(0, this->enabled.size() - 2);
-- 
2.43.0


From 7e762b29114803a8cd37c5ec734d850dd152dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:54 +0000
Subject: [PATCH 02/11] fix: finite-nucleus grid ends at the requested
 practical infinity

---
 src/atomic/basis.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 31dece3..7f9e295 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -58,8 +58,9 @@ namespace helfem {
         if(num_el_nuc) {
           // Grid for the finite nucleus
           helfem::Vector bnuc(utils::get_grid(rnuc,num_el_nuc,igrid_nuc,zexp_nuc));
-          // and the one for the electrons
-          helfem::Vector belec(utils::get_grid(rmax-rnuc,num_el,igrid,zexp));
+          // and the one for the electrons; the nuclear grid is used twice
+          // below (inside and just outside the nucleus)
+          helfem::Vector belec(utils::get_grid(rmax-2*rnuc,num_el,igrid,zexp));
 
           helfem::Vector bnucel(concatenate_grid(bnuc,bnuc));
           return concatenate_grid(bnucel,belec);
-- 
2.43.0


From 5379c9b59a406c5a393b0f341f88f17ed2af0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 03/11] fix: GSZ parameters read the entry of the requested
 element

---
 src/general/gsz.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index a77c686..063019e 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -15,19 +15,25 @@
 
 #include "gsz.h"
 
-// Values for d_Z from Green 1969 paper
+// Values for d_Z from Green 1969 paper; the first entry is hydrogen (Z=1)
 static const double d_Z_GSZ[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0.708, 0.575, 0.500, 0.561, 0.621, 0.729, 0.817, 0.868, 0.885, 0.881, 0.862, 1.006, 1.154, 1.116, 1.060, 0.996, 0.837, 0.866, 0.807, 0.751, 0.700, 0.606, 0.612, 0.631, 0.649, 0.663, 0.675, 0.684, 0.689, 0.744, 0.798, 0.855, 0.866, 0.831, 0.825, 0.855, 0.803, 0.788, 0.737, 0.754, 0.775, 0.810, 0.841, 0.870, 0.896, 0.919, 0.940, 1.022, 1.108, 1.150, 1.081, 0.970, 0.938, 0.905, 0.873, 0.842, 0.862, 0.830, 0.754, 0.728, 0.702, 0.677, 0.654, 0.665, 0.672, 0.676, 0.679, 0.680, 0.680, 0.679, 0.661, 0.657, 0.671, 0.690, 0.708, 0.726, 0.744, 0.761, 0.777, 0.818, 0.859, 0.899, 0.927, 0.887, 0.880, 0.872, 0.832, 0.822, 0.842, 0.830, 0.790, 0.778, 0.766, 0.754, 0.742, 0.755};
 
 namespace helfem {
   namespace GSZ {
     void GSZ_parameters(int Z, double & d, double & H) {
+      if(Z==0) {
+	// Dummy centre: no screening, Z_GSZ vanishes
+	d=1.0;
+	H=0.0;
+	return;
+      }
       if((size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
 	std::ostringstream oss;
 	oss << "No GSZ parameters for Z = " << Z << "!\n";
 	throw std::logic_error(oss.str());
       }
 
-      d=d_Z_GSZ[Z];
+      d=d_Z_GSZ[Z-1];
       H=d*std::pow(Z-1,0.4);
     }
 
-- 
2.43.0


From f168ab7ae3388e3071ae7d8314ad67447390eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 04/11] fix: parse_nela_nelb rejects negative explicit electron
 counts

---
 src/general/scf_helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index b89ccbf..1080813 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -147,6 +147,12 @@ namespace helfem {
         }
 
       } else {
+        if(nela<0 || nelb<0) {
+          std::ostringstream oss;
+          oss << "Negative number of electrons: nela=" << nela << ", nelb=" << nelb << "!\n";
+          throw std::runtime_error(oss.str());
+        }
+
         Q=Z-nela-nelb;
         M=1+nela-nelb;
 
-- 
2.43.0


From 06530ba0f7eb4b176b0f1d4481e7e082b317e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 05/11] fix: shifted polynomial confinement uses the potential
 (r-shift)^N

---
 libhelfem/src/RadialBasis.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..576f69d 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -500,11 +500,14 @@ namespace helfem {
       helfem::Mat<T> FEMRadialBasisT<T>::polynomial_confinement(size_t iel, int N, T shift_pot) const {
         // The r < shift_pot cutoff is a kink at r = shift_pot; split the
         // element there so each smooth sub-panel converges by order-refinement.
+        // R = B/r, so the weight carries r^2 on top of the potential
+        // (r - shift_pot)^N; only the unshifted, possibly divergent case can
+        // absorb it into the exponent.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
                               [N, shift_pot](T r) {
-                                return (r < shift_pot)
-                                    ? T(0)
-                                    : std::pow(r - shift_pot, N + 2);
+                                if (r < shift_pot) return T(0);
+                                if (shift_pot == T(0)) return T(std::pow(r, N + 2));
+                                return T(r * r * std::pow(r - shift_pot, N));
                               },
                               std::vector<T>{shift_pot}, -1);
       }
-- 
2.43.0


From f0e5231fa874543c3c84767ae31d517e1e1d9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 06/11] fix: step confinement potentials are integrated only
 beyond the step

---
 libhelfem/src/RadialBasis.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 576f69d..23bac04 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -498,6 +498,9 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::polynomial_confinement(size_t iel, int N, T shift_pot) const {
+        // The zeroth power is a unit step.
+        if (N == 0)
+          return barrier_confinement(iel, T(1), shift_pot);
         // The r < shift_pot cutoff is a kink at r = shift_pot; split the
         // element there so each smooth sub-panel converges by order-refinement.
         // R = B/r, so the weight carries r^2 on top of the potential
@@ -536,12 +539,17 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::barrier_confinement(size_t iel, T V, T shift_pot) const {
-        // Step at r = shift_pot -> breakpoint.
-        return matrix_element(iel, BasisKind::B0, BasisKind::B0,
-                              [V, shift_pot](T r) {
-                                return (r < shift_pot) ? T(0) : V;
-                              },
-                              std::vector<T>{shift_pot}, -1);
+        // The potential jumps at r = shift_pot, and the quadrature samples the
+        // panel endpoints: integrate only over the part of the element that is
+        // beyond the step, so that the jump itself is never sampled.
+        if (shift_pot >= fem.element_end(iel))
+          return helfem::Mat<T>::Zero(Nprim(iel), Nprim(iel));
+        T x_left(-1);
+        if (shift_pot > fem.element_begin(iel)) {
+          helfem::Vec<T> r(1); r(0) = shift_pot;
+          x_left = fem.eval_prim(r, iel)(0);
+        }
+        return V * matrix_element(iel, BasisKind::B0, BasisKind::B0, kNoWeight<T>(), x_left, T(1));
       }
 
       template <typename T>
-- 
2.43.0


From 7c710de9b77940a514759e08497b3ded9eaa1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 07/11] fix: compute_xc read potential arrays that are never
 allocated when pot=false

---
 src/general/dftgrid_common.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/general/dftgrid_common.cpp b/src/general/dftgrid_common.cpp
index 30389f4..b894279 100644
--- a/src/general/dftgrid_common.cpp
+++ b/src/general/dftgrid_common.cpp
@@ -201,33 +201,33 @@ namespace helfem {
         double vlapla = 0.0, vlaplb = 0.0, vtaua = 0.0, vtaub = 0.0;
         if (polarized) {
           rhoa = rho(0, i); rhob = rho(1, i);
-          vrhoa = vxc_wrk(0, i); vrhob = vxc_wrk(1, i);
+          if (pot) { vrhoa = vxc_wrk(0, i); vrhob = vxc_wrk(1, i); }
           if (gga || mgga_t || mgga_l) {
             sigmaaa = sigma(0, i); sigmaab = sigma(1, i); sigmabb = sigma(2, i);
-            vsigmaaa = vsigma_wrk(0, i); vsigmaab = vsigma_wrk(1, i); vsigmabb = vsigma_wrk(2, i);
+            if (pot) { vsigmaaa = vsigma_wrk(0, i); vsigmaab = vsigma_wrk(1, i); vsigmabb = vsigma_wrk(2, i); }
           }
           if (mgga_l) {
             lapla = lapl(0, i); laplb = lapl(1, i);
-            vlapla = vlapl_wrk(0, i); vlaplb = vlapl_wrk(1, i);
+            if (pot) { vlapla = vlapl_wrk(0, i); vlaplb = vlapl_wrk(1, i); }
           }
           if (mgga_t) {
             taua = tau(0, i); taub = tau(1, i);
-            vtaua = vtau_wrk(0, i); vtaub = vtau_wrk(1, i);
+            if (pot) { vtaua = vtau_wrk(0, i); vtaub = vtau_wrk(1, i); }
           }
         } else {
           rhoa = 0.5 * rho(0, i); rhob = 0.5 * rho(0, i);
-          vrhoa = vxc_wrk(0, i);  vrhob = vxc_wrk(0, i);
+          if (pot) { vrhoa = vxc_wrk(0, i);  vrhob = vxc_wrk(0, i); }
           if (gga || mgga_t || mgga_l) {
             sigmaaa = 0.25 * sigma(0, i); sigmaab = 0.25 * sigma(0, i); sigmabb = 0.25 * sigma(0, i);
-            vsigmaaa = vsigma_wrk(0, i); vsigmaab = vsigma_wrk(0, i); vsigmabb = vsigma_wrk(0, i);
+            if (pot) { vsigmaaa = vsigma_wrk(0, i); vsigmaab = vsigma_wrk(0, i); vsigmabb = vsigma_wrk(0, i); }
           }
           if (mgga_l) {
             lapla = 0.5 * lapl(0, i); laplb = 0.5 * lapl(0, i);
-            vlapla = vlapl_wrk(0, i); vlaplb = vlapl_wrk(0, i);
+            if (pot) { vlapla = vlapl_wrk(0, i); vlaplb = vlapl_wrk(0, i); }
           }
           if (mgga_t) {
             taua = 0.5 * tau(0, i); taub = 0.5 * tau(0, i);
-            vtaua = vtau_wrk(0, i); vtaub = vtau_wrk(0, i);
+            if (pot) { vtaua = vtau_wrk(0, i); vtaub = vtau_wrk(0, i); }
           }
         }
         if (std::isnan(e)   || std::isnan(vrhoa)    || std::isnan(vrhob)
-- 
2.43.0


From 17fe54fca917866e616c85a0477a66a19a1fafc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 08/11] fix: unrestricted atomic Fock matrix missed a term for
 Laplacian functionals without tau

---
 src/atomic/dftgrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index ff7e7ae..648fdad 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -418,7 +418,7 @@ namespace helfem {
         }
 
 
-        if(do_mgga_t) {
+        if(do_mgga_t || do_mgga_l) {
           helfem::Vector vtl_a=helfem::Vector::Zero(wtot.size());
           if(do_mgga_t)
             vtl_a += 0.5*vtau.row(0).transpose();
-- 
2.43.0


From 45e9b391de25191cbbca8ccf9b01e95fa0a9b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 09/11] fix: unrestricted atomic Laplacian term accumulated
 into the absent beta Fock matrix

---
 src/atomic/dftgrid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index 648fdad..57e8d13 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -450,9 +450,11 @@ namespace helfem {
         }
         if(do_mgga_l) {
           helfem::Vector vl_a=vlapl.row(0).transpose().array()*wtot.array();
-          helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
           helfem::dftgrid_common::increment_mgga_lapl_split(Ha,vl_a,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
-          helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          if(beta) {
+            helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
+            helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          }
         }
 
         for(size_t i=0;i<bf_ind.size();i++)
-- 
2.43.0


From 229a81f8bb05be8118f604ffa17fe2197558d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 10/11] fix: pure-m grid mirrored Fock blocks between m and -m
 made of different shells

---
 src/diatomic/dftgrid_purem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diatomic/dftgrid_purem.cpp b/src/diatomic/dftgrid_purem.cpp
index 9772acb..8e93736 100644
--- a/src/diatomic/dftgrid_purem.cpp
+++ b/src/diatomic/dftgrid_purem.cpp
@@ -466,7 +466,9 @@ namespace helfem {
       // quadrature, not of the state.
       size_t PureMDFTGridWorker::mirror_block(size_t im) const {
         for (size_t jm = 0; jm < mlist.size(); jm++)
-          if (mlist[jm] == -mlist[im] && bf_ind_m[jm].size() == bf_ind_m[im].size())
+          // The partner has to consist of the same shells in the same
+          // order: an equal number of functions does not guarantee that.
+          if (mlist[jm] == -mlist[im] && lval_m[jm] == lval_m[im])
             return jm;
         return mlist.size();
       }
-- 
2.43.0


From c616e0aa01ab07bad88e74200889521480e57eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:29 +0000
Subject: [PATCH 11/11] fix: locate the van der Waals radius at the density
 threshold

The bisection compared the density with the coordinate tolerance instead
of the requested threshold, so it returned an end of the bracketing
interval rather than the radius where the density equals the threshold.
---
 src/sadatom/basis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a6fd2de..97608ee 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -840,11 +840,11 @@ namespace helfem {
             helfem::Vector m = a + (b-a)/2.0;
             double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
 
-            if(density_m < eps) {
+            if(density_m < vdw_threshold) {
               b = m;
-            } else if(density_m > eps) {
+            } else if(density_m > vdw_threshold) {
               a = m;
-            } else if(density_m == eps)
+            } else if(density_m == vdw_threshold)
               break;
 
             ibisect++;
-- 
2.43.0

