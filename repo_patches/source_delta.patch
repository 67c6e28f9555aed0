From 41f2593f80707fb2419fa5be54419a26c8b57f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 01/41] fix: HIPBasis::drop_last(false,false) must not drop any
 function

The last branch of drop_last was an unconditional else, so asking for
neither the function nor the derivative to be dropped removed the value
interpolant of the last node (drop_first and HIP2/HIP3 drop nothing).
---
 libhelfem/include/HIPBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/include/HIPBasis.h b/libhelfem/include/HIPBasis.h
index 8c34c75..d387894 100644
--- a/libhelfem/include/HIPBasis.h
+++ b/libhelfem/include/HIPBasis.h
@@ -71,7 +71,7 @@ class HIPBasisT : public LIPBasisT<T> {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 2).eval();
     } else if (deriv) {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 1).eval();
-    } else {
+    } else if (func) {
       IVec new_enabled(this->enabled.size() - 1);
       new_enabled.segment(0, this->enabled.size() - 2)
           = this->enabled.segment(0, this->enabled.size() - 2);
-- 
2.43.0


From 93d5f2c19d0f32a75f348289ffe803604ec8a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 02/41] fix: cross-basis radial matrix elements of potentials
 singular at the origin were NaN

The Gauss-Lobatto rule of the cross-basis projection samples r=0, where a
1/r weight is infinite and the basis functions vanish: 0*inf = NaN. Treat
a non-finite weight as a zero contribution, as the single-basis
matrix_element already does.
---
 libhelfem/src/RadialBasis.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..b36817e 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -403,9 +403,14 @@ namespace helfem {
                   const helfem::Vec<T> xj = rh.fem.eval_prim(r, jel);
 
                   helfem::Vec<T> wtot = wproj * intlen;
+                  // As in FiniteElementBasis::matrix_element, a weight that
+                  // diverges at the origin (where the Lobatto rule has a
+                  // node but the basis vanishes) contributes nothing there.
                   if (weight)
-                    for (Eigen::Index i = 0; i < r.size(); ++i)
-                      wtot(i) *= weight(r(i));
+                    for (Eigen::Index i = 0; i < r.size(); ++i) {
+                      const T fv = weight(r(i));
+                      wtot(i) = std::isfinite(fv) ? (wtot(i) * fv) : T(0);
+                    }
 
                   const helfem::Mat<T> ifunc = eval_B_at<T>(fem,    xi, iel, bra);
                   const helfem::Mat<T> jfunc = eval_B_at<T>(rh.fem, xj, jel, ket);
-- 
2.43.0


From 2069968a271e65831503457f318c53cc5d128b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 03/41] fix: shifted polynomial confinement used
 (r-shift)^(N+2)/r^2 instead of (r-shift)^N

The weight is applied to R = B/r functions, so the potential has to be
multiplied by r^2, not by (r-shift)^2.
---
 libhelfem/src/RadialBasis.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index b36817e..c04afa4 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -507,9 +507,14 @@ namespace helfem {
         // element there so each smooth sub-panel converges by order-refinement.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
                               [N, shift_pot](T r) {
-                                return (r < shift_pot)
-                                    ? T(0)
-                                    : std::pow(r - shift_pot, N + 2);
+                                // (r-shift)^N, times the r^2 that turns the
+                                // R = B/r functions into B; kept as a single
+                                // power when there is no shift so that
+                                // negative N is finite at the origin.
+                                if (r < shift_pot) return T(0);
+                                return (shift_pot == T(0))
+                                    ? T(std::pow(r, N + 2))
+                                    : T(std::pow(r - shift_pot, N) * r * r);
                               },
                               std::vector<T>{shift_pot}, -1);
       }
-- 
2.43.0


From 184700f1a38ca9a87a739b3485fc1b144f35dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:22 +0000
Subject: [PATCH 04/41] fix: finite-nucleus grid ended at rmax+rnuc instead of
 rmax

The nuclear grid [0,rnuc] is laid down twice, so the electronic part has to
cover rmax-2*rnuc for the grid to end at the requested rmax.
---
 src/atomic/basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 31dece3..33b6e27 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -58,8 +58,8 @@ namespace helfem {
         if(num_el_nuc) {
           // Grid for the finite nucleus
           helfem::Vector bnuc(utils::get_grid(rnuc,num_el_nuc,igrid_nuc,zexp_nuc));
-          // and the one for the electrons
-          helfem::Vector belec(utils::get_grid(rmax-rnuc,num_el,igrid,zexp));
+          // and the one for the electrons: the nuclear grid is used twice
+          helfem::Vector belec(utils::get_grid(rmax-2*rnuc,num_el,igrid,zexp));
 
           helfem::Vector bnucel(concatenate_grid(bnuc,bnuc));
           return concatenate_grid(bnucel,belec);
-- 
2.43.0


From 31995c5562315efa192db65fc03f9320919c3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:26 +0000
Subject: [PATCH 05/41] fix: negative binomial coefficients in the short-range
 erfc expansion

choose(n,m) for n<0 is (-1)^m choose(m-n-1,m); the sign of n was missing, so
that the Taylor series of Phi was wrong from the k=4 term on.
---
 libhelfem/src/erfc_expn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/src/erfc_expn.cpp b/libhelfem/src/erfc_expn.cpp
index b938487..3ba23d1 100644
--- a/libhelfem/src/erfc_expn.cpp
+++ b/libhelfem/src/erfc_expn.cpp
@@ -79,7 +79,7 @@ namespace helfem {
 
         // Negative binomials
         if(n<0) {
-          return choose<T>(n+m-1,m)*std::pow(T(-1),m);
+          return choose<T>(m-n-1,m)*std::pow(T(-1),m);
         } else {
           // Multiplicative formula keeps the running value as a T
           // and avoids any factorial overflow for large n.
-- 
2.43.0


From 33ea5fd6e079c06c719ebbe4ddc8863bef18083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:55 +0000
Subject: [PATCH 06/41] fix: confinement steps inside or at the edge of an
 element were smeared by the end-point node

---
 libhelfem/src/RadialBasis.cpp | 42 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index c04afa4..b886952 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -501,22 +501,35 @@ namespace helfem {
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::nuclear(size_t iel) const { return -matrix_element(iel, BasisKind::R0, BasisKind::R0, kRWeight<T>()); }
 
+      /// Matrix element over the part of element iel with r > r_step of a
+      /// weight that jumps to zero below r_step. A breakpoint is not enough
+      /// for a jump: the Gauss-Lobatto rule samples the end points, so the
+      /// panel (or element) on the inner side of the step would pick up the
+      /// outer value at its last node and converge only algebraically.
+      template <typename T, typename W>
+      static helfem::Mat<T> beyond_step(const FEMRadialBasisT<T> & radial,
+                                        const polynomial_basis::FiniteElementBasisT<T> & fem,
+                                        size_t iel, typename FEMRadialBasisT<T>::BasisKind kind,
+                                        T r_step, const W & weight) {
+        const T x_step = (r_step - fem.element_midpoint(iel)) / fem.scaling_factor(iel);
+        if (x_step >= T(1))
+          return helfem::Mat<T>::Zero(radial.Nprim(iel), radial.Nprim(iel));
+        return radial.matrix_element(iel, kind, kind, std::function<T(T)>(weight),
+                                     std::max(x_step, T(-1)), T(1));
+      }
+
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::polynomial_confinement(size_t iel, int N, T shift_pot) const {
-        // The r < shift_pot cutoff is a kink at r = shift_pot; split the
-        // element there so each smooth sub-panel converges by order-refinement.
-        return matrix_element(iel, BasisKind::R0, BasisKind::R0,
+        // (r-shift)^N, times the r^2 that turns the R = B/r functions into B;
+        // kept as a single power when there is no shift so that negative N is
+        // finite at the origin. Only the part of the element with
+        // r > shift_pot contributes (see beyond_step).
+        return beyond_step<T>(*this, fem, iel, BasisKind::R0, shift_pot,
                               [N, shift_pot](T r) {
-                                // (r-shift)^N, times the r^2 that turns the
-                                // R = B/r functions into B; kept as a single
-                                // power when there is no shift so that
-                                // negative N is finite at the origin.
-                                if (r < shift_pot) return T(0);
                                 return (shift_pot == T(0))
                                     ? T(std::pow(r, N + 2))
                                     : T(std::pow(r - shift_pot, N) * r * r);
-                              },
-                              std::vector<T>{shift_pot}, -1);
+                              });
       }
 
       template <typename T>
@@ -543,12 +556,9 @@ namespace helfem {
 
       template <typename T>
       helfem::Mat<T> FEMRadialBasisT<T>::barrier_confinement(size_t iel, T V, T shift_pot) const {
-        // Step at r = shift_pot -> breakpoint.
-        return matrix_element(iel, BasisKind::B0, BasisKind::B0,
-                              [V, shift_pot](T r) {
-                                return (r < shift_pot) ? T(0) : V;
-                              },
-                              std::vector<T>{shift_pot}, -1);
+        // Step at r = shift_pot (see beyond_step).
+        return beyond_step<T>(*this, fem, iel, BasisKind::B0, shift_pot,
+                              [V](T) { return V; });
       }
 
       template <typename T>
-- 
2.43.0


From 9d183cf80457caca74b65699ec982aa83d940f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:55 +0000
Subject: [PATCH 07/41] fix: GSZ screening parameters were those of the next
 element; dummy centre gave NaN

---
 src/general/gsz.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index a77c686..366a45b 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -27,7 +27,15 @@ namespace helfem {
 	throw std::logic_error(oss.str());
       }
 
-      d=d_Z_GSZ[Z];
+      // A dummy centre has no charge to screen: H=0 makes Z_GSZ vanish
+      if(Z==0) {
+        d=1.0;
+        H=0.0;
+        return;
+      }
+
+      // The table starts from Z=1
+      d=d_Z_GSZ[Z-1];
       H=d*std::pow(Z-1,0.4);
     }
 
-- 
2.43.0


From 77029fb6199252ae819bf106b7590c0d0a24af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 08/41] fix: GGA exchange-correlation screening used the
 Laplacian where the second radial derivative belongs and double counted the
 mixed-spin terms

---
 src/general/atomdb.cpp | 29 +++++++++++++++--------------
 src/sadatom/basis.cpp  | 26 ++++++++++++++++----------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 6c8fc3b..0e32791 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -343,11 +343,12 @@ namespace helfem {
       // magnitude more than the density itself, and an LDA never looks
       // at it -- evaluating it unconditionally made the LDA screening
       // 150x slower than it needed to be.
-      double grad[2] = {0.0, 0.0}, lapl[2] = {0.0, 0.0};
+      double grad[2] = {0.0, 0.0}, d2[2] = {0.0, 0.0};
       double sigma[3] = {0.0, 0.0, 0.0};
       if (xc_->any_gga) {
         grad[0] = grad[1] = 0.5 * density_gradient(r);
-        lapl[0] = lapl[1] = 0.5 * density_laplacian(r);
+        // Second radial derivative, i.e. the Laplacian less its 2/r piece
+        d2[0] = d2[1] = 0.5 * density_laplacian(r) - 2.0 * grad[0] / r;
         // Reduced gradients, in libxc's (aa, ab, bb) order.
         sigma[0] = grad[0] * grad[0];
         sigma[1] = grad[0] * grad[1];
@@ -384,7 +385,7 @@ namespace helfem {
         // and for a spherically symmetric density the divergence is
         // d/dr + 2/r. Expanding d/dr of the vsigma terms by the chain
         // rule brings in the second derivatives of the functional and the
-        // Laplacian of the density. Mirrors the grid implementation in
+        // second radial derivative h of the density. Mirrors the grid implementation in
         // sadatom::basis::TwoDBasis::xc_screening.
         double corr[2] = {0.0, 0.0};
 
@@ -394,20 +395,20 @@ namespace helfem {
         corr[1] += 2.0 * (grad[1] * v2rhosigma[5] + grad[0] * v2rhosigma[2]) * grad[1];
         corr[1] += (grad[0] * v2rhosigma[1] + grad[1] * v2rhosigma[4]) * grad[0];
 
-        // (l(t) g(t') + g(t) l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
-        const double lg = lapl[0] * grad[1] + grad[0] * lapl[1];
-        const double d2Edsaa = lapl[0] * grad[0] * v2sigma2[0] + lg * v2sigma2[1] +
-                               lapl[1] * grad[1] * v2sigma2[2];
-        const double d2Edsab = lapl[0] * grad[0] * v2sigma2[1] + lg * v2sigma2[3] +
-                               lapl[1] * grad[1] * v2sigma2[4];
-        const double d2Edsbb = lapl[0] * grad[0] * v2sigma2[2] + lg * v2sigma2[4] +
-                               lapl[1] * grad[1] * v2sigma2[5];
+        // (h(t) g(t') + g(t) h(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
+        const double hg = 0.5 * (d2[0] * grad[1] + grad[0] * d2[1]);
+        const double d2Edsaa = d2[0] * grad[0] * v2sigma2[0] + hg * v2sigma2[1] +
+                               d2[1] * grad[1] * v2sigma2[2];
+        const double d2Edsab = d2[0] * grad[0] * v2sigma2[1] + hg * v2sigma2[3] +
+                               d2[1] * grad[1] * v2sigma2[4];
+        const double d2Edsbb = d2[0] * grad[0] * v2sigma2[2] + hg * v2sigma2[4] +
+                               d2[1] * grad[1] * v2sigma2[5];
         corr[0] += 4.0 * d2Edsaa * grad[0] + 2.0 * d2Edsab * grad[1];
         corr[1] += 4.0 * d2Edsbb * grad[1] + 2.0 * d2Edsab * grad[0];
 
-        // dE/dsigma(ss') l(s')
-        corr[0] += 2.0 * vsigma[0] * lapl[0] + vsigma[1] * lapl[1];
-        corr[1] += vsigma[1] * lapl[0] + 2.0 * vsigma[2] * lapl[1];
+        // dE/dsigma(ss') h(s')
+        corr[0] += 2.0 * vsigma[0] * d2[0] + vsigma[1] * d2[1];
+        corr[1] += vsigma[1] * d2[0] + 2.0 * vsigma[2] * d2[1];
 
         // The 2/r piece of the radial divergence
         corr[0] += 2.0 / r * (2.0 * vsigma[0] * grad[0] + vsigma[1] * grad[1]);
diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a6fd2de..61f4897 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1029,12 +1029,17 @@ namespace helfem {
         // and the density gradient
         helfem::Vector grada(electron_density_gradient(Parad)/angfac);
         helfem::Vector gradb(electron_density_gradient(Pbrad)/angfac);
-        // and the density Laplacian
-        helfem::Vector lapla(electron_density_laplacian(Parad)/angfac);
-        helfem::Vector laplb(electron_density_laplacian(Pbrad)/angfac);
         // Radial coordinates
         helfem::Vector r(radii());
         size_t Npoints(r.size());
+        // and the second radial derivative of the density, i.e. the
+        // Laplacian less its 2/r piece. The nucleus is skipped below.
+        helfem::Vector d2a(electron_density_laplacian(Parad)/angfac);
+        helfem::Vector d2b(electron_density_laplacian(Pbrad)/angfac);
+        for(size_t ip=1;ip<Npoints;ip++) {
+          d2a(ip) -= 2.0*grada(ip)/r(ip);
+          d2b(ip) -= 2.0*gradb(ip)/r(ip);
+        }
 
         // and pack it for libxc. Store directly in transposed layout so
         // the column-major order is (na0, nb0, na1, nb1, ...).
@@ -1120,6 +1125,7 @@ namespace helfem {
           } else {
             xc_lda_vxc(&func, rhoa.size(), rho_libxc.data(), vxc_wrk.data());
           }
+          xc_func_end(&func);
 
           vxc+=vxc_wrk;
         }
@@ -1144,19 +1150,19 @@ namespace helfem {
           }
 
           for(size_t ip=1;ip<Npoints;ip++) {
-            // Second term: (l(t)g(t') + g(t)l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
-            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
-            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
-            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
+            // Second term: (h(t)g(t') + g(t)h(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
+            double d2Edsaa = d2a(ip)*grada(ip)*v2sigma2(0,ip) + 0.5*(d2a(ip)*gradb(ip) + grada(ip)*d2b(ip))*v2sigma2(1,ip) + d2b(ip)*gradb(ip)*v2sigma2(2,ip);
+            double d2Edsab = d2a(ip)*grada(ip)*v2sigma2(1,ip) + 0.5*(d2a(ip)*gradb(ip) + grada(ip)*d2b(ip))*v2sigma2(3,ip) + d2b(ip)*gradb(ip)*v2sigma2(4,ip);
+            double d2Edsbb = d2a(ip)*grada(ip)*v2sigma2(2,ip) + 0.5*(d2a(ip)*gradb(ip) + grada(ip)*d2b(ip))*v2sigma2(4,ip) + d2b(ip)*gradb(ip)*v2sigma2(5,ip);
             // and now we can contract this with the gradient
             corr(0,ip) += 4.0*d2Edsaa*grada(ip) + 2.0*d2Edsab*gradb(ip);
             corr(1,ip) += 4.0*d2Edsbb*gradb(ip) + 2.0*d2Edsab*grada(ip);
           }
 
           for(size_t ip=1;ip<Npoints;ip++) {
-            // Third term: dE/dsigma(ss') l(s')
-            corr(0,ip) += 2.0*vsigma(0,ip)*lapla(ip) + vsigma(1,ip)*laplb(ip);
-            corr(1,ip) += vsigma(1,ip)*lapla(ip) + 2.0*vsigma(2,ip)*laplb(ip);
+            // Third term: dE/dsigma(ss') h(s')
+            corr(0,ip) += 2.0*vsigma(0,ip)*d2a(ip) + vsigma(1,ip)*d2b(ip);
+            corr(1,ip) += vsigma(1,ip)*d2a(ip) + 2.0*vsigma(2,ip)*d2b(ip);
           }
 
           for(size_t ip=1;ip<Npoints;ip++) {
-- 
2.43.0


From 830a03fc1013744a4d82504b6e16306e5c2fa080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:04 +0000
Subject: [PATCH 09/41] fix: angular derivatives of basis functions were wrong
 on the z axis for |m|=1

---
 src/atomic/TwoDBasis.cpp | 22 ++++++++--------------
 src/diatomic/basis.cpp   | 33 +++++++++++++++------------------
 2 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/atomic/TwoDBasis.cpp b/src/atomic/TwoDBasis.cpp
index a601249..6cc900f 100644
--- a/src/atomic/TwoDBasis.cpp
+++ b/src/atomic/TwoDBasis.cpp
@@ -1176,25 +1176,19 @@ namespace helfem {
           // and so is phi
           for(size_t i=0;i<(size_t) lval.size();i++)
             dphi.middleCols(i*frad.cols(),frad.cols())=(std::complex<double>(0.0,mval(i))*sph(i))*frad.cast<std::complex<double>>();
-          // sin^2(theta) = (1 - cth)(1 + cth) is algebraically identical to
-          // 1 - cth*cth but avoids the catastrophic cancellation when cth is
-          // close to +/- 1. The std::max(..., 0.0) is a paranoia floor for
-          // the case where round-off pushes the product slightly negative.
-          const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-          // cot(theta) is singular at the poles; for cth = +/- 1 the m*cot*Y
-          // term is the m=0 case (contribution 0) or |m|>=1 with sph(i)=0 in
-          // the limit, so a defensive 0 is the right value here.
-          const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
           // but theta is nastier
           for(size_t i=0;i<(size_t) lval.size();i++) {
             int l(lval(i));
             int m(mval(i));
 
-            // Angular factor
-            std::complex<double> angfac(m*cotth*sph(i));
-            if(mval(i)<lval(i))
-              angfac+=sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(lval(i),mval(i)+1,cth,phi);
+            // Angular factor. The symmetric combination of the raising and
+            // lowering terms has no m*cot(theta)*Y, whose limit at the poles
+            // does not vanish for |m|=1.
+            std::complex<double> angfac(0.0,0.0);
+            if(m<l)
+              angfac+=0.5*sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(l,m+1,cth,phi);
+            if(m>-l)
+              angfac-=0.5*sqrt((l+m)*(l-m+1))*std::exp(std::complex<double>(0,phi))*::spherical_harmonics(l,m-1,cth,phi);
 
             dth.middleCols(i*frad.cols(),frad.cols())=angfac*frad.cast<std::complex<double>>();
           }
diff --git a/src/diatomic/basis.cpp b/src/diatomic/basis.cpp
index 196946c..5b9d150 100644
--- a/src/diatomic/basis.cpp
+++ b/src/diatomic/basis.cpp
@@ -2223,20 +2223,17 @@ namespace helfem {
         // and so is phi
         for(size_t i=0;i<(size_t) lval.size();i++)
           dphi.middleCols(i*Nc,Nc)=(std::complex<double>(0.0,mval(i))*sph(i))*frad.cast<std::complex<double>>();
-        // sin^2(theta) = (1 - cth)(1 + cth) avoids the catastrophic
-        // cancellation in 1 - cth*cth when cth is close to +/- 1.
-        const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-        const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
         // but theta is nastier
         for(size_t i=0;i<(size_t) lval.size();i++) {
           int l(lval(i));
           int m(mval(i));
 
-          // Angular factor
-          std::complex<double> angfac(m*cotth*sph(i));
-          if(mval(i)<lval(i))
-            angfac+=sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(lval(i),mval(i)+1,cth,phi);
+          // Angular factor; symmetric form, regular at the poles
+          std::complex<double> angfac(0.0,0.0);
+          if(m<l)
+            angfac+=0.5*sqrt((l-m)*(l+m+1))*std::exp(std::complex<double>(0,-phi))*::spherical_harmonics(l,m+1,cth,phi);
+          if(m>-l)
+            angfac-=0.5*sqrt((l+m)*(l-m+1))*std::exp(std::complex<double>(0,phi))*::spherical_harmonics(l,m-1,cth,phi);
 
           dth.middleCols(i*Nc,Nc)=angfac*frad.cast<std::complex<double>>();
         }
@@ -2250,23 +2247,23 @@ namespace helfem {
           if(mval(i)==m)
             flist.push_back(i);
 
-        // sin^2(theta) = (1 - cth)(1 + cth) avoids the catastrophic
-        // cancellation in 1 - cth*cth when cth is close to +/- 1.
-        const double sinth = std::sqrt(std::max((1.0-cth)*(1.0+cth), 0.0));
-        const double cotth = (sinth > 0.0) ? cth/sinth : 0.0;
-
         // Angular factors, evaluated at phi = 0 where they are real.
         helfem::Vector sph(flist.size()), dsph(flist.size());
         for(size_t i=0;i<flist.size();i++) {
           const int l(lval(flist[i]));
           const int mm(mval(flist[i]));
           sph(i)=std::real(::spherical_harmonics(l,mm,cth,0.0));
-          // d Y_l^m / d theta = m cot(th) Y_l^m + sqrt((l-m)(l+m+1)) Y_l^{m+1}
-          // (the e^{-i phi} of the raising term is unity at phi = 0).
-          double angfac = mm*cotth*sph(i);
+          // d Y_l^m / d theta = [ sqrt((l-m)(l+m+1)) Y_l^{m+1}
+          //                     - sqrt((l+m)(l-m+1)) Y_l^{m-1} ] / 2
+          // (the e^{-+i phi} factors are unity at phi = 0); unlike the form
+          // with m cot(th) Y_l^m this one is regular at the poles.
+          double angfac = 0.0;
           if(mm < l)
-            angfac += std::sqrt((double)(l-mm)*(double)(l+mm+1))
+            angfac += 0.5*std::sqrt((double)(l-mm)*(double)(l+mm+1))
                        * std::real(::spherical_harmonics(l,mm+1,cth,0.0));
+          if(mm > -l)
+            angfac -= 0.5*std::sqrt((double)(l+mm)*(double)(l-mm+1))
+                       * std::real(::spherical_harmonics(l,mm-1,cth,0.0));
           dsph(i)=angfac;
         }
 
-- 
2.43.0


From e43a64ebc0d6ecec33c8966912bb4a8b745517e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:35 +0000
Subject: [PATCH 10/41] fix: probe functions at the bond midpoint used cos(nu)
 in place of their polar angle

---
 src/diatomic/twodquadrature.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diatomic/twodquadrature.cpp b/src/diatomic/twodquadrature.cpp
index 56f34f0..a6e1b26 100644
--- a/src/diatomic/twodquadrature.cpp
+++ b/src/diatomic/twodquadrature.cpp
@@ -275,7 +275,10 @@ namespace helfem {
           for(size_t ia=0;ia<wang.size();ia++)
             for(size_t ir=0;ir<wrad.size();ir++) {
               size_t idx=ia*wrad.size()+ir;
-              double cthval = cth(ia);
+              // Polar angle about the midpoint: z = Rh*cosh(mu)*cos(nu), r as
+              // in ao_projection. The angle is immaterial at r=0.
+              double rc = std::sqrt(std::max(chmu(ir)*chmu(ir) + cth(ia)*cth(ia) - 1.0, 0.0));
+              double cthval = rc>0.0 ? chmu(ir)*cth(ia)/rc : 1.0;
               double Plm = eval_Plm(cthval);
               for(size_t ix=0;ix<itg.rows();ix++)
                 itg(ix,idx)*=Plm;
-- 
2.43.0


From faed594dde7f443d24af49a45c95461747ceb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:31 +0000
Subject: [PATCH 11/41] fix: van der Waals radius was bisected against the
 convergence tolerance instead of the density threshold

---
 src/sadatom/basis.cpp | 77 ++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 61f4897..05c63da 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -805,58 +805,53 @@ namespace helfem {
         }
 
         // Now find the position in the element where the density is = vdw_threshold.
-        // Evaluate the difference in density from the threshold value.
         // Quadrature points
         helfem::Vector xq = radial.get_xq();
-        helfem::Vector diff = angfac*electron_density(xq, iel, Prad, rsqweight);
-        diff-=vdw_threshold*helfem::Vector::Ones(diff.size());
-        diff=diff.cwiseAbs();
+        helfem::Vector den = angfac*electron_density(xq, iel, Prad, rsqweight);
 
-        // Find the smallest value
-        Eigen::Index imax;
-        diff.minCoeff(&imax);
+        // Outermost quadrature point above the threshold
+        Eigen::Index ip;
+        for(ip=xq.size()-1;ip>0;ip--)
+          if(den(ip)>vdw_threshold)
+            break;
 
-        // Refine the position.
+        // The density is above the threshold at a and below it at b
+        helfem::Vector a(1), b(1);
+        a(0) = xq(ip);
+        if(ip+1 < xq.size()) {
+          b(0) = xq(ip+1);
+        } else {
+          b(0) = 1.0;
+          if(iel+1 < radial.Nel() && angfac*electron_density(b, iel, Prad, rsqweight)(0) > vdw_threshold) {
+            // The crossing is before the first quadrature point of the next element
+            iel++;
+            a(0) = -1.0;
+            b(0) = xq(0);
+          }
+        }
 
-        double rvdw=0.0;
-        {
-          // Primitive coordinates
-          helfem::Vector a(1), b(1);
+        // Refine the position with bisection
+        size_t ibisect=0;
+        while(std::abs(b(0)-a(0))>=eps) {
+          helfem::Vector m = a + (b-a)/2.0;
+          double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
 
-          if(imax == 0) {
-            a(0) = -1.0;
-            b(0) = xq(imax+1);
-          } else if(imax == xq.size()-1) {
-            a(0) = xq(imax-1);
-            b(0) = 1.0;
+          if(density_m < vdw_threshold) {
+            b = m;
+          } else if(density_m > vdw_threshold) {
+            a = m;
           } else {
-            a(0) = xq(imax-1);
-            b(0) = xq(imax+1);
+            a = b = m;
           }
 
-          // Bisection
-          size_t ibisect=0;
-          while((a-b).cwiseAbs().maxCoeff()>=eps) {
-            helfem::Vector m = a + (b-a)/2.0;
-            double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
-
-            if(density_m < eps) {
-              b = m;
-            } else if(density_m > eps) {
-              a = m;
-            } else if(density_m == eps)
-              break;
-
-            ibisect++;
-            if(ibisect==100)
-              throw std::runtime_error("bisection did not converge in 100 iterations\n");
-          }
-          // Coordinate is
-          helfem::Vector cen=((a+b)/2);
-          // Position of maximum is
-          rvdw = radial.get_r(cen, iel)(0);
+          ibisect++;
+          if(ibisect==100)
+            throw std::runtime_error("bisection did not converge in 100 iterations\n");
         }
 
+        helfem::Vector cen=((a+b)/2);
+        double rvdw = radial.get_r(cen, iel)(0);
+
         return rvdw;
       }
 
-- 
2.43.0


From 6b91c0376241461b9706121f763a81b7306a419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:19 +0000
Subject: [PATCH 12/41] fix: Laplacian meta-GGA potential in the polarized
 atomic XC matrix

The kinetic-like part of the Laplacian term was skipped when the
functional did not also depend on tau, and the beta part was accumulated
into an empty matrix when there were no beta electrons.
---
 src/atomic/dftgrid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index ff7e7ae..57e8d13 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -418,7 +418,7 @@ namespace helfem {
         }
 
 
-        if(do_mgga_t) {
+        if(do_mgga_t || do_mgga_l) {
           helfem::Vector vtl_a=helfem::Vector::Zero(wtot.size());
           if(do_mgga_t)
             vtl_a += 0.5*vtau.row(0).transpose();
@@ -450,9 +450,11 @@ namespace helfem {
         }
         if(do_mgga_l) {
           helfem::Vector vl_a=vlapl.row(0).transpose().array()*wtot.array();
-          helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
           helfem::dftgrid_common::increment_mgga_lapl_split(Ha,vl_a,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
-          helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          if(beta) {
+            helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
+            helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          }
         }
 
         for(size_t i=0;i<bf_ind.size();i++)
-- 
2.43.0


From b2f5852b2bd6f4b5d9d0dc2a95c45272cb9ad797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:19 +0000
Subject: [PATCH 13/41] fix: mirror an m block only onto a block with the same
 l values

+m and -m blocks of equal size but different l content were treated as
copies of each other in the pure-m diatomic DFT grid.
---
 src/diatomic/dftgrid_purem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diatomic/dftgrid_purem.cpp b/src/diatomic/dftgrid_purem.cpp
index 9772acb..d4ed0f5 100644
--- a/src/diatomic/dftgrid_purem.cpp
+++ b/src/diatomic/dftgrid_purem.cpp
@@ -456,8 +456,8 @@ namespace helfem {
       /// Accumulate one m block's XC contribution into the AO matrix H.
       /// `spin` selects the vxc / vsigma rows (0 = restricted or alpha,
       /// 1 = beta); `gr_rows` gives the (mu, nu) gradient rows for this spin.
-      // Index of the block holding -mlist[im], or mlist.size() if there
-      // is none. In the pure-m path the density is phi-independent, so
+      // Index of the block holding -mlist[im] with the same l values in
+      // the same order, or mlist.size() if there is none. In the pure-m path the density is phi-independent, so
       // V_xc is the SAME field for every m block: the only m dependence
       // in the matrix elements is through m^2 and through basis values
       // that depend on |m|. H(-m) is therefore equal to H(+m), and the
@@ -466,7 +466,8 @@ namespace helfem {
       // quadrature, not of the state.
       size_t PureMDFTGridWorker::mirror_block(size_t im) const {
         for (size_t jm = 0; jm < mlist.size(); jm++)
-          if (mlist[jm] == -mlist[im] && bf_ind_m[jm].size() == bf_ind_m[im].size())
+          if (mlist[jm] == -mlist[im] && lval_m[jm] == lval_m[im]
+              && bf_ind_m[jm].size() == bf_ind_m[im].size())
             return jm;
         return mlist.size();
       }
-- 
2.43.0


From 1d150330865980f18f36e978c0e4a47c51a6e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 14/41] fix: checkpoint left the file open and leaked HDF5
 handles when an access was refused

---
 src/general/checkpoint.cpp | 418 +++++++++----------------------------
 1 file changed, 103 insertions(+), 315 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index b266376..baee645 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -36,6 +36,31 @@ namespace {
     return id;
   }
 
+  // An HDF5 identifier that is released at the end of its scope, also when
+  // an error is thrown; an unreleased identifier would keep the file open.
+  class Handle {
+    hid_t id;
+    herr_t (*release)(hid_t);
+  public:
+    Handle(hid_t id_, herr_t (*release_)(hid_t)) : id(id_), release(release_) {}
+    ~Handle() { if(id>=0) release(id); }
+    Handle(const Handle &) = delete;
+    Handle & operator=(const Handle &) = delete;
+    operator hid_t() const { return id; }
+  };
+
+  // Opens the file if it is closed and closes it again at the end of the
+  // scope, also when an error is thrown.
+  class AutoOpen {
+    Checkpoint & chk;
+    bool cl;
+  public:
+    explicit AutoOpen(Checkpoint & chk_) : chk(chk_), cl(!chk_.is_open()) { if(cl) chk.open(); }
+    ~AutoOpen() { if(cl) chk.close(); }
+    AutoOpen(const AutoOpen &) = delete;
+    AutoOpen & operator=(const AutoOpen &) = delete;
+  };
+
   // HDF5 datatype selector for the templated floating-point I/O. Returns
   // the HDF5 *native* (in-memory) datatype matching the C++ scalar T; the
   // write path H5Tcopy()s this for the on-disk (file) datatype, so the
@@ -131,45 +156,29 @@ bool Checkpoint::is_open() const {
 }
 
 bool Checkpoint::exist(const std::string & name) {
-  bool cl=false;
-  if(!opend) {
-    cl=true;
-    open();
-  }
+  AutoOpen autoopen(*this);
 
   bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
 
-  if(cl) close();
-
   return ret;
 }
 
 void Checkpoint::remove(const std::string & name) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   if(exist(name)) {
     // Remove the entry from the file.
     H5Ldelete(file, name.c_str(), H5P_DEFAULT);
   }
-
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -182,40 +191,30 @@ void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   dims[0]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  Handle dataspace(H5Screate_simple(2,dims,NULL), H5Sclose);
 
   // Create a datatype. The file datatype matches the T memory type, so
   // T=double stays H5T_IEEE_F64LE (byte-identical to older .chk files).
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  Handle datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -227,7 +226,7 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -247,15 +246,6 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   // read, so a double .chk loads into a long double / _Float128 run.
   m=helfem::Mat<T>::Zero(dims[1],dims[0]);
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 template <typename T>
@@ -280,11 +270,7 @@ void Checkpoint::read(const std::string & name, helfem::Vec<T> & v) {
 void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   CHECK_WRITE();
 
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -297,41 +283,31 @@ void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   dims[1]=m.cols();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(2,dims,NULL);
+  Handle dataspace(H5Screate_simple(2,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  Handle datatype(H5Tcopy(H5T_NATIVE_INT), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=2) {
@@ -348,26 +324,13 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // column-major buffer is read straight into .data().
   m=Eigen::MatrixXi::Zero(dims[0],dims[1]);
   H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 
 template <typename T>
 void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -377,40 +340,30 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  Handle dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  Handle datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, std::vector<T> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -422,7 +375,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -439,23 +392,11 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possible existing entry
   remove(name);
@@ -465,38 +406,28 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   dims[0]=v.size();
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  Handle dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  Handle datatype(H5Tcopy(H5T_NATIVE_HSIZE), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -508,7 +439,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -524,23 +455,11 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   // Allocate memory
   v.resize(dims[0]);
   H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Atomic calculation
   write("HelFEM_ID",1);
@@ -563,17 +482,11 @@ void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
   // get_lval/get_mval are Eigen::VectorXi; stored as N x 1 int matrices.
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
-
-  if(cl) close();
 }
 
 
 void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Atomic calculation
   int id;
@@ -612,17 +525,11 @@ void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
 
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::atomic::basis::TwoDBasis(Z, (helfem::modelpotential::nuclear_model_t) finitenuc, Rrms, poly, zeroder, n_quad, bval, lval.col(0), mval.col(0), Zl, Zr, Rhalf);
-  
-  if(cl) close();
 }
 
 void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Atomic calculation
   write("HelFEM_ID",2);
@@ -640,17 +547,11 @@ void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
   // get_lval/get_mval are Eigen::VectorXi; stored as N x 1 int matrices.
   write("lval",Eigen::MatrixXi(basis.get_lval()));
   write("mval",Eigen::MatrixXi(basis.get_mval()));
-
-  if(cl) close();
 }
 
 
 void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Atomic calculation
   int id;
@@ -681,57 +582,41 @@ void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
 
   auto poly(std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis>(helfem::polynomial_basis::get_basis(poly_id,poly_nnodes)));
   basis=helfem::diatomic::basis::TwoDBasis(Z1, Z2, Rhalf, poly, n_quad, bval, lval.col(0), mval.col(0));
-  
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::write(const std::string & name, T val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype. File type matches the T memory type, so T=double
   // stays byte-identical (H5T_IEEE_F64LE) to older .chk files.
-  hid_t datatype=H5Tcopy(h5_native_float<T>());
+  Handle datatype(H5Tcopy(h5_native_float<T>()), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 template <typename T>
 void Checkpoint::read(const std::string & name, T & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -743,7 +628,7 @@ void Checkpoint::read(const std::string & name, T & v) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
@@ -752,64 +637,42 @@ void Checkpoint::read(const std::string & name, T & v) {
   // Read. HDF5 converts the disk float type to the T memory type, so a
   // double-on-disk scalar loads into any T.
   H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 
 void Checkpoint::write(const std::string & name, int val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_INT);
+  Handle datatype(H5Tcopy(H5T_NATIVE_INT), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, int & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -823,63 +686,41 @@ void Checkpoint::read(const std::string & name, int & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, hsize_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possible existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HSIZE);
+  Handle datatype(H5Tcopy(H5T_NATIVE_HSIZE), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, hsize_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -893,14 +734,6 @@ void Checkpoint::read(const std::string & name, hsize_t & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, bool val) {
@@ -917,51 +750,37 @@ void Checkpoint::read(const std::string & name, bool & v) {
 
 void Checkpoint::write_hbool(const std::string & name, hbool_t val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possibly existing entry
   remove(name);
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate(H5S_SCALAR);
+  Handle dataspace(H5Screate(H5S_SCALAR), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_HBOOL);
+  Handle datatype(H5Tcopy(H5T_NATIVE_HBOOL), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
@@ -970,24 +789,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
 
   // Read
   H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-
-  if(cl) close();
 }
 
 void Checkpoint::write(const std::string & name, const std::string & val) {
   CHECK_WRITE();
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
 
   // Remove possibly existing entry
   remove(name);
@@ -997,38 +803,28 @@ void Checkpoint::write(const std::string & name, const std::string & val) {
   dims[0]=val.size()+1;
 
   // Create a dataspace.
-  hid_t dataspace=H5Screate_simple(1,dims,NULL);
+  Handle dataspace(H5Screate_simple(1,dims,NULL), H5Sclose);
 
   // Create a datatype.
-  hid_t datatype=H5Tcopy(H5T_NATIVE_CHAR);
+  Handle datatype(H5Tcopy(H5T_NATIVE_CHAR), H5Tclose);
 
   // Create the dataset using the defined dataspace and datatype, and
   // default dataset creation properties.
-  hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
+  Handle dataset(hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name), H5Dclose);
 
   // Write the data to the file.
   H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str());
-
-  // Close everything.
-  H5Dclose(dataset);
-  H5Tclose(datatype);
-  H5Sclose(dataspace);
-  if(cl) close();
 }
 
 void Checkpoint::read(const std::string & name, std::string & val) {
-  bool cl=false;
-  if(!opend) {
-    open();
-    cl=true;
-  }
+  AutoOpen autoopen(*this);
   CHECK_EXIST();
 
   // Open the dataset.
-  hid_t dataset = hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name);
+  Handle dataset(hdf5_check(H5Dopen (file, name.c_str(), H5P_DEFAULT), "H5Dopen", name), H5Dclose);
 
   // Get the data type
-  hid_t datatype  = H5Dget_type(dataset);
+  Handle datatype(H5Dget_type(dataset), H5Tclose);
 
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
@@ -1040,7 +836,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   }
 
   // Get dataspace
-  hid_t dataspace = H5Dget_space(dataset);
+  Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
   int ndim = H5Sget_simple_extent_ndims(dataspace);
   if(ndim!=1) {
@@ -1058,14 +854,6 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
   val=std::string(wrk);
   free(wrk);
-
-  // Close dataspace
-  H5Sclose(dataspace);
-  // Close datatype
-  H5Tclose(datatype);
-  // Close dataset
-  H5Dclose(dataset);
-  if(cl) close();
 }
 
 // Explicit instantiations of the templated floating-point I/O. The
-- 
2.43.0


From d8ed793e38f2c977bb8552b824d530a6169a57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 15/41] fix: Checkpoint::exist reported a failed lookup as an
 existing entry

---
 src/general/checkpoint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index baee645..fd09033 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -158,7 +158,8 @@ bool Checkpoint::is_open() const {
 bool Checkpoint::exist(const std::string & name) {
   AutoOpen autoopen(*this);
 
-  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
+  // Negative on failure, e.g. when a parent group does not exist
+  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT)>0;
 
   return ret;
 }
-- 
2.43.0


From 6b5fb5d67c49179884e76d24bc13ff6e4a26dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 16/41] fix: reading a floating-point checkpoint entry as
 integer matrix or boolean was not refused

---
 src/general/checkpoint.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index fd09033..6a6efa7 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -307,6 +307,15 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Get the data type
   Handle datatype(H5Dget_type(dataset), H5Tclose);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+
+  if(hclass!=H5T_INTEGER) {
+    std::ostringstream oss;
+    oss << "Error - " << name << " is not an integer value!\n";
+    throw std::runtime_error(oss.str());
+  }
+
   // Get dataspace
   Handle dataspace(H5Dget_space(dataset), H5Sclose);
   // Get number of dimensions
@@ -783,6 +792,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
   // Get dataspace
   Handle dataspace(H5Dget_space(dataset), H5Sclose);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+  if(hclass!=H5T_INTEGER)
+    throw std::runtime_error("Error - datatype is not integer!\n");
+
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
-- 
2.43.0


From 69a9f20c7d88b43a12e78caf8dde9dca63cd30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 17/41] fix: strings with embedded NUL were truncated and
 unterminated ones overread from a checkpoint

---
 src/general/checkpoint.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index 6a6efa7..b207880 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -864,11 +864,12 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   hsize_t dims[ndim];
   H5Sget_simple_extent_dims(dataspace,dims,NULL);
 
-  // Allocate work memory
-  char *wrk=(char *)malloc(dims[0]*sizeof(char));
-  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
-  val=std::string(wrk);
-  free(wrk);
+  // Read the characters and drop the terminator
+  std::vector<char> wrk(dims[0]);
+  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk.data());
+  if(wrk.size() && wrk.back()=='\0')
+    wrk.pop_back();
+  val.assign(wrk.begin(), wrk.end());
 }
 
 // Explicit instantiations of the templated floating-point I/O. The
-- 
2.43.0


From 2700bbed8ddb1beee38c6b24ca09fe9ddc8d4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 18/41] fix: spelling of neodymium and flerovium in the element
 name table

---
 src/general/elements.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general/elements.h b/src/general/elements.h
index bf36bca..bd9e3e6 100644
--- a/src/general/elements.h
+++ b/src/general/elements.h
@@ -28,8 +28,8 @@ const std::string element_names[]={
   "Sodium","Magnesium","Aluminium","Silicon","Phosphorus","Sulfur","Chlorine","Argon",
   "Potassium","Calcium","Scandium","Titanium","Vanadium","Chromium","Manganese","Iron","Cobalt","Nickel","Copper","Zinc","Gallium","Germanium","Arsenic","Selenium","Bromine","Krypton",
   "Rubidium","Strontium","Yttrium","Zirconium","Niobium","Molybdenum","Technetium","Ruthenium","Rhodium","Palladium","Silver","Cadmium","Indium","Tin","Antimony","Tellurium","Iodine","Xenon",
-  "Caesium","Barium","Lanthanum","Cerium","Praseodymium","Neodynium","Promethium","Samarium","Europium","Gadolinium","Terbium","Dysprosium","Holmium","Erbium","Thulium","Ytterbium", "Lutetium", "Hafnium", "Tantalum", "Tungsten", "Rhenium", "Osmium", "Iridium", "Platinum", "Gold", "Mercury", "Thallium", "Lead", "Bismuth", "Polonium", "Astatine", "Radon",
-  "Francium", "Radium", "Actinium", "Thorium", "Protactinium", "Uranium", "Neptunium", "Plutonium", "Americium", "Curium", "Berkelium", "Californium", "Einsteinium", "Fermium", "Mendelevium", "Nobelium", "Lawrencium", "Rutherfordium", "Dubnium", "Seaborgium", "Bohrium", "Hassium", "Meitnerium", "Darmstadtium", "Roentgenium", "Copernicium", "Nihonium", "Flevorium", "Moscovium", "Livermorium", "Tennessine", "Oganesson"
+  "Caesium","Barium","Lanthanum","Cerium","Praseodymium","Neodymium","Promethium","Samarium","Europium","Gadolinium","Terbium","Dysprosium","Holmium","Erbium","Thulium","Ytterbium", "Lutetium", "Hafnium", "Tantalum", "Tungsten", "Rhenium", "Osmium", "Iridium", "Platinum", "Gold", "Mercury", "Thallium", "Lead", "Bismuth", "Polonium", "Astatine", "Radon",
+  "Francium", "Radium", "Actinium", "Thorium", "Protactinium", "Uranium", "Neptunium", "Plutonium", "Americium", "Curium", "Berkelium", "Californium", "Einsteinium", "Fermium", "Mendelevium", "Nobelium", "Lawrencium", "Rutherfordium", "Dubnium", "Seaborgium", "Bohrium", "Hassium", "Meitnerium", "Darmstadtium", "Roentgenium", "Copernicium", "Nihonium", "Flerovium", "Moscovium", "Livermorium", "Tennessine", "Oganesson"
 };
 
 /// Symbols of elements
-- 
2.43.0


From 35ef4c1e4b834868723652d28284781f489dbc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 19/41] fix: refuse negative numbers of electrons in
 parse_nela_nelb

---
 src/general/scf_helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index b89ccbf..8d1ce43 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -147,6 +147,12 @@ namespace helfem {
         }
 
       } else {
+        if(nela<0 || nelb<0) {
+          std::ostringstream oss;
+          oss << "Negative number of electrons requested: nela=" << nela << ", nelb=" << nelb << "!\n";
+          throw std::runtime_error(oss.str());
+        }
+
         Q=Z-nela-nelb;
         M=1+nela-nelb;
 
-- 
2.43.0


From eb5cd6f1a0c441d97f17190dafb10650fefae4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:55 +0000
Subject: [PATCH 20/41] fix: a stopped Timer keeps its reading

---
 src/general/timer.cpp | 10 ++++++++++
 src/general/timer.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/general/timer.cpp b/src/general/timer.cpp
index 75e8d6a..081e801 100644
--- a/src/general/timer.cpp
+++ b/src/general/timer.cpp
@@ -49,19 +49,26 @@ void Timer::read(struct timespec *t) const {
 }
 
 void Timer::stop() {
+  if(!running)
+    return;
   struct timespec tstop;
   read(&tstop);
   elapsd+=(tstop.tv_sec-tstart.tv_sec)+(tstop.tv_nsec-tstart.tv_nsec)*1.0e-9;
+  running=false;
 }
 
 void Timer::cont() {
+  if(running)
+    return;
   read(&tstart);
+  running=true;
 }
 
 void Timer::set() {
   // Get time.
   read(&tstart);
   elapsd=0.0;
+  running=true;
 }
 
 void Timer::print() const {
@@ -92,6 +99,9 @@ void Timer::print_time() const {
 }
 
 double Timer::get() const {
+  if(!running)
+    return elapsd;
+
   struct timespec tstop;
   read(&tstop);
 
diff --git a/src/general/timer.h b/src/general/timer.h
index 50ea912..dfcc63f 100644
--- a/src/general/timer.h
+++ b/src/general/timer.h
@@ -41,6 +41,8 @@ class Timer {
 
   /// Elapsed time
   double elapsd;
+  /// Is the timer running?
+  bool running;
 
   /// Read time
   void read(struct timespec *t) const;
-- 
2.43.0


From d95b0f576f0ca5bbf4a80467ad2cc6a4a41ba2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:55 +0000
Subject: [PATCH 21/41] fix: refuse malformed functional parameters instead of
 dropping the rest

---
 src/general/scf_helpers.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index 8d1ce43..a023e48 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -177,14 +177,25 @@ namespace helfem {
       }
 
       std::vector<double> vals;
+      // Read numbers up to the end of the input; anything that is not
+      // a number is an error, since dropping it would silently
+      // evaluate the functional with the wrong parameters
+      auto read_values = [&](std::istream & is) {
+        std::string token;
+        while (is >> token) {
+          std::istringstream tss(token);
+          double x;
+          if (!(tss >> x) || tss.peek() != std::istringstream::traits_type::eof())
+            throw std::runtime_error("Invalid value \"" + token + "\" in functional parameters \"" + input + "\".\n");
+          vals.push_back(x);
+        }
+      };
       if (isfile) {
         std::ifstream f(input.c_str());
-        double x;
-        while (f >> x) vals.push_back(x);
+        read_values(f);
       } else {
         std::istringstream iss(input);
-        double x;
-        while (iss >> x) vals.push_back(x);
+        read_values(iss);
       }
 
       r.resize(static_cast<Eigen::Index>(vals.size()));
-- 
2.43.0


From b9c218982753b7e1fef3c1ccca21bf0c0e45abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 22/41] fix: save and load densities of mirrored (+-m) blocks
 in --symmetry=3 runs

The checkpointed densities of a diatomic run with --symmetry=3 left the -|m|
functions out, and a loaded density lost the electrons in them.
---
 src/diatomic/main.cpp           |  8 ++++----
 src/general/scf_driver_common.h | 35 +++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 9ed9424..0493fd3 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -633,13 +633,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr, &dmirror[k]);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open, &dmirror[k]);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open, &dmirror[k]);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
@@ -659,7 +659,7 @@ int main(int argc, char **argv) {
     const auto final_occs = scfsolver.get_orbital_occupations();
     helfem::Matrix Pa_final, Pb_final;
     std::tie(Pa_final, Pb_final) = helfem::scf_driver::assemble_final_density<OOO_Real>(
-        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs);
+        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs, &dmirror);
     // Densities written straight through the checkpoint's helfem::Matrix overloads.
     savechk.write("Pa", Pa_final);
     savechk.write("Pb", Pb_final);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index a2ac755..653c231 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -230,13 +230,21 @@ namespace helfem {
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
         const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
-        const helfem::Matrix & Sinvh_block, double max_occ) {
+        const helfem::Matrix & Sinvh_block, double max_occ,
+        const std::vector<Eigen::Index> * mirror = nullptr) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
         occs[out_index] = helfem::Vector::Zero(0);
         return;
       }
-      const helfem::Matrix Pblk  = Pspin(idx, idx);
+      helfem::Matrix Pblk  = Pspin(idx, idx);
+      // A mirrored block stands for two degenerate spatial orbitals and
+      // carries the electrons of both index sets; see
+      // accumulate_density_block.
+      if (mirror != nullptr && !mirror->empty()) {
+        Pblk += helfem::Matrix(Pspin(*mirror, *mirror));
+        max_occ *= 2.0;
+      }
       const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
@@ -266,25 +274,36 @@ namespace helfem {
         const std::vector<std::vector<Eigen::Index>> & dsym,
         const std::vector<helfem::Matrix> & Sinvh,
         const OpenOrbitalOptimizer::Orbitals<Real> & final_orbs,
-        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs) {
+        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs,
+        const std::vector<std::vector<Eigen::Index>> * dmirror = nullptr) {
       const size_t nsym = dsym.size();
       const Eigen::Index N = static_cast<Eigen::Index>(Nbf);
       helfem::Matrix Pa_final = helfem::Matrix::Zero(N, N);
       helfem::Matrix Pb_final = helfem::Matrix::Zero(N, N);
       for (size_t k = 0; k < nsym; ++k) {
         if (dsym[k].empty()) continue;
-        const std::vector<Eigen::Index> & idx = dsym[k];
+        // The -|m| partner of a mirrored block holds half of its electrons;
+        // see accumulate_density_block.
+        const std::vector<Eigen::Index> * mirror = dmirror ? &(*dmirror)[k] : nullptr;
+        auto scatter = [&](helfem::Matrix & P, const helfem::Matrix & P_block) {
+          if (mirror != nullptr && !mirror->empty()) {
+            P(dsym[k], dsym[k]) += 0.5 * P_block;
+            P(*mirror, *mirror) += 0.5 * P_block;
+          } else {
+            P(dsym[k], dsym[k]) += P_block;
+          }
+        };
         const helfem::Matrix orb_a_ao = Sinvh[k] * final_orbs[k];
         const helfem::Vector occ_a    = final_occs[k];
         if (restricted) {
           const helfem::Matrix P_block = 0.5 * (orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
-          Pa_final(idx, idx) += P_block;
-          Pb_final(idx, idx) += P_block;
+          scatter(Pa_final, P_block);
+          scatter(Pb_final, P_block);
         } else {
           const helfem::Matrix orb_b_ao = Sinvh[k] * final_orbs[nsym + k];
           const helfem::Vector occ_b    = final_occs[nsym + k];
-          Pa_final(idx, idx) += orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
-          Pb_final(idx, idx) += orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+          scatter(Pa_final, orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
+          scatter(Pb_final, orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose());
         }
       }
       return {Pa_final, Pb_final};
-- 
2.43.0


From c2c9d764ffac44af392fd70d827e14a513bf7494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 23/41] fix: no spin-Zeeman energy for the spin-averaged
 density of restricted runs

A restricted run with nela != nelb has the same alpha and beta densities and a
spin-independent Fock matrix, but its energy had -Bz/2*(nela-nelb) added.
---
 src/atomic/main.cpp   | 7 ++++---
 src/diatomic/main.cpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 57ce0d9..aeef905 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -411,11 +411,12 @@ int main(int argc, char **argv) {
     const double Enuc = (P * Vnuc).trace();
     // External-field contributions. Vel/Vmag/Vconf are zero matrices when
     // the corresponding coupling is disabled, so the traces cost O(Nbf).
-    // The -Bz/2 * (nela-nelb) piece is the Ms.Bz spin-Zeeman term:
-    // restricted mode has nela == nelb so it vanishes there.
+    // The -Bz/2 * (nela-nelb) piece is the Ms.Bz spin-Zeeman term: it
+    // vanishes for the spin-averaged density of restricted mode, also
+    // when nela != nelb.
     const double Eefield = have_efield ? (P * Vel).trace()  : 0.0;
     const double Emfield = have_bfield
-        ? (P * Vmag).trace() - 0.5 * Bz * (nela - nelb) : 0.0;
+        ? (P * Vmag).trace() - (restricted ? 0.0 : 0.5 * Bz * (nela - nelb)) : 0.0;
     const double Econf   = have_conf   ? (P * Vconf).trace() : 0.0;
 
     const helfem::Matrix J = basis.coulomb(P);
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 0493fd3..d4047b1 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -429,7 +429,7 @@ int main(int argc, char **argv) {
     // coupling is off; Enucfield is a scalar independent of the density.
     const double Eefield = have_efield ? (P * Vel).trace() + Enucfield : 0.0;
     const double Emfield = have_bfield
-        ? (P * Vmag).trace() - 0.5 * Bz * (nela - nelb) : 0.0;
+        ? (P * Vmag).trace() - (restricted ? 0.0 : 0.5 * Bz * (nela - nelb)) : 0.0;
 
     tcomp.set();
     const helfem::Matrix J = basis.coulomb(P);
-- 
2.43.0


From 03739c6788a692a28b859295e300eab3ccc6ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 24/41] fix: relax --symmetry=3 in a magnetic field

The +m and -m orbitals are not degenerate in a magnetic field; the mirrored blocks
gave the -|m| functions the Fock matrix of the +|m| ones.
---
 src/diatomic/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index d4047b1..a8df835 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -237,6 +237,12 @@ int main(int argc, char **argv) {
     printf("Warning - asked for full orbital symmetry in presence of magnetic field. Relaxing restriction.\n");
     symm = 1;
   }
+  // symm=3 treats +m and -m as degenerate, which the orbital Zeeman
+  // term m*Bz/2 lifts.
+  if (symm == 3 && Bz != 0.0) {
+    printf("Warning - asked for degenerate +-m orbitals in presence of magnetic field. Relaxing restriction.\n");
+    symm = 1;
+  }
 
   diatomic::basis::TwoDBasis basis(Z1, Z2, Rhalf, poly, Nquad, bval, lval, mval);
   const size_t Nbf = basis.Nbf();
-- 
2.43.0


From 314e7f195cee98bee91545d4762dd9f9e4bb830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 25/41] fix: aij counts beta electrons of an angular momentum
 without alpha electrons

The unrestricted Fock builder skipped both spins of an l block whenever its alpha
occupations were all zero, dropping the beta electrons in it.
---
 src/sadatom/aij.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index e512259..db362db 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -474,7 +474,7 @@ int main(int argc, char **argv) {
     helfem::Cube Pbl(lmax+1, helfem::Matrix::Zero(Nrad, Nrad));
     for(int l=0;l<=lmax;l++) {
       // Nothing to do
-      if(occupations[l].cwiseAbs().maxCoeff()==0.0)
+      if(occupations[l].cwiseAbs().maxCoeff()==0.0 and occupations[l+lmax+1].cwiseAbs().maxCoeff()==0.0)
         continue;
 
       // Same radial basis for all l!
-- 
2.43.0


From e46275f99a30976315f3f7c663bcb9449a1ef5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 26/41] fix: aij saves the total density of an unrestricted run

density_*.dat had the alpha density alone.
---
 src/sadatom/aij.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index db362db..a02ec4a 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -555,14 +555,15 @@ int main(int argc, char **argv) {
     const auto & occupations = dm.second;
     // Radial density matrix
     helfem::Matrix Prad = helfem::Matrix::Zero(Nrad, Nrad);
-    for(int l=0;l<=lmax;l++) {
+    // All blocks: unrestricted runs have lmax+1 for either spin
+    for(size_t b=0;b<orbitals.size();b++) {
       // Nothing to do
-      if(occupations[l].cwiseAbs().maxCoeff()==0.0)
+      if(occupations[b].cwiseAbs().maxCoeff()==0.0)
         continue;
 
       // Same radial basis for all l!
-      helfem::Matrix C = Sinvh*orbitals[l];
-      helfem::Matrix P = C*occupations[l].asDiagonal()*C.transpose();
+      helfem::Matrix C = Sinvh*orbitals[b];
+      helfem::Matrix P = C*occupations[b].asDiagonal()*C.transpose();
       Prad += P;
     }
     return Prad;
-- 
2.43.0


From fc09c3a10205b6620a93de5132a6099ea0394c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 27/41] fix: aij refuses functionals with exact exchange

Its Fock builders have no exchange term, so --method=HF ran without exchange and
hybrids without their exact part, silently.
---
 src/sadatom/aij.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index a02ec4a..47e9846 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -156,6 +156,13 @@ int main(int argc, char **argv) {
     throw std::logic_error("The specified exchange functional is not currently supported in HelFEM.\n");
   if(!is_supported(c_func))
     throw std::logic_error("The specified correlation functional is not currently supported in HelFEM.\n");
+  {
+    // The Fock builders below have no exact exchange
+    double omega, kfrac, kshort;
+    ::range_separation(x_func, omega, kfrac, kshort);
+    if(kfrac != 0.0 or kshort != 0.0)
+      throw std::logic_error("Exact exchange is not supported in the atom-in-jellium program.\n");
+  }
 
   // Determine box size
   double R = 0.0, r_inner = 0.0, r_outer = 0.0;
-- 
2.43.0


From f68518f767a42a519e59683b8095a451460ac894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 28/41] fix: no empty element in the aij vacancy grid

r_inner was inserted also when it already was an element boundary (always so for
Z=Q, where it is zero), making an element of zero length.
---
 src/sadatom/aij.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index 47e9846..dd526f7 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -251,7 +251,8 @@ int main(int argc, char **argv) {
   }
 
   // Handle vacancy case
-  if(vacancy) {
+  // Already a boundary when it is the origin (Z-Q=0) or falls on the grid
+  if(vacancy and (bval.array()-r_inner).abs().minCoeff() > 1e-10*r_outer) {
     helfem::Vector vbval(bval.size()+1);
     vbval.head(bval.size())=bval;
     vbval(bval.size()) = r_inner;
-- 
2.43.0


From e6fed87d432bb456d12484a5ea3750de4668e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 29/41] fix: importance profile of unrestricted gensap runs
 covers all occupied orbitals

The number of occupied alpha shells was counted with the two-spin capacity, so half
of them were left out.
---
 src/sadatom/main.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sadatom/main.cpp b/src/sadatom/main.cpp
index fc49102..d6c3822 100644
--- a/src/sadatom/main.cpp
+++ b/src/sadatom/main.cpp
@@ -145,14 +145,15 @@ static helfem::Matrix ao_completeness_profile(
 // SCFSolver::ao_importance_profile.
 static helfem::Matrix ao_importance_profile(
     const helfem::sadatom::basis::TwoDBasis & basis,
-    const helfem::Cube & C, const Eigen::VectorXi & occs, int lmax,
+    const helfem::Cube & C, const Eigen::VectorXi & occs, bool restricted, int lmax,
     const helfem::Vector & expn,
     const std::function<helfem::Matrix(int l, const helfem::Vector & r)> & eval_ao) {
   helfem::Matrix I = helfem::Matrix::Zero(expn.size(), lmax + 2);
   I.col(0) = expn;
   for (int l = 0; l <= lmax; l++) {
     if (occs(l) <= 0) continue;
-    const int nocc = (int) std::ceil(occs(l) / (2.0 * (2.0 * l + 1.0)));
+    // Electrons per shell: both spins if restricted, one if not
+    const int nocc = (int) std::ceil(occs(l) / ((restricted ? 2.0 : 1.0) * (2.0 * l + 1.0)));
     const helfem::Matrix Cocc = C[l].leftCols(nocc);
     helfem::Matrix ao_projection = helfem::Matrix::Zero(nocc, expn.size());
     for (size_t iel = 0; iel < basis.get_rad_Nel(); iel++) {
@@ -175,7 +176,7 @@ static helfem::Matrix ao_importance_profile(
 // density to <El>_{gto,sto}_{completeness,importance}.dat, over a
 // log-spaced exponent grid.
 static void write_profiles(
-    const helfem::sadatom::scf::AtomicSCFResult & result, int Z, int lmax,
+    const helfem::sadatom::scf::AtomicSCFResult & result, bool restricted, int Z, int lmax,
     double minexp = 1e-5, double maxexp = 1e10, size_t nexp = 501) {
   const helfem::Vector logexp = helfem::Vector::LinSpaced(
       nexp, std::log10(minexp), std::log10(maxexp));
@@ -193,9 +194,9 @@ static void write_profiles(
   io::write_raw_ascii(el + "_sto_completeness.dat",
                       ao_completeness_profile(result.basis, Sinvh, lmax, expn, eval_sto));
   io::write_raw_ascii(el + "_gto_importance.dat",
-                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, lmax, expn, eval_gto));
+                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, restricted, lmax, expn, eval_gto));
   io::write_raw_ascii(el + "_sto_importance.dat",
-                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, lmax, expn, eval_sto));
+                      ao_importance_profile(result.basis, result.orbs_a, result.occs_a, restricted, lmax, expn, eval_sto));
   printf("Wrote GTO/STO completeness and importance profiles for %s.\n", el.c_str());
 }
 
@@ -424,7 +425,7 @@ int main(int argc, char **argv) {
 
   // GTO/STO completeness + importance profiles for basis-set design.
   if (parser.get<bool>("completeness"))
-    write_profiles(result, Z, lmax);
+    write_profiles(result, restricted, Z, lmax);
 
   // Density / atomic-size diagnostics (parity with bespoke gensap).
   {
-- 
2.43.0


From 5e8f3c6beab3b2d68ca5067449e278fd774c4627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 30/41] fix: refuse malformed --occs instead of dropping the
 rest

Parsing stopped at the first bad token, so trailing junk after lmax+1 numbers was
silently ignored.
---
 src/sadatom/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sadatom/main.cpp b/src/sadatom/main.cpp
index d6c3822..f1edc36 100644
--- a/src/sadatom/main.cpp
+++ b/src/sadatom/main.cpp
@@ -377,6 +377,8 @@ int main(int argc, char **argv) {
       std::istringstream iss(occstr);
       std::vector<double> vals; double v;
       while (iss >> v) vals.push_back(v);
+      if (!iss.eof())
+        throw std::logic_error("Could not parse --occs \"" + occstr + "\".\n");
       const int nl = lmax + 1;
       auto to_dvec = [](const std::vector<double> & x) {
         Eigen::VectorXd o(x.size());
-- 
2.43.0


From bd6a86c8d15885e039ce4e86ac24bce27420a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 31/41] fix: add up occs.dat rows that name the same symmetry
 block

The later row replaced the earlier one in the frozen occupations, while both
counted towards the totals that are compared with nela and nelb.
---
 src/atomic/main.cpp   | 6 +++---
 src/diatomic/main.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index aeef905..1d5a5b6 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -572,10 +572,10 @@ int main(int argc, char **argv) {
       if (restricted) {
         if (nocca_i != noccb_i)
           throw std::logic_error("occs.dat: nocca != noccb on a row is incompatible with restricted mode.");
-        fixed_particles(matched_block) = static_cast<OOO_Real>(nocca_i + noccb_i);
+        fixed_particles(matched_block) += static_cast<OOO_Real>(nocca_i + noccb_i);
       } else {
-        fixed_particles(matched_block)         = static_cast<OOO_Real>(nocca_i);
-        fixed_particles(nsym + matched_block)  = static_cast<OOO_Real>(noccb_i);
+        fixed_particles(matched_block)        += static_cast<OOO_Real>(nocca_i);
+        fixed_particles(nsym + matched_block) += static_cast<OOO_Real>(noccb_i);
       }
     }
     if (total_a != nela)
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index a8df835..1d63e08 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -591,10 +591,10 @@ int main(int argc, char **argv) {
       if (restricted) {
         if (nocca_i != noccb_i)
           throw std::logic_error("occs.dat: nocca != noccb on a row is incompatible with restricted mode.");
-        fixed_particles(matched_block) = static_cast<OOO_Real>(nocca_i + noccb_i);
+        fixed_particles(matched_block) += static_cast<OOO_Real>(nocca_i + noccb_i);
       } else {
-        fixed_particles(matched_block)         = static_cast<OOO_Real>(nocca_i);
-        fixed_particles(nsym + matched_block)  = static_cast<OOO_Real>(noccb_i);
+        fixed_particles(matched_block)        += static_cast<OOO_Real>(nocca_i);
+        fixed_particles(nsym + matched_block) += static_cast<OOO_Real>(noccb_i);
       }
     }
     if (total_a != nela)
-- 
2.43.0


From a6b4890731b1342fd06c66f48b794a3119b1d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 32/41] fix: relax --symmetry=2 for finite nuclei of different
 size

The nuclear potential then mixes the gerade and ungerade blocks, which the
block-diagonal Fock matrix dropped.
---
 src/diatomic/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 1d63e08..df14fa1 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -237,6 +237,11 @@ int main(int argc, char **argv) {
     printf("Warning - asked for full orbital symmetry in presence of magnetic field. Relaxing restriction.\n");
     symm = 1;
   }
+  // Nor is there an inversion centre when the nuclei have different sizes.
+  if (symm == 2 && finitenuc != 0 && Rrms1 != Rrms2) {
+    printf("Warning - asked for homonuclear symmetry for nuclei of different size. Relaxing to symmetry=1.\n");
+    symm = 1;
+  }
   // symm=3 treats +m and -m as degenerate, which the orbital Zeeman
   // term m*Bz/2 lifts.
   if (symm == 3 && Bz != 0.0) {
-- 
2.43.0


From 2b49748adf0b0a472b8ee3c2fa69731516e6141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 33/41] fix: gensap --load keeps fractional and both spins'
 electrons

The loaded densities were rescaled to per-l electron counts rounded to integers,
an unrestricted run found no beta electrons in a restricted record, and a
restricted run dropped the beta electrons of an unrestricted one.
---
 src/sadatom/scf.cpp | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 2cc312e..536aa0f 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -455,7 +455,7 @@ namespace helfem {
             }
           }
           helfem::Cube Pbl_old;
-          if (!restricted && loadchk.exist("sadatom_Pbl_0")) {
+          if (loadchk.exist("sadatom_Pbl_0")) {
             helfem::Matrix slice0;
             loadchk.read("sadatom_Pbl_0", slice0);
             Pbl_old.assign(old_nblock_read, helfem::Matrix::Zero(slice0.rows(), slice0.cols()));
@@ -470,13 +470,28 @@ namespace helfem {
             }
           }
 
+          // The spin treatment may differ between the runs: a restricted
+          // record has no beta slices, its density is that of both spins.
+          if (restricted) {
+            for (size_t l = 0; l < Pbl_old.size(); ++l)
+              Pal_old[l] += Pbl_old[l];
+          } else if (Pbl_old.empty()) {
+            for (auto & Pl : Pal_old)
+              Pl *= 0.5;
+            Pbl_old = Pal_old;
+          }
+          const helfem::Matrix S_old = oldbasis.overlap();
+
           OpenOrbitalOptimizer::Orbitals<OOO_Real>            loaded_orbs(nblock * nparttype);
           OpenOrbitalOptimizer::OrbitalOccupations<OOO_Real>  loaded_occs(nblock * nparttype);
 
           auto fill_l = [&](size_t base, size_t l, const helfem::Cube & Pcube,
-                             double per_l_electrons, double max_occ) {
+                             double max_occ) {
             helfem::Matrix Pl_new;
             if (static_cast<int>(l) <= old_lmax && Pcube.size() > l) {
+              // Renormalise to the possibly fractional per-l electron
+              // count of the old density.
+              const double per_l_electrons = (Pcube[l] * S_old).trace();
               Pl_new = Pproj * Pcube[l] * Pproj.transpose();
               const double trace_now = (Pl_new * S_new).trace();
               if (trace_now > 0 && per_l_electrons > 0)
@@ -501,33 +516,14 @@ namespace helfem {
             loaded_occs[base + l] = w;
           };
 
-          // Per-l electron counts to renormalise into. Read from
-          // checkpoint if present, else fall back to trace-preserving
-          // (no rescaling). Checkpoint stores integers as N x 1 matrices.
-          Eigen::VectorXi per_l_a, per_l_b;
-          if (loadchk.exist("sadatom_occs_a")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_a", tmp);
-            per_l_a = tmp.col(0);
-          }
-          if (loadchk.exist("sadatom_occs_b")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_b", tmp);
-            per_l_b = tmp.col(0);
-          }
-
           for (size_t l = 0; l < nblock; ++l) {
-            double per_l = (static_cast<int>(l) < per_l_a.size())
-                             ? static_cast<double>(per_l_a(l)) : 0.0;
             double max_occ = restricted ? 2.0 * (2 * l + 1) : (2.0 * l + 1);
-            fill_l(0, l, Pal_old, per_l, max_occ);
+            fill_l(0, l, Pal_old, max_occ);
           }
           if (!restricted) {
             for (size_t l = 0; l < nblock; ++l) {
-              double per_l = (static_cast<int>(l) < per_l_b.size())
-                               ? static_cast<double>(per_l_b(l)) : 0.0;
               double max_occ = 2.0 * l + 1;
-              fill_l(nblock, l, Pbl_old, per_l, max_occ);
+              fill_l(nblock, l, Pbl_old, max_occ);
             }
           }
           scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
-- 
2.43.0


From 62cc143bedb3443c00c8e29233eb1af9c3107e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:47 +0000
Subject: [PATCH 34/41] fix: --load takes the overlap into account when
 diagonalising the saved density

---
 src/atomic/main.cpp             | 8 ++++----
 src/diatomic/main.cpp           | 6 +++---
 src/general/scf_driver_common.h | 9 ++++++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 1d5a5b6..b74f707 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -624,7 +624,7 @@ int main(int argc, char **argv) {
     // Build per-block (orbitals, occupations) for OOO from the
     // projected density. For a block k with basis-function index set
     // dsym[k] and orthonormaliser Sinvh_k, we diagonalise
-    //   P_orth = Sinvh_k^T . P_spin(dsym[k], dsym[k]) . Sinvh_k
+    //   P_orth = Sinvh_k^T . S . P_spin(dsym[k], dsym[k]) . S . Sinvh_k
     // and hand OOO the eigenvectors (orthonormal orbitals in the
     // block basis) and eigenvalues (per-orbital occupations, sorted
     // largest first for Aufbau semantics).
@@ -637,13 +637,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], max_occ_restr);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], max_occ_open);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], max_occ_open);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index df14fa1..81f6a65 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -644,13 +644,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr, &dmirror[k]);
+            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], max_occ_restr, &dmirror[k]);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open, &dmirror[k]);
+            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], max_occ_open, &dmirror[k]);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open, &dmirror[k]);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], max_occ_open, &dmirror[k]);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index 653c231..3be5138 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -222,14 +222,16 @@ namespace helfem {
     /// blocks become 0x0 placeholders. Called per spin channel and
     /// per block from the driver's --load path.
     ///
-    ///   P_orth = Sinvh_k^T . Pspin(dsym[k], dsym[k]) . Sinvh_k
+    ///   P_orth = Sinvh_k^T . S . Pspin(dsym[k], dsym[k]) . S . Sinvh_k
     ///          -> V, w  (descending); w clamped to [0, max_occ]
+    /// (the density matrix is contravariant: P = Sinvh P_orth Sinvh^T).
     template <typename Real>
     inline void fill_block_from_density(
         size_t out_index,
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
-        const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
+        const helfem::Matrix & Pspin, const helfem::Matrix & S,
+        const std::vector<Eigen::Index> & idx,
         const helfem::Matrix & Sinvh_block, double max_occ,
         const std::vector<Eigen::Index> * mirror = nullptr) {
       if (idx.empty()) {
@@ -245,7 +247,8 @@ namespace helfem {
         Pblk += helfem::Matrix(Pspin(*mirror, *mirror));
         max_occ *= 2.0;
       }
-      const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
+      const helfem::Matrix SX    = helfem::Matrix(S(idx, idx)) * Sinvh_block;
+      const helfem::Matrix Porth = SX.transpose() * Pblk * SX;
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
       // old symmetric-eigensolver + manual reversal.
-- 
2.43.0


From 7d1e99b152c781680018c3e264fe27bb73821285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:01 +0000
Subject: [PATCH 35/41] fix: gensap --load takes the overlap into account when
 diagonalising the saved density

---
 src/sadatom/scf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 536aa0f..e20b90b 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -499,7 +499,9 @@ namespace helfem {
             } else {
               Pl_new = helfem::Matrix::Zero(Nrad, Nrad);
             }
-            const helfem::Matrix Porth = Sinvh_full.transpose() * Pl_new * Sinvh_full;
+            // The density matrix is contravariant: P = Sinvh Porth Sinvh^T.
+            const helfem::Matrix SX    = S_new * Sinvh_full;
+            const helfem::Matrix Porth = SX.transpose() * Pl_new * SX;
             Eigen::SelfAdjointEigenSolver<helfem::Matrix> es(Porth);
             if (es.info() != Eigen::Success)
               throw std::logic_error("--load: eigendecomposition of projected l block density failed");
-- 
2.43.0


From f27cdcccb242f6d1e98daa1b797b95c1c00c5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 36/41] fix: morse --m sets the mass

The option was registered but its value never used, so that every run
was done with unit mass.
---
 src/harmonic/morse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonic/morse.cpp b/src/harmonic/morse.cpp
index 1684df8..a472a39 100644
--- a/src/harmonic/morse.cpp
+++ b/src/harmonic/morse.cpp
@@ -67,6 +67,7 @@ int main(int argc, char **argv) {
   double De = parser.get<double>("De");
   double a = parser.get<double>("a");
   double re = parser.get<double>("re");
+  double m = parser.get<double>("m");
   bool deuteron = parser.get<bool>("deuteron");
   std::string save = parser.get<std::string>("save");
 
@@ -97,7 +98,7 @@ int main(int argc, char **argv) {
   // Form potential matrix
   helfem::Matrix V(potential(fem, xq, wq, De, a, re));
   // Form kinetic energy matrix
-  helfem::Matrix T(kinetic(fem, xq, wq));
+  helfem::Matrix T(kinetic(fem, xq, wq)/m);
   if(deuteron)
     T/=2.0;
 
-- 
2.43.0


From db06d84eb4f248a3d0f53ed5653fb7371b2bc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 37/41] fix: morse prints no more energies than there are basis
 functions

---
 src/harmonic/morse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonic/morse.cpp b/src/harmonic/morse.cpp
index a472a39..b70db85 100644
--- a/src/harmonic/morse.cpp
+++ b/src/harmonic/morse.cpp
@@ -127,7 +127,7 @@ int main(int argc, char **argv) {
   // Go back to non-orthonormal basis
   C=Sinvh*C;
 
-  for(size_t i=0;i<10;i++)
+  for(size_t i=0;i<std::min<size_t>(10,E.size());i++)
     printf("E[%i] = % .15e\n",(int) i, E(i));
 
   // Test orthonormality
-- 
2.43.0


From 95879f0d4aabfebbf72faba5d3a6c8145186e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 38/41] fix: density_grid with more beta orbitals than beta
 electrons

The kinetic energy density of the beta orbitals was evaluated with all
the columns of Cb instead of the occupied ones, and the sizes did not
match.
---
 src/diatomic/density_grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diatomic/density_grid.cpp b/src/diatomic/density_grid.cpp
index 5075043..582eca9 100644
--- a/src/diatomic/density_grid.cpp
+++ b/src/diatomic/density_grid.cpp
@@ -155,7 +155,7 @@ int main(int argc, char **argv) {
     Eigen::MatrixXcd STCasub = STCa.leftCols(nela)(bidx, Eigen::all).cast<std::complex<double>>();
     Eigen::MatrixXcd STCbsub;
     if(nelb) {
-	STCbsub = STCb(bidx, Eigen::all).cast<std::complex<double>>();
+	STCbsub = STCb.leftCols(nelb)(bidx, Eigen::all).cast<std::complex<double>>();
     }
 
     // Radial values
-- 
2.43.0


From 35db59e72af7aeba21aa6a40143fdd3a38939966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:06 +0000
Subject: [PATCH 39/41] fix: sadatom 1e uses the finite nuclear model in its
 Hamiltonian

--finitenuc and --Rrms only affected the radial grid, so that the
energies printed were those of a point nucleus.
---
 src/sadatom/1e.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sadatom/1e.cpp b/src/sadatom/1e.cpp
index 63a648e..3735e0e 100644
--- a/src/sadatom/1e.cpp
+++ b/src/sadatom/1e.cpp
@@ -18,6 +18,8 @@
 #include "../general/constants.h"
 #include "../general/dftfuncs.h"
 #include "../general/elements.h"
+#include "../general/model_potential.h"
+#include "../general/radial_block_helper.h"
 #include "../general/scf_helpers.h"
 #include "utils.h"
 #include "dftgrid.h"
@@ -25,6 +27,7 @@
 #include "Matrix.h"
 #include <Eigen/Eigenvalues>
 #include <cfloat>
+#include <memory>
 
 using namespace helfem;
 
@@ -111,11 +114,20 @@ int main(int argc, char **argv) {
   const helfem::Matrix Sinvh = scf::form_Sinvh(S, /*chol=*/false);
   const helfem::Matrix T     = radial.kinetic();
   const helfem::Matrix Tl    = radial.kinetic_l();
-  const helfem::Matrix V     = radial.nuclear();
+  helfem::Matrix V;
+  if (finitenuc != modelpotential::POINT_NUCLEUS) {
+    std::unique_ptr<modelpotential::ModelPotential> pot(
+        modelpotential::get_nuclear_model(
+            (modelpotential::nuclear_model_t) finitenuc, Z, Rrms));
+    V = helfem::assemble_radial_diagonal(radial,
+        [&](size_t iel) { return radial.model_potential(pot.get(), iel); });
+  } else {
+    V = Z * radial.nuclear();
+  }
 
   for (int l = 0; l <= lmax; ++l) {
     const helfem::Matrix H0 =
-        Sinvh.transpose() * (T + Z * V + l * (l + 1) * Tl) * Sinvh;
+        Sinvh.transpose() * (T + V + l * (l + 1) * Tl) * Sinvh;
     Eigen::SelfAdjointEigenSolver<helfem::Matrix> es(H0);
     const helfem::Vector E = es.eigenvalues();
     helfem::Matrix C = Sinvh * es.eigenvectors();
-- 
2.43.0


From fcb298d140f819c2430acdae4414dc420240d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 40/41] fix: Python bindings use the Eigen interface of the
 library

---
 python/bindings.cpp | 72 +++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index c027fb9..f52180b 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -36,7 +36,6 @@
 #include <pybind11/numpy.h>
 #include <pybind11/stl.h>
 
-#include <armadillo>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -46,37 +45,37 @@
 #include "../src/atomic/TwoDBasis.h"
 #include "../libhelfem/include/PolynomialBasis.h"
 #include "../libhelfem/include/ModelPotential.h"
-#include "../libhelfem/include/ArmaEigen.h"
+#include "../libhelfem/include/Matrix.h"
 
 namespace py = pybind11;
 
 namespace helfem_py {
 
-  // Copy arma::mat -> C-order numpy. arma is column-major internally;
-  // the loop here transposes implicitly so the resulting numpy array is
-  // C-contiguous (rows-fast).
-  static py::array_t<double> arma_to_numpy(const arma::mat & M) {
-    std::vector<py::ssize_t> shape{(py::ssize_t) M.n_rows, (py::ssize_t) M.n_cols};
+  // Copy helfem::Matrix -> C-order numpy. Eigen is column-major
+  // internally; the loop here transposes implicitly so the resulting
+  // numpy array is C-contiguous (rows-fast).
+  static py::array_t<double> matrix_to_numpy(const helfem::Matrix & M) {
+    std::vector<py::ssize_t> shape{(py::ssize_t) M.rows(), (py::ssize_t) M.cols()};
     py::array_t<double> out(shape);
     double * dst = out.mutable_data();
-    for (arma::uword i = 0; i < M.n_rows; ++i)
-      for (arma::uword j = 0; j < M.n_cols; ++j)
-        dst[i * M.n_cols + j] = M(i, j);
+    for (Eigen::Index i = 0; i < M.rows(); ++i)
+      for (Eigen::Index j = 0; j < M.cols(); ++j)
+        dst[i * M.cols() + j] = M(i, j);
     return out;
   }
 
-  // C-contiguous numpy -> arma::mat (forces double conversion).
-  static arma::mat numpy_to_arma(
+  // C-contiguous numpy -> helfem::Matrix (forces double conversion).
+  static helfem::Matrix numpy_to_matrix(
       py::array_t<double, py::array::c_style | py::array::forcecast> a) {
     if (a.ndim() != 2)
-      throw std::runtime_error("numpy_to_arma: expected 2-D ndarray.");
+      throw std::runtime_error("numpy_to_matrix: expected 2-D ndarray.");
     const py::ssize_t nr = a.shape(0);
     const py::ssize_t nc = a.shape(1);
-    arma::mat M((arma::uword) nr, (arma::uword) nc);
+    helfem::Matrix M((Eigen::Index) nr, (Eigen::Index) nc);
     const double * src = a.data();
     for (py::ssize_t i = 0; i < nr; ++i)
       for (py::ssize_t j = 0; j < nc; ++j)
-        M((arma::uword) i, (arma::uword) j) = src[i * nc + j];
+        M((Eigen::Index) i, (Eigen::Index) j) = src[i * nc + j];
     return M;
   }
 
@@ -95,10 +94,10 @@ namespace helfem_py {
       poly_ = std::shared_ptr<const polynomial_basis::PolynomialBasis>(
           polynomial_basis::get_basis(primbas, nnodes));
       // Angular (l, m) list for shells up to (lmax, mmax).
-      arma::ivec lval, mval;
+      Eigen::VectorXi lval, mval;
       atomic::basis::angular_basis(lmax, mmax, lval, mval);
       // Radial element boundary grid.
-      arma::vec bval = atomic::basis::form_grid(
+      const helfem::Vector bval = atomic::basis::form_grid(
           (modelpotential::nuclear_model_t) finitenuc,
           Rrms, nelem, Rmax, igrid, zexp,
           /*Nelem0=*/0, /*igrid0=*/igrid, /*zexp0=*/zexp,
@@ -108,8 +107,7 @@ namespace helfem_py {
       basis_ = atomic::basis::TwoDBasis(
           Z, (modelpotential::nuclear_model_t) finitenuc, Rrms,
           poly_, /*zeroder=*/false,
-          Nquad, helfem::to_eigen(bval), helfem::to_eigen(lval),
-          helfem::to_eigen(mval), /*Zl=*/0, /*Zr=*/0, /*Rhalf=*/0.0);
+          Nquad, bval, lval, mval, /*Zl=*/0, /*Zr=*/0, /*Rhalf=*/0.0);
     }
 
     int Z() const { return Z_; }
@@ -125,27 +123,22 @@ namespace helfem_py {
     }
     py::list lvals() const {
       py::list out;
-      arma::ivec lv = basis_.get_lval();
-      for (arma::uword i = 0; i < lv.n_elem; ++i) out.append((int) lv(i));
+      const Eigen::VectorXi lv = basis_.get_lval();
+      for (Eigen::Index i = 0; i < lv.size(); ++i) out.append((int) lv(i));
       return out;
     }
     py::list mvals() const {
       py::list out;
-      arma::ivec mv = basis_.get_mval();
-      for (arma::uword i = 0; i < mv.n_elem; ++i) out.append((int) mv(i));
+      const Eigen::VectorXi mv = basis_.get_mval();
+      for (Eigen::Index i = 0; i < mv.size(); ++i) out.append((int) mv(i));
       return out;
     }
 
-    // Phase 3: basis_ SCF surface returns helfem::Matrix; bridge to
-    // arma at the numpy boundary (kept arma_to_numpy for now to
-    // preserve byte-identical Python behavior).
-    py::array_t<double> overlap() const { return arma_to_numpy(helfem::to_arma(basis_.overlap())); }
-    py::array_t<double> kinetic() const { return arma_to_numpy(helfem::to_arma(basis_.kinetic())); }
-    py::array_t<double> nuclear() const { return arma_to_numpy(helfem::to_arma(basis_.nuclear())); }
+    py::array_t<double> overlap() const { return matrix_to_numpy(basis_.overlap()); }
+    py::array_t<double> kinetic() const { return matrix_to_numpy(basis_.kinetic()); }
+    py::array_t<double> nuclear() const { return matrix_to_numpy(basis_.nuclear()); }
     py::array_t<double> hcore()   const {
-      const arma::mat T = helfem::to_arma(basis_.kinetic());
-      const arma::mat V = helfem::to_arma(basis_.nuclear());
-      return arma_to_numpy(arma::mat(T + V));
+      return matrix_to_numpy(basis_.kinetic() + basis_.nuclear());
     }
 
     /// Build (J, K) from a density matrix. K returned with HF MINUS sign
@@ -156,26 +149,23 @@ namespace helfem_py {
     std::tuple<py::array_t<double>, py::array_t<double>>
     get_jk(py::array_t<double, py::array::c_style | py::array::forcecast> P_in) {
       ensure_tei_();
-      // Phase 3: basis_.coulomb / exchange take/return helfem::Matrix.
-      const helfem::Matrix P_E = helfem::to_eigen(numpy_to_arma(P_in));
-      const arma::mat J = helfem::to_arma(basis_.coulomb(P_E));
-      const arma::mat K = -helfem::to_arma(basis_.exchange(P_E));  // flip sign for PySCF positivity
-      return std::make_tuple(arma_to_numpy(J), arma_to_numpy(K));
+      const helfem::Matrix P = numpy_to_matrix(P_in);
+      const helfem::Matrix J = basis_.coulomb(P);
+      const helfem::Matrix K = -basis_.exchange(P);  // flip sign for PySCF positivity
+      return std::make_tuple(matrix_to_numpy(J), matrix_to_numpy(K));
     }
 
     py::array_t<double>
     coulomb(py::array_t<double, py::array::c_style | py::array::forcecast> P_in) {
       ensure_tei_();
-      const helfem::Matrix P_E = helfem::to_eigen(numpy_to_arma(P_in));
-      return arma_to_numpy(helfem::to_arma(basis_.coulomb(P_E)));
+      return matrix_to_numpy(basis_.coulomb(numpy_to_matrix(P_in)));
     }
 
     py::array_t<double>
     exchange(py::array_t<double, py::array::c_style | py::array::forcecast> P_in) {
       ensure_tei_();
-      const helfem::Matrix P_E = helfem::to_eigen(numpy_to_arma(P_in));
       // Match PySCF positive-K convention.
-      return arma_to_numpy(arma::mat(-helfem::to_arma(basis_.exchange(P_E))));
+      return matrix_to_numpy(-basis_.exchange(numpy_to_matrix(P_in)));
     }
 
     /// Density-fitted (Cholesky-factored) BARE radial Slater integrals.
-- 
2.43.0


From b49dfd2ae9266b02e913b61941c1ce524e4d9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 41/41] fix: exact exchange of hybrids follows the functional's
 external parameters

---
 src/atomic/main.cpp      |  2 +-
 src/diatomic/main.cpp    |  2 +-
 src/general/dftfuncs.cpp | 12 +++++++++++-
 src/general/dftfuncs.h   |  5 +++--
 src/sadatom/aij.cpp      |  2 +-
 src/sadatom/scf.cpp      |  2 +-
 6 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index b74f707..56a9feb 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -235,7 +235,7 @@ int main(int argc, char **argv) {
   // using either erfc or Yukawa kernel (functional-dependent, discovered
   // via is_range_separated).
   double kfrac, kshort, omega;
-  range_separation(x_func, omega, kfrac, kshort);
+  range_separation(x_func, omega, kfrac, kshort, true, x_pars);
   const bool have_exx = (kfrac != 0.0 || kshort != 0.0);
   const bool have_xc  = (x_func != 0 || c_func != 0);
   bool rs_erfc = false, rs_yukawa = false;
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 81f6a65..40a040f 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -183,7 +183,7 @@ int main(int argc, char **argv) {
     throw std::logic_error("The specified functional is not supported in HelFEM.\n");
 
   double kfrac, kshort, omega;
-  range_separation(x_func, omega, kfrac, kshort);
+  range_separation(x_func, omega, kfrac, kshort, true, x_pars);
   const bool have_exx = (kfrac != 0.0 || kshort != 0.0);
   const bool have_xc  = (x_func != 0 || c_func != 0);
   if (have_exx && kshort != 0.0)
diff --git a/src/general/dftfuncs.cpp b/src/general/dftfuncs.cpp
index d3f7e31..774cc33 100644
--- a/src/general/dftfuncs.cpp
+++ b/src/general/dftfuncs.cpp
@@ -508,7 +508,7 @@ bool is_range_separated(int func_id, bool check) {
   return erf || yukawa;
 }
 
-void range_separation(int func_id, double & omega, double & alpha, double & beta, bool check) {
+void range_separation(int func_id, double & omega, double & alpha, double & beta, bool check, const helfem::Vector & pars) {
   // Defaults
   omega=0.0;
   alpha=0.0;
@@ -522,6 +522,16 @@ void range_separation(int func_id, double & omega, double & alpha, double & beta
       throw std::runtime_error(oss.str());
     }
 
+    // The amounts of exact exchange may be parameters of the functional
+    if(pars.size()) {
+      if(pars.size() != (Eigen::Index) xc_func_info_get_n_ext_params((xc_func_info_type *) func.info)) {
+        xc_func_end(&func);
+        throw std::logic_error("Incompatible number of parameters!\n");
+      }
+      helfem::Vector phlp(pars);
+      xc_func_set_ext_params(&func, phlp.data());
+    }
+
 #if XC_MAJOR_VERSION > 7
     switch(xc_hyb_type(&func)) {
     case(XC_HYB_SEMILOCAL):
diff --git a/src/general/dftfuncs.h b/src/general/dftfuncs.h
index 8db36d8..becd292 100644
--- a/src/general/dftfuncs.h
+++ b/src/general/dftfuncs.h
@@ -17,6 +17,7 @@
 #define ERKALE_DFTFUNCS
 
 #include <string>
+#include "Matrix.h"
 
 /// Struct for a functional
 typedef struct {
@@ -60,8 +61,8 @@ bool is_supported(int func_id);
 void is_range_separated(int func_id, bool & erf, bool & yukawa, bool check=true);
 /// Is the functional range separated?
 bool is_range_separated(int func_id, bool check=true);
-/// Get range separation constants
-void range_separation(int func_id, double & omega, double & alpha, double & beta, bool check=true);
+/// Get range separation constants, for the given external parameters (if any) of the functional
+void range_separation(int func_id, double & omega, double & alpha, double & beta, bool check=true, const helfem::Vector & pars=helfem::Vector());
 
 /// Is VV10 needed?
 bool needs_VV10(int func_id, double & b, double & C);
diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index dd526f7..4c2de6d 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -159,7 +159,7 @@ int main(int argc, char **argv) {
   {
     // The Fock builders below have no exact exchange
     double omega, kfrac, kshort;
-    ::range_separation(x_func, omega, kfrac, kshort);
+    ::range_separation(x_func, omega, kfrac, kshort, true, x_pars);
     if(kfrac != 0.0 or kshort != 0.0)
       throw std::logic_error("Exact exchange is not supported in the atom-in-jellium program.\n");
   }
diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index e20b90b..e80489e 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -59,7 +59,7 @@ namespace helfem {
         // consults Ntot for restricted runs.
 
         double kfrac, kshort, omega;
-        range_separation(opts.x_func, omega, kfrac, kshort);
+        range_separation(opts.x_func, omega, kfrac, kshort, true, opts.x_pars);
         const bool have_exx = (kfrac != 0.0 || kshort != 0.0);
         const bool have_xc  = (opts.x_func != 0 || opts.c_func != 0);
         bool rs_erfc = false, rs_yukawa = false;
-- 
2.43.0

