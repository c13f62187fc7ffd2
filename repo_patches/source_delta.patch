From 9cdcca7499669ac78d084bcd81d2cb9a4134b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 01/60] fix: misc_resample shifts the highest positive
 frequency of odd-length signals correctly

For odd D the frequency with index (D-1)/2 is positive, but was treated as
the negative frequency (D-1)/2-D, so that band-limited signals occupying that
bin were not shifted but distorted.
---
 src/private/fnft__misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 43d24dc..9a6e42c 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -350,9 +350,9 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
     
     const REAL scl_factor = (REAL)D*eps_t;
     // Applying phase shift
-    for (i = 0; i <D/2; i++)
+    for (i = 0; i < (D+1)/2; i++)
         freq[i] = i/scl_factor;
-    for (i = D/2; i < D; i++)
+    for (i = (D+1)/2; i < D; i++)
         freq[i] = ((REAL)i - (REAL)D)/scl_factor;
 
     for (i = 0; i < D; i++) {
-- 
2.43.0


From e6b2f3790b11f8316a1d38821bc69c6eb4ca986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 02/60] fix: fnft_nsev_max_K accounts for the upsampling of the
 4SPLIT discretizations

Their transfer matrix has degree degree1step*upsampling_factor*D, so that
twice as many bound states as reported could be returned.
---
 src/fnft_nsev.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..9e7394c 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -54,10 +54,10 @@ fnft_nsev_opts_t fnft_nsev_default_opts()
  */
 UINT fnft_nsev_max_K(const UINT D, fnft_nsev_opts_t const * const opts)
 {
-    if (opts != NULL)
-        return nse_discretization_degree(opts->discretization) * D;
-    else
-        return nse_discretization_degree(default_opts.discretization) * D;
+    const nse_discretization_t discretization = (opts != NULL) ?
+        opts->discretization : default_opts.discretization;
+    return nse_discretization_degree(discretization)
+        * nse_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
-- 
2.43.0


From 035f3167881a1cf0109341767b433e39470d10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/60] fix: poly_roots_fasteigen handles vanishing leading
 coefficients and degree one

The companion matrix routine divides by the leading coefficient. Signals such
as the zero signal, whose transfer polynomial has a vanishing leading
coefficient, could therefore make fnft_nsev fail (2SPLIT3A/5A with few
samples).
---
 include/private/fnft__poly_roots_fasteigen.h |  3 ++-
 src/private/fnft__poly_roots_fasteigen.c     | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/private/fnft__poly_roots_fasteigen.h b/include/private/fnft__poly_roots_fasteigen.h
index 69f6e3c..9295a84 100644
--- a/include/private/fnft__poly_roots_fasteigen.h
+++ b/include/private/fnft__poly_roots_fasteigen.h
@@ -44,7 +44,8 @@
  * @param[in] p Array containing the deg+1 coefficients of the polynomial in
  *  descending order (i.e., \f$ p_{deg}, p_{deg-1}, \dots, p_1, p_0 \f$).
  * @param[out] roots Array of deg+1 points. Will be filled with the roots of
- *  \f$ p(z) \f$.
+ *  \f$ p(z) \f$. If leading coefficients are zero, the last entries are
+ *  infinite.
  * @return \link FNFT_SUCCESS \endlink or one of the FNFT_EC_... error codes
  *  defined in \link fnft_errwarn.h \endlink.
  */
diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 9aa2683..db23ced 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -30,6 +30,7 @@ INT poly_roots_fasteigen(const UINT deg,
     COMPLEX const * const p, COMPLEX * const roots)
 {
     INT int_deg, info;
+    UINT i, deg_eff;
 
   // Check inputs
   if (p == NULL)
@@ -37,9 +38,23 @@ INT poly_roots_fasteigen(const UINT deg,
   if (roots == NULL)
     return E_INVALID_ARGUMENT(roots);
 
+    // Leading coefficients that are zero correspond to roots at infinity. The
+    // root finding routine below divides by the leading coefficient.
+    deg_eff = deg;
+    while (deg_eff > 0 && p[deg - deg_eff] == 0.0)
+        deg_eff--;
+    for (i = deg_eff; i < deg; i++)
+        roots[i] = INFINITY;
+    if (deg_eff == 0)
+        return SUCCESS;
+    if (deg_eff == 1) {
+        roots[0] = -p[deg] / p[deg - 1];
+        return SUCCESS;
+    }
+
     // Call Fortran root finding routine
-    int_deg = (int)deg;
-    z_poly_roots_modified_(&int_deg, p, roots, &info);
+    int_deg = (int)deg_eff;
+    z_poly_roots_modified_(&int_deg, p + (deg - deg_eff), roots, &info);
 
     if (info == 0)
         return SUCCESS;
-- 
2.43.0


From 1ec9a026d08a160019bd405a19c5504499fe5e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 04/60] fix: eiscor exceptional shifts no longer depend on a
 global random number generator

Repeated calls with identical inputs returned different roots.
---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index b9538f0..c8f974f 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -64,10 +64,12 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   complex(8) :: shift, A(2,2)
   
   ! compute shift
-  ! random shift
+  ! exceptional shift (quasi-random, but a function of the iteration count
+  ! only, such that the results do not depend on the state of a global
+  ! random number generator)
   if ((mod(ITCNT,20).EQ.0).AND.(ITCNT.GT.0)) then
-    call random_number(G(1))
-    call random_number(G(2))
+    G(1) = modulo(0.6180339887498949d0*ITCNT,1d0)
+    G(2) = modulo(0.7548776662466927d0*ITCNT,1d0)
     shift = cmplx(G(1),G(2),kind=8)
           
   ! wilkinson shift
-- 
2.43.0


From b0c20e7d8c15e783ee6ed94a6629ecb1262b469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 05/60] fix: fnft_nsev no longer modifies opts and handles
 Richardson extrapolation with residues, NULL contspec and NULL normconsts

---
 src/fnft_nsev.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 9e7394c..99ea017 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -183,8 +183,10 @@ INT fnft_nsev(
         if (K_ptr == NULL)
             return E_INVALID_ARGUMENT(K_ptr);
     }
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy such that the options of the user (or the default options)
+    // are never modified
+    fnft_nsev_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+    opts = &opts_copy;
 
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
@@ -259,7 +261,8 @@ INT fnft_nsev(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == nsev_dstype_RESIDUES){
+        if (ds_type_opt == nsev_dstype_RESIDUES && kappa == +1
+                && bound_states != NULL && normconsts_or_residues != NULL){
             opts->discspec_type = nsev_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -317,7 +320,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -362,8 +365,14 @@ INT fnft_nsev(
                     ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
                     goto leave_fun;
             }
-            normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
-            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {
+            if (normconsts_or_residues != NULL) {
+                normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
+                if (normconsts_or_residues_sub == NULL) {
+                    ret_code = E_NOMEM;
+                    goto leave_fun;
+                }
+            }
+            if (bound_states_sub == NULL) {
                 ret_code = E_NOMEM;
                 goto leave_fun;
             }
@@ -407,8 +416,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -435,7 +444,8 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues != NULL
+                            && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -446,11 +456,9 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr* sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 132d061130822fd30abf0ee873e1f580e71e2671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 06/60] fix: fnft_nsev SUBSAMPLE_AND_REFINE returns as many
 bound states as fit, not as many initial guesses as fit

---
 src/fnft_nsev.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 99ea017..c21de22 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -161,6 +161,8 @@ INT fnft_nsev(
     COMPLEX *bound_states_sub = NULL;
     COMPLEX *normconsts_or_residues_sub = NULL;
     COMPLEX *normconsts_or_residues_reserve = NULL;
+    COMPLEX *bound_states_tmp = NULL;
+    COMPLEX *normconsts_or_residues_tmp = NULL;
     fnft_nsev_bsloc_t bs_loc_opt = 0;
     fnft_nsev_dstype_t ds_type_opt = 0;
     INT ret_code = SUCCESS;
@@ -303,19 +305,45 @@ INT fnft_nsev(
         Tsub[0] = T[0] + first_last_index[0] * eps_t;
         Tsub[1] = T[0] + first_last_index[1] * eps_t;
 
+        // The initial guesses are stored in temporary arrays because some of
+        // them will be removed after the refinement. The array provided by the
+        // user might be just large enough for the final result.
+        UINT K_tmp = fnft_nsev_max_K(Dsub, opts);
+        bound_states_tmp = malloc(K_tmp * sizeof(COMPLEX));
+        CHECK_NOMEM(bound_states_tmp, ret_code, leave_fun);
+        if (normconsts_or_residues != NULL) {
+            normconsts_or_residues_tmp = malloc(2*K_tmp * sizeof(COMPLEX));
+            CHECK_NOMEM(normconsts_or_residues_tmp, ret_code, leave_fun);
+        }
+
         // Fixed bound states of qsub using the fast eigenvalue method
         opts->bound_state_localization = nsev_bsloc_FAST_EIGENVALUE;
-        ret_code = fnft_nsev_base(Dsub * upsampling_factor, qsub_preprocessed, rsub_preprocessed, Tsub, 0, NULL, XI, K_ptr,
-                bound_states, NULL, kappa, opts);
+        ret_code = fnft_nsev_base(Dsub * upsampling_factor, qsub_preprocessed, rsub_preprocessed, Tsub, 0, NULL, XI, &K_tmp,
+                bound_states_tmp, NULL, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
 
         // Second step: Refine the found bound states using Newton's method
         // on the full signal and compute continuous spectrum
         opts->bound_state_localization = nsev_bsloc_NEWTON;
-        ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues_reserve, kappa, opts);
+        ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, &K_tmp,
+                bound_states_tmp, normconsts_or_residues_tmp, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
 
+        // Copy as many results as possible to the arrays provided by the user
+        if (K_tmp > *K_ptr) {
+            WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+        } else {
+            *K_ptr = K_tmp;
+        }
+        if (*K_ptr > 0) {
+            memcpy(bound_states, bound_states_tmp, *K_ptr * sizeof(COMPLEX));
+            if (normconsts_or_residues != NULL) {
+                memcpy(normconsts_or_residues_reserve, normconsts_or_residues_tmp, *K_ptr * sizeof(COMPLEX));
+                if (opts->discspec_type == nsev_dstype_BOTH)
+                    memcpy(normconsts_or_residues_reserve + *K_ptr, normconsts_or_residues_tmp + K_tmp, *K_ptr * sizeof(COMPLEX));
+            }
+        }
+
         // Restore original state of opts
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
@@ -469,6 +497,8 @@ INT fnft_nsev(
         free(contspec_sub);
         free(bound_states_sub);
         free(normconsts_or_residues_sub);
+        free(bound_states_tmp);
+        free(normconsts_or_residues_tmp);
         if (normconsts_or_residues_reserve != normconsts_or_residues)
             free(normconsts_or_residues_reserve);
         return ret_code;
-- 
2.43.0


From 67cc03a2361da78d7b5fb713c08b422782c4c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 07/60] fix: derivatives of the akns transfer matrices are
 finite and accurate if the matrix exponent is singular

---
 src/private/fnft__akns_scatter.c | 37 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..5854de4 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -47,14 +47,26 @@ static inline void akns_scatter_U_BO(COMPLEX const qn,
         U[5] = ch + u1;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX const chi = ch/ks;
-        COMPLEX const ud1 = eps_t*ln2*chi*I;
-        COMPLEX const ud2 = misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
-
-        U[8]  = ud1 - ( ln*eps_t + I + (ln2*I)/ks )*sh;
-        U[9]  = -qn*ud2;
-        U[12] = -rn*ud2;
-        U[13] = -ud1 - ( ln*eps_t - I - (ln2*I)/ks )*sh;
+        COMPLEX const x = ks*eps_t*eps_t;
+        if (CABS(x) > 1e-3) {
+            COMPLEX const chi = ch/ks;
+            COMPLEX const ud1 = eps_t*ln2*chi*I;
+            COMPLEX const ud2 = misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
+
+            U[8]  = ud1 - ( ln*eps_t + I + (ln2*I)/ks )*sh;
+            U[9]  = -qn*ud2;
+            U[12] = -rn*ud2;
+            U[13] = -ud1 - ( ln*eps_t - I - (ln2*I)/ks )*sh;
+        } else {
+            // The formulas above are numerically unstable if k is (close to)
+            // zero, hence use the power series of (eps_t*ch - sh)/ks instead
+            COMPLEX const g = eps_t*eps_t*eps_t*(1.0/3.0 + x*(1.0/30.0 + x*(1.0/840.0 + x*(1.0/45360.0 + x/3991680.0))));
+
+            U[8]  = ln2*g*I - ( ln*eps_t + I )*sh;
+            U[9]  = -qn*ln*g;
+            U[12] = -rn*ln*g;
+            U[13] = -ln2*g*I - ( ln*eps_t - I )*sh;
+        }
     } else {
         U[2] = rn*sh;
         U[3] = ch + u1;
@@ -80,8 +92,13 @@ static inline void akns_scatter_U_ES4(COMPLEX const a1,
 
         COMPLEX w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
         COMPLEX const c_d = -misc_CSINC(w)*w_d;
-        w_d /= w;
-        COMPLEX const s_d = w_d * misc_CSINC_derivative(w);
+        COMPLEX s_d;
+        if (CABS(w) > 0.03)
+            s_d = w_d / w * misc_CSINC_derivative(w);
+        else { // use a power series if w is (close to) zero
+            COMPLEX const w2 = w*w;
+            s_d = w_d * (-1.0/3.0 + w2*(1.0/30.0 + w2*(-1.0/840.0 + w2*(1.0/45360.0 - w2/3991680.0))));
+        }
         U[8] = c_d+s_d*a3+s*tmp2[2];
         U[9] = s_d*a1+s*tmp2[0]-I*s_d*a2-I*s*tmp2[1];
         U[12] = s_d*a1+s*tmp2[0]+I*s_d*a2+I*s*tmp2[1];
-- 
2.43.0


From 36a9d21300e4a1eea2bf0dd333c00ab029786a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 08/60] fix: akns_scatter_bound_states used uninitialised
 scaling factors and returned uninitialised norming constants

---
 src/private/fnft__akns_scatter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 5854de4..786e352 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -513,7 +513,10 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        // no scaling at the respective boundaries
+        WPHI[0] = 0;
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
@@ -848,6 +851,7 @@ INT akns_scatter_bound_states(UINT const D,
             CHECK_RETCODE(ret_code, leave_fun);
 
             REAL error_metric = INFINITY, tmp = INFINITY;
+            b_vals[neig] = NAN; // returned if b cannot be determined at any point
             for (UINT n = 0; n <= D_given; n++){
                 COMPLEX * const psi_S = &f_S[0], * const phi_S = &f_S[2], b_temp[2];
                 // Calculate phi and psi for this sample in S basis
-- 
2.43.0


From 514fa4235ab48510635c3f396b0314b2b5bf6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 09/60] fix: fnft_nsev carries out niter Newton iterations
 instead of half of them

---
 src/fnft_nsev.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index c21de22..b8e71d5 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -1115,8 +1115,10 @@ static inline INT nsev_refine_bound_states_newton(
                 CHECK_RETCODE(ret_code, leave_fun);
             }
             // Perform some checks
-            if (a_val == 0.0) // we found a zero, stop here because otherwise the
-                break; // next line will cause an error if it is of higher order
+            if (a_val == 0.0) { // we found a zero, stop here because otherwise the
+                ok_flag = 1;    // next line will cause an error if it is of higher order
+                break;
+            }
             if (aprime_val == 0.0)
                 return E_DIV_BY_ZERO;
 
@@ -1124,7 +1126,6 @@ static inline INT nsev_refine_bound_states_newton(
             // We don't have to scale a and a' by 2^W because that factor cancels.
             error = a_val / aprime_val;
             bound_states[i] -= error;
-            iter++;
             if (CIMAG(bound_states[i]) > bounding_box[3]
                     || CREAL(bound_states[i]) > bounding_box[1]
                     || CREAL(bound_states[i]) < bounding_box[0]
-- 
2.43.0


From 54aeeb692633b8d19ec2d1acf3bcce1762c3ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 10/60] fix: fnft_nsev memory leaks on error paths

---
 src/fnft_nsev.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index b8e71d5..7ee7f35 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -862,7 +862,7 @@ static inline INT nsev_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     H21_vals = H11_vals + M;
 
@@ -928,7 +928,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1040,13 +1040,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 5748dc8ab90ea8ef5d937647012c3319214a3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 11/60] fix: fnft_nsev returns finite values if M==1

---
 src/fnft_nsev.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 7ee7f35..8cd47f4 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -848,7 +848,7 @@ static inline INT nsev_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 0188f8d2315df28d5433743188dc6835ca3e1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 12/60] fix: norming constants are matched in modulus and phase

With inexact eigenvalues (fast eigenvalue method) the matching point could be
one where the two estimates differ in sign, leading to norming constants of the
wrong sign.
---
 src/private/fnft__akns_scatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 786e352..78af0c0 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -867,7 +867,9 @@ INT akns_scatter_bound_states(UINT const D,
                         b_temp[i] *= POW(2, WPHI[n] - WPSI[n]);
                 }
                 if (PDE!=akns_pde_KdV || CREAL(b_temp[0]*b_temp[1])>0) {
-                    tmp = FABS( 0.5* LOG( (REAL)CABS( b_temp[1]/b_temp[0] ) ) );
+                    // Take the phase into account as well because b_temp[1]==-b_temp[0]
+                    // is not a good match
+                    tmp = 0.5 * CABS( CLOG( b_temp[1]/b_temp[0] ) );
                     if (tmp < error_metric){
                         b_vals[neig] = b_temp[0];
                         error_metric = tmp;
-- 
2.43.0


From 8d113bec2a0a9c5eb08d8c11c2ccfe7f5b33b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 13/60] fix: fnft_kdvv no longer modifies opts and handles
 Richardson extrapolation with residues, NULL contspec and NULL normconsts

---
 src/fnft_kdvv.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..03bd904 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -163,13 +163,17 @@ INT fnft_kdvv(
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
     }
-    for (i=0; i<M; i++){
-        if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
-            return E_INVALID_ARGUMENT(XI);
+    if (contspec != NULL) {
+        for (i=0; i<M; i++){
+            if ((i == 0 ? XI[0] : XI[0]+i*(XI[1]-XI[0])/(M-1)) == 0)
+                return E_INVALID_ARGUMENT(XI);
+        }
     }
 
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy such that the options of the user (or the default options)
+    // are never modified
+    fnft_kdvv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+    opts = &opts_copy;
 
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
@@ -215,7 +219,8 @@ INT fnft_kdvv(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == kdvv_dstype_RESIDUES){
+        if (ds_type_opt == kdvv_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL){
             opts->discspec_type = kdvv_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -238,7 +243,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -282,8 +287,14 @@ INT fnft_kdvv(
                     ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
                     goto leave_fun;
             }
-            normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
-            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {
+            if (normconsts_or_residues != NULL) {
+                normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
+                if (normconsts_or_residues_sub == NULL) {
+                    ret_code = E_NOMEM;
+                    goto leave_fun;
+                }
+            }
+            if (bound_states_sub == NULL) {
                 ret_code = E_NOMEM;
                 goto leave_fun;
             }
@@ -323,8 +334,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -351,7 +362,8 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues != NULL
+                            && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -362,11 +374,9 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr* sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From b8032e8606c5b2887d1207bc1174dd2c87800090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 14/60] fix: fnft_kdvv grid search respects the maximum
 distance between grid points

---
 src/fnft_kdvv.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 03bd904..771f955 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -594,11 +594,8 @@ static inline INT kdvv_compute_boundstates(
             }
             UINT M = 0;
             if (opts->grid_spacing > 0) {
-                M = CEIL(dist/opts->grid_spacing);
-                if (M<2) {
-                    *K_ptr = 0;
-                    goto leave_fun;
-                }   
+                // M-1 intervals, i.e., at least two grid points
+                M = CEIL(dist/opts->grid_spacing) + 1;
             } else {
                 ret_code = E_INVALID_ARGUMENT(opts->grid_spacing);
                 goto leave_fun;
-- 
2.43.0


From db5f00208dc3a11e1844771a3cc913b34edb5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 15/60] fix: fnft_kdvv returns as many bound states as possible
 if the array is too short

---
 src/fnft_kdvv.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 771f955..c3abd45 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -635,17 +635,17 @@ static inline INT kdvv_compute_boundstates(
             for (i = 0; i < M; i++) {
                 if (scatter_coeffs[4*i]==0) {
                     if (K>=*K_ptr) { // Lucky us: Exact bound state found
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     bound_states[K]=xi[i];
                     K++;
                 } else if ( i>0 && CREAL(scatter_coeffs[4*i])*CREAL(scatter_coeffs[4*(i-1)])<0) {
                     if (K>=*K_ptr) { // Bound state between this sample and the previous
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
-                    
+
                     // Zero crossing estimate with regula falsi:
                     REAL scl1 = 1, scl2 = 1;
                     if (opts->normalization_flag) {
-- 
2.43.0


From c5c149390915c132b15a201bf18d502a177432dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 16/60] fix: fnft_kdvv returns finite values if M==1

---
 src/fnft_kdvv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index c3abd45..7427625 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -737,7 +737,7 @@ static inline INT kdvv_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 70d357cb5eb2d7be7e2a7857fa892ef899ba4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 17/60] fix: fnft_kdvv memory leaks on error paths

---
 src/fnft_kdvv.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 7427625..0f9d584 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -690,7 +690,8 @@ static inline INT kdvv_compute_boundstates(
 
         default:
 
-            return E_INVALID_ARGUMENT(opts->bound_state_localization);
+            ret_code = E_INVALID_ARGUMENT(opts->bound_state_localization);
+            goto leave_fun;
     }
 
     // Update number of bound states
@@ -751,7 +752,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -856,7 +857,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -960,13 +961,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 05759a632b2c61a5cce98bfc76aa45285b32c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 18/60] fix: fnft_manakovv computes the bound states only once,
 with the step size of the subsampled signal, and reports zero bound states if
 there are none

---
 src/fnft_manakovv.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..5e6ed9b 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -224,10 +224,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -247,9 +243,14 @@ INT fnft_manakovv(
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
 
-		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
+		Tsub[0] = T[0] + first_last_index[0] * eps_t;
+		Tsub[1] = T[0] + first_last_index[1] * eps_t;
+
+		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0;
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
-- 
2.43.0


From 602f60483664ecfac7276cb8be07e9eed59fb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 19/60] fix: fnft_manakovv no longer modifies opts and handles
 Richardson extrapolation with NULL contspec, NULL K_ptr and residues

---
 src/fnft_manakovv.c | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 5e6ed9b..f21158e 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -122,6 +122,7 @@ INT fnft_manakovv(
 	const INT kappa,
 	fnft_manakovv_opts_t* opts)
 {
+	(void)normconsts_or_residues; // not yet implemented
 	COMPLEX* q1sub_preprocessed = NULL;
 	COMPLEX* q2sub_preprocessed = NULL;
 	COMPLEX* q1_preprocessed = NULL;
@@ -131,9 +132,6 @@ INT fnft_manakovv(
 	UINT first_last_index[2] = { 0 };
 	UINT K_sub;
 	COMPLEX* contspec_sub = NULL;
-	COMPLEX* normconsts_or_residues_reserve = NULL;
-	fnft_manakovv_bsloc_t bs_loc_opt = 0;
-	fnft_manakovv_dstype_t ds_type_opt = 0;
 	INT ret_code = SUCCESS;
 	UINT i, j, upsampling_factor;
 
@@ -156,8 +154,10 @@ INT fnft_manakovv(
 		if (K_ptr == NULL)
 			return E_INVALID_ARGUMENT(K_ptr);
 	}
-	if (opts == NULL)
-		opts = &default_opts;
+	// Work on a copy such that the options of the user (or the default options)
+	// are never modified
+	fnft_manakovv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+	opts = &opts_copy;
 
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
@@ -199,18 +199,6 @@ INT fnft_manakovv(
 	// Determine step size
 	const REAL eps_t = (T[1] - T[0]) / (D - 1);
 
-	if (opts->richardson_extrapolation_flag == 1) {
-		ds_type_opt = opts->discspec_type;
-		if (ds_type_opt == manakovv_dstype_RESIDUES) {
-			opts->discspec_type = manakovv_dstype_BOTH;
-			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
-			if (normconsts_or_residues_reserve == NULL) {
-				ret_code = E_NOMEM;
-				goto leave_fun;
-			}
-		}
-	}
-
 	// Some higher-order discretizations require samples on a non-equidistant grid
 	// while others require derivatives. The preprocessing function computes
 	// the required non-equidistant samples using bandlimited interpolation and
@@ -304,19 +292,15 @@ INT fnft_manakovv(
 		const REAL eps_t_sub = (Tsub[1] - Tsub[0]) / (Dsub - 1);
 
 		// Calling fnft_manakovv_base with subsampled signal
-		bs_loc_opt = opts->bound_state_localization;		// TODO: maybe remove this and next line? Check.
-		opts->bound_state_localization = manakovv_bsloc_NEWTON;
 		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, contspec_sub, XI, &K_sub,
 			NULL, kappa, opts);	// bound_states already calculated. Passing NULL for boundstates to avoid recalculating
 		CHECK_RETCODE(ret_code, leave_fun);
-		opts->bound_state_localization = bs_loc_opt;
-		opts->discspec_type = ds_type_opt;
 
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 		if (contspec != NULL && M > 0) {
+			REAL const dxi = (M > 1) ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -332,8 +316,6 @@ leave_fun:
     free(q1sub_preprocessed);
 	free(q2sub_preprocessed);
 	free(contspec_sub);
-	if (normconsts_or_residues_reserve != normconsts_or_residues)
-		free(normconsts_or_residues_reserve);
 	return ret_code;
 }
 
-- 
2.43.0


From 2fa87c87ba4b8fa63d79e6dc5395021c2fb458c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 20/60] fix: fnft_manakovv rejects bound states for slow
 discretizations instead of crashing

---
 src/fnft_manakovv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index f21158e..4ebd024 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -174,8 +174,9 @@ INT fnft_manakovv(
             break;
         case manakov_discretization_BO:
 		case manakov_discretization_CF4_2:
-            if (opts->bound_state_localization != manakovv_bsloc_NEWTON &&
-                    kappa == +1 && bound_states != NULL){
+            // Bound states can currently only be localized with the fast
+            // eigenvalue method, which requires a fast discretization
+            if (kappa == +1 && bound_states != NULL){
                 ret_code = E_INVALID_ARGUMENT(opts->bound_state_localization);
                 goto leave_fun;
             }
-- 
2.43.0


From ad5a6a82e3eb97fa977666812f3c78d74a862e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 21/60] fix: fnft_manakovv returns finite values if M==1

---
 src/fnft_manakovv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 4ebd024..2a439c3 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -525,7 +525,7 @@ static inline INT manakovv_compute_contspec(
 	}
 	D_given = D / upsampling_factor;
 	const REAL eps_t = (T[1] - T[0]) / (D_given - 1);
-	const REAL eps_xi = (XI[1] - XI[0]) / (M - 1);
+	const REAL eps_xi = (M > 1) ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 
 
 	// Build xi-grid which is required for applying boundary conditions
-- 
2.43.0


From b16d33d5a607c409eee52fec77a275c0c1f5ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 22/60] fix: fnft_manakovv memory leaks on error paths

---
 src/fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 2a439c3..5d92109 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -540,7 +540,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -607,7 +607,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From 9c2cd07eae2a1928080866af494695c9ea50bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 23/60] fix: fnft_kdvv grid search takes odd scaling exponents
 into account in the zero crossing estimates

---
 src/fnft_kdvv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 0f9d584..a096dd3 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -667,7 +667,7 @@ static inline INT kdvv_compute_boundstates(
                         // However, this can quickly lead to overflow problems. By multiplying both
                         // the numerator and denominator in Eq 1 with the factor 2^-(l[i]-l[i-1])/2,
                         // we instead arrive at the following scaling factors.
-                        const REAL s = (log_scaling_factors[i]-log_scaling_factors[i-1])/2;
+                        const REAL s = (log_scaling_factors[i]-log_scaling_factors[i-1])/2.0;
                         scl1 = POW(2, s);
                         scl2 = POW(2, -s);
                     }
-- 
2.43.0


From 267f3c1d4b07150204d17460184898760511b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 24/60] fix: fnft_nsep no longer modifies opts and the default
 options

---
 src/fnft_nsep.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..58eb166 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -102,6 +102,7 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
     INT warn_flags[2] = { 0, 0 }; // 0 = no warning about too many points so
     // far, 1st val is for main spec, 2nd for aux
     COMPLEX *q_preprocessed = NULL;
+    fnft_nsep_opts_t opts_local;
 
     // Check inputs
     // D (and Dsub in line 493) only need to be even to ensure that deg in line 279 and 537 are also even for all discretizations.
@@ -124,6 +125,9 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
     if (opts_ptr == NULL)
         opts_ptr = &default_opts;
+    // Work on a local copy because the bounding box is modified below
+    opts_local = *opts_ptr;
+    opts_ptr = &opts_local;
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -225,11 +229,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         aux_spec[i] += Lam_shift;
     }
 
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From 0db97de939989f3dbcf187b5d892cbd0757d82f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 25/60] fix: fnft_nsep GRIDSEARCH and MIXED handle
 main_spec==NULL and aux_spec==NULL

---
 src/fnft_nsep.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 58eb166..670e7ac 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -183,8 +183,9 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Compute real points in the spectra via gridsearch
 
-            ret_code = gridsearch(D, q_preprocessed, T, &K2, main_spec+K1,
-                    &M2, aux_spec+M1, sheet_indices, kappa, opts_ptr, warn_flags);
+            ret_code = gridsearch(D, q_preprocessed, T, &K2,
+                    (main_spec != NULL) ? main_spec+K1 : NULL,
+                    &M2, (aux_spec != NULL) ? aux_spec+M1 : NULL, sheet_indices, kappa, opts_ptr, warn_flags);
             CHECK_RETCODE(ret_code, leave_fun);
 
             // Signal numbers of found main and aux spec points to the user
@@ -251,7 +252,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From 0eb2864a7168a32a297b76b486852681b8504b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 26/60] fix: fnft_nsep NEWTON takes the phase shift into
 account for the initial guesses

---
 src/fnft_nsep.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 670e7ac..6dd6caa 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -205,6 +205,16 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         case fnft_nsep_loc_NEWTON:
 
+            // The initial guesses are given w.r.t. the original signal
+            if (main_spec != NULL) {
+                for (i=0; i < *K_ptr * opts_ptr->points_per_spine; i++)
+                    main_spec[i] -= Lam_shift;
+            }
+            if (aux_spec != NULL) {
+                for (i=0; i < *M_ptr; i++)
+                    aux_spec[i] -= Lam_shift;
+            }
+
             ret_code = newton(D, q_preprocessed, T, K_ptr, main_spec, M_ptr, aux_spec,
                               sheet_indices, kappa, opts_ptr);
             CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From e3d15e42863ccf895674577b4921bff16faaaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 27/60] fix: fnft_nsep error path memory leaks and an unchecked
 return code

---
 src/fnft_nsep.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 6dd6caa..bc5d2cd 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -176,8 +176,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -229,7 +231,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -311,8 +314,10 @@ static inline INT gridsearch(const UINT D,
 
     // Will be required later for coordinate transforms
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
@@ -530,10 +535,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
@@ -571,8 +578,10 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
@@ -678,7 +687,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
@@ -796,8 +805,6 @@ static inline INT newton(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[1] - opts_ptr->bounding_box[0];
-- 
2.43.0


From b88723340cd2f646188b1dbf5f98da18a7741a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 28/60] fix: fnft_nsep stops the refinement of a point if the
 derivative vanishes instead of failing

---
 src/fnft_nsep.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index bc5d2cd..cf94a56 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -937,8 +937,10 @@ static inline INT refine_mainspec(
             // The current values of f and f' at lam = mainspec[k]
             f = next_f;
             f_prime = next_f_prime;
-            if (f_prime == 0.0)
-                return E_DIV_BY_ZERO;
+            if (f_prime == 0.0) { // Newton step impossible, e.g. at an
+                best_incr = 0.0;  // already exact root of higher order
+                break;
+            }
             incr = f / f_prime;
 
 	        // Test different increments to deal with the many higher order
@@ -973,9 +975,8 @@ static inline INT refine_mainspec(
             if ( CABS(best_incr) <= tol || CABS(f) <= tol ) {
                 // We already know f and f_prime at the new mainspec[k], so
                 // let's use that for a final first-order Newton step.
-                if (next_f_prime == 0.0)
-                    return E_DIV_BY_ZERO;
-                mainspec[k] -= next_f / next_f_prime;
+                if (next_f_prime != 0.0)
+                    mainspec[k] -= next_f / next_f_prime;
                 break;
             }
 
@@ -1029,8 +1030,10 @@ static inline INT refine_auxspec(
             // care about the ratio of f and f_prime, so that scl cancels out
             f = M[1]; // f = b(lam)
             f_prime = M[5]; // f' = b'(lam)
-            if (f_prime == 0.0)
-                return E_DIV_BY_ZERO;
+            if (f_prime == 0.0) { // Newton step impossible
+                incr = 0.0;
+                break;
+            }
 
             //printf("AUX k=%zu, iter=%zu: lam=%g+%gj, |f|=%g, |f_prime|=%g\n", k, iter, CREAL(auxspec[k]), CIMAG(auxspec[k]), CABS(f), CABS(f_prime));
 
-- 
2.43.0


From e1d7e88a50500f344cacb52410c9f5f5455f0dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 29/60] fix: fnft_nsep limits the number of subsamples to
 2,...,D

---
 src/fnft_nsep.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index cf94a56..06c88f8 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -529,6 +529,10 @@ static inline INT subsample_and_refine(const UINT D,
         Dsub = (UINT) POW(2.0, CEIL( 0.5 * LOG2(D * LOG2(D) * LOG2(D)) ));
     else
         Dsub = (UINT) POW(2.0, ROUND(LOG2(Dsub)));
+    if (Dsub > D)
+        Dsub = D;
+    if (Dsub < 2)
+        Dsub = 2;
 
     ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
             first_last_index, opts_ptr->discretization);
-- 
2.43.0


From 2f8a0235d8fb597bd73c7226df55afc13ab9b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 30/60] fix: fnft_nsep GRIDSEARCH and MIXED work if filtering
 is NONE

---
 src/fnft_nsep.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 06c88f8..1da17bc 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -327,6 +327,11 @@ static inline INT gridsearch(const UINT D,
         PHI[0] = PHI[1];
         PHI[1] = tmp;
     }
+    if (opts_ptr->filtering == fnft_nsep_filt_NONE) {
+        // There is no bounding box, search on the complete unit circle
+        PHI[0] = -PI;
+        PHI[1] = PI;
+    }
 
     roots = malloc(oversampling_factor*deg*sizeof(COMPLEX));
     if (roots == NULL) {
@@ -588,7 +593,10 @@ static inline INT subsample_and_refine(const UINT D,
     }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
-    tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
+    if (opts_ptr->filtering == fnft_nsep_filt_NONE)
+        tol_im = -2.0*LOG(0.1) / (FABS(map_coeff) * eps_t_sub); // same as AUTO
+    else
+        tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
     tol_im /= oversampling_factor*(D - 1);
 
     // Use unused part of transfer matrix as buffer for the roots
-- 
2.43.0


From c24f3bfdcf1dbaa7d5fb35b24b3cbbe6d73f8414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 31/60] fix: memory leak on error paths in
 akns_discretization_preprocess_signal

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..e962052 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -437,6 +437,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
 
     COMPLEX *qr_weights = NULL;
     COMPLEX *eps_t_weights = NULL;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -666,6 +668,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         free(q_1);
         free(q_2);
         free(q_3);
-- 
2.43.0


From e16f86b34cc1febc2f17dea88e6f394e90930036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 32/60] fix: manakov_discretization_preprocess_signal leaked
 memory and ignored errors during resampling

---
 src/private/fnft__manakov_discretization.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..243dc40 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -119,6 +119,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     COMPLEX *q2_c2 = NULL;
     COMPLEX *q1_sub = NULL;
     COMPLEX *q2_sub = NULL;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -156,15 +158,17 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL
+        || q1_c1 == NULL || q2_c1 == NULL || q1_c2 == NULL || q2_c2 == NULL
+        || q1_sub == NULL || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -200,10 +204,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -226,6 +234,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         free(q1_c1);
         free(q1_c2);
         free(q2_c1);
-- 
2.43.0


From a4f5b55340211496a4624d1362f410322a77a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 33/60] fix: manakov_scatter_matrix is finite if the matrix
 exponent is singular

---
 src/private/fnft__manakov_scatter.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/private/fnft__manakov_scatter.c b/src/private/fnft__manakov_scatter.c
index 4d63958..962b34e 100644
--- a/src/private/fnft__manakov_scatter.c
+++ b/src/private/fnft__manakov_scatter.c
@@ -52,18 +52,20 @@ static inline void manakov_scatter_U_BO(COMPLEX const q1,       // calculates th
     COMPLEX x1 = CSQRT(lam*lam + kappa*q1*CONJ(q1) + kappa*q2*CONJ(q2));
     COMPLEX x2  = eps_t*x1*I;
     COMPLEX x3 = q1*CONJ(q1)+q2*CONJ(q2);
+    // sinh(x2)/x1, including the limit x1->0
+    COMPLEX x4 = (x1 == 0) ? I*eps_t : CSINH(x2)/x1;
 
-        U[0] = -(lam/x1)*CSINH(x2)+CCOSH(x2);
-        U[1] = -(I*q1/x1)*CSINH(x2);
-        U[2] = -(I*q2/x1)*CSINH(x2);
+        U[0] = -lam*x4+CCOSH(x2);
+        U[1] = -I*q1*x4;
+        U[2] = -I*q2*x4;
 
-        U[3] = (I*kappa*CONJ(q1)/x1)*CSINH(x2);
-        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
-        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
+        U[3] = I*kappa*CONJ(q1)*x4;
+        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + lam*x4) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
+        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*x4);
 
-        U[6] = (I*kappa*CONJ(q2)/x1)*CSINH(x2);
-        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
-        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
+        U[6] = I*kappa*CONJ(q2)*x4;
+        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*x4);
+        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + lam*x4) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
     }
 
 }
-- 
2.43.0


From c547c6398ae6e9d9d3f2628bb3e3d5f1a6ddca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 34/60] fix: fnft_nsev and fnft_manakovv limit the number of
 subsamples to 2,...,D

---
 src/fnft_manakovv.c | 4 ++++
 src/fnft_nsev.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 5d92109..df8be69 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -225,6 +225,10 @@ INT fnft_manakovv(
 		Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = SQRT(D * LOG2(D) * LOG2(D));
+        if (Dsub > D)
+            Dsub = D;
+        if (Dsub < 2)
+            Dsub = 2;
         UINT nskip_per_step = ROUND((REAL)D / Dsub);
         Dsub = ROUND((REAL)D / nskip_per_step); // actual Dsub
 
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 8cd47f4..50e702c 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -295,6 +295,10 @@ INT fnft_nsev(
         Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = (UINT) SQRT(D * LOG2(D) * LOG2(D));
+        if (Dsub > D)
+            Dsub = D;
+        if (Dsub < 2)
+            Dsub = 2;
         nskip_per_step = (UINT) ROUND((REAL)D / Dsub);
         Dsub = (UINT) ROUND((REAL)D / nskip_per_step); // actual Dsub
 
-- 
2.43.0


From bde62226874892385aefa3442b7c4aa21b10a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 35/60] fix: manakov_discretization_method_order knows the slow
 discretizations, Richardson extrapolation failed with them

---
 src/private/fnft__manakov_discretization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index 243dc40..9480884 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -91,6 +91,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_2SPLIT4B:
         case manakov_discretization_2SPLIT4A:
         case manakov_discretization_2SPLIT6B:
+        case manakov_discretization_BO:
             return 2;
         case manakov_discretization_4SPLIT4A:
         case manakov_discretization_4SPLIT4B:
@@ -98,6 +99,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_FTES4_4A:
         case manakov_discretization_FTES4_4B:
 		case manakov_discretization_FTES4_suzuki:
+        case manakov_discretization_CF4_2:
             return 4;
 
         default: // discretization not implemented for manakov
-- 
2.43.0


From d6326eacc4dca43ac0b1feb22aa157bfd12a3401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 36/60] fix: Richardson extrapolation with D=2 samples divided
 by zero

---
 src/fnft_kdvv.c     | 2 ++
 src/fnft_manakovv.c | 3 ++-
 src/fnft_nsev.c     | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index a096dd3..f8cabff 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -174,6 +174,8 @@ INT fnft_kdvv(
     // are never modified
     fnft_kdvv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
     opts = &opts_copy;
+    if (D == 2) // a grid with two samples cannot be halved
+        opts->richardson_extrapolation_flag = 0;
 
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index df8be69..e9447dc 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -246,7 +246,8 @@ INT fnft_manakovv(
 		*K_ptr = 0;
 	}
 
-	if (opts->richardson_extrapolation_flag == 1) {
+	// (a grid with two samples cannot be halved)
+	if (opts->richardson_extrapolation_flag == 1 && D > 2) {
 		// Allocating memory
 		UINT contspec_len = 0;
 
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 50e702c..85358a7 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -189,6 +189,8 @@ INT fnft_nsev(
     // are never modified
     fnft_nsev_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
     opts = &opts_copy;
+    if (D == 2) // a grid with two samples cannot be halved
+        opts->richardson_extrapolation_flag = 0;
 
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From ade39b35ef4e6dfbaece33605a4b34eaea86f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 37/60] fix: poly_roots_fasteigen failed for polynomials with
 roots at or extremely close to zero

---
 src/private/fnft__poly_roots_fasteigen.c | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index db23ced..207c710 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -45,19 +45,40 @@ INT poly_roots_fasteigen(const UINT deg,
         deg_eff--;
     for (i = deg_eff; i < deg; i++)
         roots[i] = INFINITY;
+
+    // Trailing coefficients that are zero correspond to roots at zero. The root
+    // finding routine below does not support them either.
+    const COMPLEX * const p_eff = p + (deg - deg_eff);
+    while (deg_eff > 0 && p_eff[deg_eff] == 0.0) {
+        deg_eff--;
+        roots[deg_eff] = 0.0;
+    }
+
     if (deg_eff == 0)
         return SUCCESS;
     if (deg_eff == 1) {
-        roots[0] = -p[deg] / p[deg - 1];
+        roots[0] = -p_eff[1] / p_eff[0];
         return SUCCESS;
     }
 
     // Call Fortran root finding routine
     int_deg = (int)deg_eff;
-    z_poly_roots_modified_(&int_deg, p + (deg - deg_eff), roots, &info);
-
+    z_poly_roots_modified_(&int_deg, p_eff, roots, &info);
     if (info == 0)
         return SUCCESS;
-    else
+
+    // The iteration might not converge if there are roots extremely close to
+    // zero. Try to find the reciprocals of the roots instead.
+    COMPLEX * const p_rev = malloc((deg_eff + 1)*sizeof(COMPLEX));
+    if (p_rev == NULL)
+        return E_NOMEM;
+    for (i = 0; i <= deg_eff; i++)
+        p_rev[i] = p_eff[deg_eff - i];
+    z_poly_roots_modified_(&int_deg, p_rev, roots, &info);
+    free(p_rev);
+    if (info != 0)
         return E_SUBROUTINE(FNFT_EC_OTHER);
+    for (i = 0; i < deg_eff; i++)
+        roots[i] = 1.0 / roots[i];
+    return SUCCESS;
 }
-- 
2.43.0


From b6a5c96ea41e9b203ff136d3eea61c2d4895a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 38/60] fix: fnft_nsep GRIDSEARCH searches the correct arc for
 upsampled discretizations and finds no root twice in large bounding boxes

---
 src/fnft_nsep.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 1da17bc..08d394f 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -320,15 +320,16 @@ static inline INT gridsearch(const UINT D,
     }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
-    PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
-    PHI[1] = map_coeff*eps_t*opts_ptr->bounding_box[1];
+    PHI[0] = map_coeff*eps_t/upsampling_factor*opts_ptr->bounding_box[0];
+    PHI[1] = map_coeff*eps_t/upsampling_factor*opts_ptr->bounding_box[1];
     if (PHI[0] > PHI[1]) {
         REAL tmp = PHI[0];
         PHI[0] = PHI[1];
         PHI[1] = tmp;
     }
-    if (opts_ptr->filtering == fnft_nsep_filt_NONE) {
-        // There is no bounding box, search on the complete unit circle
+    if (opts_ptr->filtering == fnft_nsep_filt_NONE || PHI[1] - PHI[0] > 2.0*PI) {
+        // There is no bounding box (or it is so large that the same roots would
+        // be found more than once), search on the complete unit circle
         PHI[0] = -PI;
         PHI[1] = PI;
     }
-- 
2.43.0


From 4fc716b97da5fa808986e3cea77c1bff792ed5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 39/60] fix: fnft_nsep refinement of the main spectrum no
 longer leaves converged points if the derivative almost vanishes

---
 src/fnft_nsep.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 08d394f..4575e19 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -981,15 +981,26 @@ static inline INT refine_mainspec(
                 }
             }
             best_incr = best_m*incr;
+            if ( CABS(f) <= tol && !(min_abs <= tol) ) {
+                // The current value is already good enough, but the Newton
+                // step would lead away from it. This happens if f_prime is
+                // almost zero close to a root of higher order.
+                best_incr = 0.0;
+                break;
+            }
             mainspec[k] -= best_incr; // Newton step
 
 	        // printf("MAIN k=%zu, nevals=%zu: lam=%e+%ej, |f|=%e, |f_prime|=%e, |incr|=%e, best_m=%d\n", k, nevals, CREAL(mainspec[k]), CIMAG(mainspec[k]), CABS(f), CABS(f_prime),CABS(incr),best_m);
 
             if ( CABS(best_incr) <= tol || CABS(f) <= tol ) {
                 // We already know f and f_prime at the new mainspec[k], so
-                // let's use that for a final first-order Newton step.
-                if (next_f_prime != 0.0)
-                    mainspec[k] -= next_f / next_f_prime;
+                // let's use that for a final first-order Newton step (unless
+                // it is larger than the previous one, see above).
+                if (next_f_prime != 0.0) {
+                    incr = next_f / next_f_prime;
+                    if ( CABS(incr) <= CABS(best_incr) )
+                        mainspec[k] -= incr;
+                }
                 break;
             }
 
-- 
2.43.0


From 7db16e4e9863d38c6ae6f603f4dd056f7759f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 40/60] fix: poly_roots_fasteigen was inaccurate for quadratic
 polynomials with a small root

---
 src/private/fnft__poly_roots_fasteigen.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 207c710..ee3ed78 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -60,6 +60,25 @@ INT poly_roots_fasteigen(const UINT deg,
         roots[0] = -p_eff[1] / p_eff[0];
         return SUCCESS;
     }
+    if (deg_eff == 2) {
+        // The Fortran routine below is inaccurate for quadratic polynomials if
+        // one of the roots is much smaller than the other one
+        REAL scl = CABS(p_eff[0]);
+        for (i = 1; i <= 2; i++) {
+            if (CABS(p_eff[i]) > scl)
+                scl = CABS(p_eff[i]);
+        }
+        const COMPLEX a = p_eff[0]/scl;
+        const COMPLEX b = p_eff[1]/scl;
+        const COMPLEX c = p_eff[2]/scl;
+        COMPLEX sqrt_disc = CSQRT(b*b - 4.0*a*c);
+        if (CREAL(CONJ(b)*sqrt_disc) < 0.0)
+            sqrt_disc = -sqrt_disc; // avoids cancellation
+        const COMPLEX tmp = -0.5*(b + sqrt_disc);
+        roots[0] = tmp/a;
+        roots[1] = (tmp != 0.0) ? c/tmp : 0.0;
+        return SUCCESS;
+    }
 
     // Call Fortran root finding routine
     int_deg = (int)deg_eff;
-- 
2.43.0


From 5cea6314a4ba7292d0e8c5d783e813e88c8f41f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 41/60] fix: eiscor accessed arrays out of bounds, which made
 the polynomial roots depend on uninitialised memory

---
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 2 +-
 src/3rd_party/eiscor/z_upr1fact_qr.f90         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index 4d7d2bf..28d0b15 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -85,7 +85,7 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   end interface
 
   ! allocate memory
-  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
+  allocate(P(N),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
   allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N))
 
   ! initialize INFO
diff --git a/src/3rd_party/eiscor/z_upr1fact_qr.f90 b/src/3rd_party/eiscor/z_upr1fact_qr.f90
index 5224221..6139881 100644
--- a/src/3rd_party/eiscor/z_upr1fact_qr.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_qr.f90
@@ -206,9 +206,9 @@ subroutine z_upr1fact_qr(VEC,ID,FUN,N,P,Q,D,C,B,M,V,ITS,INFO)
     end if
     
     ! if ITMAX hit
-    if (kk == ITMAX) then
+    if (kk == ITMAX .AND. STP > 0) then
       INFO = 1
-      ITS(STR+STP-1) = ITCNT
+      ITS(STP) = ITCNT
     end if
     
   end do
-- 
2.43.0


From 3a1b7a8ce3612cdb9f5dc17858fdfedff6571bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 42/60] fix: fnft_nsev_inverse multi-solitons are finite if the
 time window is on the negative axis

---
 src/fnft_nsev_inverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..b33e65d 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -706,7 +706,7 @@ static INT add_discrete_spectrum(
     COMPLEX * r = NULL;
     INT * Ws = NULL;
     UINT i,j;
-    UINT zc_point = 0; //index of zero-crossing of time
+    UINT zc_point = D; //index of zero-crossing of time (D if all times are negative)
     INT ret_code = SUCCESS;
     REAL * t = NULL;
     REAL const eps_t = (T[1] - T[0])/(D-1);
-- 
2.43.0


From 7e759233937d876bbaecd21195f616d67b2877ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 43/60] fix: fnft_nsev_inverse detects all duplicate bound
 states

---
 src/fnft_nsev_inverse.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index b33e65d..20b1c55 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -753,9 +753,11 @@ static INT add_discrete_spectrum(
     }
     //Checking for multiplicity of bound_states.
     for (i = 0; i < K-1; i++){
-        if (bnd_states[i+1] == bnd_states[i]){
-            ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
-            goto leave_fun;
+        for (j = i + 1; j < K; j++){
+            if (bnd_states[j] == bnd_states[i]){
+                ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
+                goto leave_fun;
+            }
         }
     }
 
-- 
2.43.0


From 137d911712d8fa0a8cf116be1efef629a649b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 44/60] fix: fnft_nsev_inverse propagates the eigenfunctions
 correctly if the matrix exponent is singular

---
 src/fnft_nsev_inverse.c | 52 ++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 20b1c55..b89bc03 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -949,30 +949,22 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[0])*CABS(q[0]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = 1; n < D; n++){
             //First half-step
-            if (ks != 0){
-                phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
-                phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
-            }
-            else{
-                phi1_ptr[n] = phi1_ptr[n-1];
-                phi2_ptr[n] = phi2_ptr[n-1];
-            }
+            phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
+            phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
             //Second half-step
             ks = (-(CABS(q[n])*CABS(q[n]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
-                tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
-                phi1_ptr[n] = tmp1;
-                phi2_ptr[n] = tmp2;
-            }
+            tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
+            tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
+            phi1_ptr[n] = tmp1;
+            phi2_ptr[n] = tmp2;
         }
     }
     // computing-psi
@@ -988,32 +980,24 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[D-1])*CABS(q[D-1]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = D-1; n > 0; n--){
             //First half-step
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
-                psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
-                psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
-            }
-            else{
-                psi1_ptr[n-1] = psi1_ptr[n];
-                psi2_ptr[n-1] = psi2_ptr[n];
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
+            psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
+            psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
             //Second half-step
             ks = (-(CABS(q[n-1])*CABS(q[n-1]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
-                tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
-                tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
-                psi1_ptr[n-1] = tmp1;
-                psi2_ptr[n-1] = tmp2;
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
+            tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
+            tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
+            psi1_ptr[n-1] = tmp1;
+            psi2_ptr[n-1] = tmp2;
         }
     }
     return ret_code;
-- 
2.43.0


From 6dd8a107a6f0d866184c65d6265c63f456983e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 45/60] fix: fnft_nsev_inverse leaked memory if the inversion
 method was invalid

---
 src/fnft_nsev_inverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index b89bc03..bd4b4ea 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -904,7 +904,7 @@ static INT add_discrete_spectrum(
         }
     }
     else
-        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
 
     leave_fun:
         free(t);
-- 
2.43.0


From 9937a5ab48a2dd9a3c007765f39b8ae85ccba9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 46/60] fix: nse_finvscatter recovers the samples of defocusing
 2SPLIT2A transfer matrices exactly

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 2c1f1ae..d4bb93a 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -208,6 +208,16 @@ start_pos_2:
                 *s[i].q = X/eps_t;
                 break;
             case FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A):
+                #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_HAS_KAPPA
+                if (kappa == -1) { // hyperbolic functions in defocusing case
+                    if (CABS(X) >= 1.0) {
+                        ret_code = E_OTHER("The transfer matrix does not correspond to a signal.");
+                        goto leave_fun;
+                    }
+                    *s[i].q = ATANH(CABS(X))*CEXP(I*CARG(X))/eps_t;
+                    break;
+                }
+                #endif
                 *s[i].q = ATAN(CABS(X))*CEXP(I*CARG(X))/eps_t;
                 break;
             default: // discretization is unknown or not supported
-- 
2.43.0


From 085d842e428355b54e145bf13bee0303f37230d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 47/60] fix: KdV grid search detects bound states below the
 first grid spacing

---
 src/fnft_kdvv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index f8cabff..3b0db6c 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -609,7 +609,9 @@ static inline INT kdvv_compute_boundstates(
                 goto leave_fun;
             }
 
-            xi[0] = I*nexttoward(bounding_box[2],bounding_box[3]);
+            // a(xi) has a pole at xi=0. The first grid point is close to zero, but
+            // not so close that 1/xi overflows or that a(xi) is only noise.
+            xi[0] = I*(bounding_box[2] + SQRT(EPSILON)*dist);
             for (i = 1; i < M-1; i++)
                 xi[i] = I * CIMAG(eps_xi*i);
             xi[M-1] = I*nexttoward(bounding_box[3],bounding_box[2]);
@@ -673,6 +675,9 @@ static inline INT kdvv_compute_boundstates(
                         scl1 = POW(2, s);
                         scl2 = POW(2, -s);
                     }
+                    // Since a(xi) has a pole at xi=0, we interpolate xi*a(xi).
+                    scl1 *= CIMAG(xi[i]);
+                    scl2 *= CIMAG(xi[i-1]);
                     bound_states[K] = (xi[i-1] * scl1*CREAL(scatter_coeffs[4*i]) - xi[i] * scl2*CREAL(scatter_coeffs[4*(i-1)])) / CREAL( scl1*scatter_coeffs[4*i] - scl2*scatter_coeffs[4*(i-1)]);
                     K++;
                 }
-- 
2.43.0


From fde1b12c2c16c513945fdafe83d241fa61d5e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 48/60] fix: fnft_manakovv_max_K accounts for the upsampling of
 the 4SPLIT discretizations

Their transfer matrix has degree degree*upsampling_factor*D, so that more bound
states than reported could be returned.
---
 src/fnft_manakovv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index e9447dc..e635f57 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -52,10 +52,10 @@ fnft_manakovv_opts_t fnft_manakovv_default_opts()
  */
 UINT fnft_manakovv_max_K(const UINT D, fnft_manakovv_opts_t const* const opts)
 {
-	if (opts != NULL)
-		return manakov_discretization_degree(opts->discretization) * D;
-	else
-		return manakov_discretization_degree(default_opts.discretization) * D;
+	const manakov_discretization_t discretization = (opts != NULL) ?
+		opts->discretization : default_opts.discretization;
+	return manakov_discretization_degree(discretization)
+		* manakov_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
-- 
2.43.0


From acb18668c0cdccfe71284884ce4b1769b9d2b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 49/60] fix: poly_evalderiv returned NaN for constant
 polynomials outside the unit circle

deg - 1 was computed with unsigned integers and underflowed for deg = 0.
---
 src/private/fnft__poly_eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_eval.c b/src/private/fnft__poly_eval.c
index 001a88b..9489371 100644
--- a/src/private/fnft__poly_eval.c
+++ b/src/private/fnft__poly_eval.c
@@ -83,7 +83,7 @@ INT poly_evalderiv(const UINT deg, COMPLEX const * const p, \
                 tmp2 = tmp + tmp2/z[i];
                 tmp = p[deg - j] + tmp/z[i];
             }
-            deriv[i] = CPOW(z[i], deg - 1)*(deg*tmp - tmp2/z[i]);
+            deriv[i] = CPOW(z[i], (REAL)deg - 1.0)*(deg*tmp - tmp2/z[i]);
             z[i] = tmp * CPOW(z[i], deg);
         }
     }
-- 
2.43.0


From d451a3982d07b014ec83524867b9ab1b9f29872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 50/60] fix: spectral factorization used a single precision
 factor for FFT lengths that are no powers of two

---
 src/private/fnft__poly_specfact.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__poly_specfact.c b/src/private/fnft__poly_specfact.c
index 7e3fcf7..ad804b8 100644
--- a/src/private/fnft__poly_specfact.c
+++ b/src/private/fnft__poly_specfact.c
@@ -117,10 +117,10 @@ INT poly_specfact(const UINT deg,
 
     buf_in[0] = 0.0;
     for (i=1; i<M/2-1; i++)
-        buf_in[i] *= -I/M;
+        buf_in[i] *= -I/(REAL)M;
     buf_in[M/2-1] = 0.0;
     for (i=M/2; i<M; i++)
-        buf_in[i] *= I/M;
+        buf_in[i] *= I/(REAL)M;
 
     ret_code = fft_wrapper_execute_plan(plan_inv, buf_in, buf_out);
     CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From cdb3ce037d324d1f07b40d69537bc630aaa5630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 51/60] fix: failed memory allocations in the root finder no
 longer stop the program

z_poly_roots_modified allocated its work arrays without a status variable, so
the Fortran runtime terminated the calling program if memory ran out. The
failure is now reported as an out of memory error.
---
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 13 +++++++++++--
 src/private/fnft__poly_roots_fasteigen.c       |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index 28d0b15..239c787 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -3,6 +3,7 @@
 ! Changes:
 !   - Residuals are not computed
 !   - The roots are no longer printed (forgotten printf?)
+!   - Failed memory allocations are reported instead of stopping the program
 !   - Always use QR since it is as good as QZ -> https://arxiv.org/pdf/1611.02435.pdf
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
@@ -34,6 +35,7 @@
 !
 !  INFO            INTEGER
 !                    INFO = 1 implies companion QR algorithm failed
+!                    INFO = 2 implies that memory could not be allocated
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
 subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
@@ -85,8 +87,15 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   end interface
 
   ! allocate memory
-  allocate(P(N),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
-  allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N))
+  ! (memory that has been allocated is released automatically upon return)
+  allocate(P(N),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),STAT=INFO)
+  if (INFO.EQ.0) then
+     allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N),STAT=INFO)
+  end if
+  if (INFO.NE.0) then
+     INFO = 2
+     return
+  end if
 
   ! initialize INFO
   INFO = 0
diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index ee3ed78..2a5bb79 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -85,6 +85,8 @@ INT poly_roots_fasteigen(const UINT deg,
     z_poly_roots_modified_(&int_deg, p_eff, roots, &info);
     if (info == 0)
         return SUCCESS;
+    if (info == 2)
+        return E_NOMEM;
 
     // The iteration might not converge if there are roots extremely close to
     // zero. Try to find the reciprocals of the roots instead.
@@ -95,6 +97,8 @@ INT poly_roots_fasteigen(const UINT deg,
         p_rev[i] = p_eff[deg_eff - i];
     z_poly_roots_modified_(&int_deg, p_rev, roots, &info);
     free(p_rev);
+    if (info == 2)
+        return E_NOMEM;
     if (info != 0)
         return E_SUBROUTINE(FNFT_EC_OTHER);
     for (i = 0; i < deg_eff; i++)
-- 
2.43.0


From 982c02fb1886203f4d073b78f22f1cccde67062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 52/60] fix: kiss_fft no longer crashes if memory for the
 generic butterfly cannot be allocated

The scratch memory for radices larger than five was allocated during the
execution of the plan without checking the result. It is now part of the plan,
where a failed allocation is reported.
---
 src/3rd_party/kiss_fft/kiss_fft.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/3rd_party/kiss_fft/kiss_fft.c b/src/3rd_party/kiss_fft/kiss_fft.c
index f051be3..624aff7 100644
--- a/src/3rd_party/kiss_fft/kiss_fft.c
+++ b/src/3rd_party/kiss_fft/kiss_fft.c
@@ -12,6 +12,7 @@ Redistribution and use in source and binary forms, with or without modification,
 THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 Changelog
+2026-11-20: The scratch memory for large radices is allocated together with the plan.
 2020-09-07, Peter J. Prins (TU Delft): All integer types replaced by FNFT_UINT to remove unnecessary implicit type casts between size_t and int.
 */
 
@@ -211,7 +212,11 @@ static void kf_bfly_generic(
     kiss_fft_cpx t;
     FNFT_UINT Norig = st->nfft;
 
+#ifdef _OPENMP
     kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
+#else
+    kiss_fft_cpx * scratch = st->twiddles + Norig; /* see kiss_fft_alloc */
+#endif
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -234,7 +239,9 @@ static void kf_bfly_generic(
             k += m;
         }
     }
+#ifdef _OPENMP
     KISS_FFT_TMP_FREE(scratch);
+#endif
 }
 
 static
@@ -345,6 +352,20 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
     FNFT_UINT memneeded = sizeof(struct kiss_fft_state)
         + sizeof(kiss_fft_cpx)*(nfft-1); /* twiddle factors*/
 
+#ifndef _OPENMP
+    /* Scratch memory for kf_bfly_generic (which cannot report a failed
+       allocation): one entry per branch of the largest radix */
+    FNFT_UINT factors[2*MAXFACTORS];
+    FNFT_UINT j=0,nscratch=0;
+    kf_factor(nfft,factors);
+    do {
+        if (factors[j] > nscratch)
+            nscratch = factors[j];
+        j += 2;
+    } while (factors[j-1] > 1);
+    memneeded += sizeof(kiss_fft_cpx)*nscratch;
+#endif
+
     if ( lenmem==NULL ) {
         st = ( kiss_fft_cfg)KISS_FFT_MALLOC( memneeded );
     }else{
-- 
2.43.0


From 52cbf1105fd9eaf3da136f816f041a9904abe745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 53/60] fix: Richardson extrapolation of nsev and manakovv
 freed the subsampled signal twice if the second subsampling failed

---
 src/fnft_manakovv.c | 8 ++++----
 src/fnft_nsev.c     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index e635f57..f12e02a 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -285,10 +285,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        free(q2sub_preprocessed);
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 85358a7..78c6f69 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -425,10 +425,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        qsub_preprocessed = NULL;
+        free(rsub_preprocessed);
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From d09127f28d7a64a988cfb665827aa39e32bc2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 54/60] fix: misc_resample rejected signals with two samples,
 for which it is documented

---
 src/private/fnft__misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 9a6e42c..7485363 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -310,7 +310,7 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
 {
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (D <= 2)
+    if (D < 2)
         return E_INVALID_ARGUMENT(D);
     if (q_new == NULL)
         return E_INVALID_ARGUMENT(q_new);
-- 
2.43.0


From 3c57aca4782ca8bbb8e26f7f7929a06995cf0e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 55/60] fix: NaN in T or XI is an invalid argument

---
 src/fnft_kdvv.c     | 8 ++++----
 src/fnft_manakovv.c | 8 ++++----
 src/fnft_nsep.c     | 2 +-
 src/fnft_nsev.c     | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 3b0db6c..b79224b 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -157,10 +157,10 @@ INT fnft_kdvv(
         if (CIMAG(q[i])!=0.0)
             return E_INVALID_ARGUMENT(q);
     }
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     if (contspec != NULL) {
@@ -422,10 +422,10 @@ static inline INT fnft_kdvv_base(
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     if (abs(kappa) != 1)
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index f12e02a..67bc22b 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -142,10 +142,10 @@ INT fnft_manakovv(
 		return E_INVALID_ARGUMENT(q1);
 	if (q2 == NULL)
 		return E_INVALID_ARGUMENT(q2);
-	if (T == NULL || T[0] >= T[1])
+	if (T == NULL || !(T[0] < T[1]))
 		return E_INVALID_ARGUMENT(T);
 	if (contspec != NULL) {
-		if (XI == NULL || XI[0] >= XI[1])
+		if (XI == NULL || !(XI[0] < XI[1]))
 			return E_INVALID_ARGUMENT(XI);
 	}
 	if (abs(kappa) != 1)
@@ -354,10 +354,10 @@ static inline INT fnft_manakovv_base(
 		return E_INVALID_ARGUMENT(q1);
 	if (q2 == NULL)
 		return E_INVALID_ARGUMENT(q2);
-	if (T == NULL || T[0] >= T[1])
+	if (T == NULL || !(T[0] < T[1]))
 		return E_INVALID_ARGUMENT(T);
 	if (contspec != NULL) {
-		if (XI == NULL || XI[0] >= XI[1])
+		if (XI == NULL || !(XI[0] < XI[1]))
 			return E_INVALID_ARGUMENT(XI);
 	}
 	if (abs(kappa) != 1)
diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 4575e19..1084e1f 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -113,7 +113,7 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (abs(kappa) != 1)
         return E_INVALID_ARGUMENT(kappa);
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 78c6f69..94d8abc 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -173,10 +173,10 @@ INT fnft_nsev(
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     if (abs(kappa) != 1)
@@ -538,10 +538,10 @@ static inline INT fnft_nsev_base(
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     if (abs(kappa) != 1)
-- 
2.43.0


From ce557deb88f7a3b61b817e3d77475e498ab7f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:56 +0000
Subject: [PATCH 56/60] fix: nsev_inverse checks the bound states for NaN and
 duplicates before the output is written

---
 src/fnft_nsev_inverse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index bd4b4ea..04cb0b1 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -152,8 +152,12 @@ INT fnft_nsev_inverse(
         return E_INVALID_ARGUMENT(bound_states);
     UINT i;
     for (i = 0; i < K; i++) {
-        if (CIMAG(bound_states[i]) <= 0)
+        if (!(CIMAG(bound_states[i]) > 0)) // !(...) ensures error with NANs
             return E_SANITY_CHECK_FAILED(bound_states should be stricly in the upper-half complex-plane.);
+        for (UINT j = 0; j < i; j++) {
+            if (bound_states[j] == bound_states[i])
+                return E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
+        }
     }
     if (K > 0 && normconsts_or_residues == NULL)
         return E_INVALID_ARGUMENT(normconsts_or_residues);
-- 
2.43.0


From 5862316f08c9903d84763f3cb1f914c2e16deec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 57/60] fix: invalid option values are detected before any
 output is written

---
 src/fnft_kdvv.c         | 17 +++++++++++++++++
 src/fnft_manakovv.c     | 12 ++++++++++++
 src/fnft_nsep.c         | 15 +++++++++++++++
 src/fnft_nsev.c         | 27 +++++++++++++++++++++++++++
 src/fnft_nsev_inverse.c |  4 ++++
 5 files changed, 75 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index b79224b..e0a2879 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -180,14 +180,31 @@ INT fnft_kdvv(
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
             return E_INVALID_ARGUMENT(K_ptr);
+        }
+        // Check the options that are needed for the requested outputs
+        if (normconsts_or_residues != NULL
+        && opts->discspec_type != kdvv_dstype_NORMING_CONSTANTS
+        && opts->discspec_type != kdvv_dstype_RESIDUES
+        && opts->discspec_type != kdvv_dstype_BOTH)
+            return E_INVALID_ARGUMENT(opts->discspec_type);
+        if (opts->bound_state_localization==kdvv_bsloc_GRIDSEARCH_AND_REFINE) {
+            if (!(opts->grid_spacing > 0))
+                return E_INVALID_ARGUMENT(opts->grid_spacing);
         } else if (opts->bound_state_localization==fnft_kdvv_bsloc_NEWTON) {
             // This method needs user-provided initial guesses. Check those:
             for (i=0; i<*K_ptr; i++) {
                 if ( CREAL(bound_states[i])!=0.0 || CIMAG(bound_states[i])<=0.0 )
                     return E_INVALID_ARGUMENT(bound_states);
             }
+        } else {
+            return E_INVALID_ARGUMENT(opts->bound_state_localization);
         }
     }
+    if (contspec != NULL
+    && opts->contspec_type != kdvv_cstype_REFLECTION_COEFFICIENT
+    && opts->contspec_type != kdvv_cstype_AB
+    && opts->contspec_type != kdvv_cstype_BOTH)
+        return E_INVALID_ARGUMENT(opts->contspec_type);
 
     // Some higher-order discretizations require samples on a non-equidistant grid
     // while others require derivatives which are computed in the form of
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 67bc22b..f6eed3e 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -159,6 +159,18 @@ INT fnft_manakovv(
 	fnft_manakovv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
 	opts = &opts_copy;
 
+	// Check the options that are needed for the requested outputs
+	if (contspec != NULL
+	&& opts->contspec_type != manakovv_cstype_REFLECTION_COEFFICIENT
+	&& opts->contspec_type != manakovv_cstype_AB
+	&& opts->contspec_type != manakovv_cstype_BOTH)
+		return E_INVALID_ARGUMENT(opts->contspec_type);
+	if (kappa == +1 && bound_states != NULL
+	&& opts->bound_state_filtering != manakovv_bsfilt_NONE
+	&& opts->bound_state_filtering != manakovv_bsfilt_BASIC
+	&& opts->bound_state_filtering != manakovv_bsfilt_FULL)
+		return E_INVALID_ARGUMENT(opts->bound_state_filtering);
+
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case manakov_discretization_2SPLIT3A:
diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 1084e1f..8c1ac8a 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -130,6 +130,14 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
     opts_ptr = &opts_local;
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
+    if (opts_ptr->filtering != fnft_nsep_filt_NONE
+    && opts_ptr->filtering != fnft_nsep_filt_MANUAL
+    && opts_ptr->filtering != fnft_nsep_filt_AUTO)
+        return E_INVALID_ARGUMENT(opts_ptr->filtering);
+    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL
+    && ( !(opts_ptr->bounding_box[0] <= opts_ptr->bounding_box[1]) // !(...) ensures error with NANs
+    || !(opts_ptr->bounding_box[2] <= opts_ptr->bounding_box[3]) ))
+        return E_INVALID_ARGUMENT(opts_ptr->bounding_box);
 
     REAL Lam_shift = phase_shift/(-2*(T[1] - T[0]));
     const REAL eps_t = (T[1] - T[0])/D;
@@ -207,6 +215,13 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         case fnft_nsep_loc_NEWTON:
 
+            // This mode needs a slow discretization
+            if (nse_discretization_upsampling_factor(opts_ptr->discretization) == 0
+            || nse_discretization_degree(opts_ptr->discretization) != 0) {
+                ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+                goto leave_fun;
+            }
+
             // The initial guesses are given w.r.t. the original signal
             if (main_spec != NULL) {
                 for (i=0; i < *K_ptr * opts_ptr->points_per_spine; i++)
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 94d8abc..6f116df 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -192,6 +192,33 @@ INT fnft_nsev(
     if (D == 2) // a grid with two samples cannot be halved
         opts->richardson_extrapolation_flag = 0;
 
+    // Check the options that are needed for the requested outputs
+    if (contspec != NULL
+    && opts->contspec_type != nsev_cstype_REFLECTION_COEFFICIENT
+    && opts->contspec_type != nsev_cstype_AB
+    && opts->contspec_type != nsev_cstype_BOTH)
+        return E_INVALID_ARGUMENT(opts->contspec_type);
+    if (kappa == +1 && bound_states != NULL) {
+        if (opts->bound_state_filtering != nsev_bsfilt_NONE
+        && opts->bound_state_filtering != nsev_bsfilt_BASIC
+        && opts->bound_state_filtering != nsev_bsfilt_FULL
+        && opts->bound_state_filtering != nsev_bsfilt_MANUAL)
+            return E_INVALID_ARGUMENT(opts->bound_state_filtering);
+        if (opts->bound_state_filtering == nsev_bsfilt_MANUAL
+        && ( !(opts->bounding_box[0] <= opts->bounding_box[1]) // !(...) ensures error with NANs
+        || !(opts->bounding_box[2] <= opts->bounding_box[3]) ))
+            return E_INVALID_ARGUMENT(opts->bounding_box);
+        if (opts->bound_state_localization != nsev_bsloc_FAST_EIGENVALUE
+        && opts->bound_state_localization != nsev_bsloc_NEWTON
+        && opts->bound_state_localization != nsev_bsloc_SUBSAMPLE_AND_REFINE)
+            return E_INVALID_ARGUMENT(opts->bound_state_localization);
+        if (normconsts_or_residues != NULL
+        && opts->discspec_type != nsev_dstype_NORMING_CONSTANTS
+        && opts->discspec_type != nsev_dstype_RESIDUES
+        && opts->discspec_type != nsev_dstype_BOTH)
+            return E_INVALID_ARGUMENT(opts->discspec_type);
+    }
+
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case nse_discretization_2SPLIT2_MODAL:
diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 04cb0b1..8b3951b 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -171,6 +171,10 @@ INT fnft_nsev_inverse(
     if (XI == NULL && contspec != NULL &&
         opts_ptr->contspec_type != fnft_nsev_inverse_cstype_B_OF_TAU)
         return E_INVALID_ARGUMENT(XI);
+    if (K > 0
+    && opts_ptr->discspec_type != fnft_nsev_inverse_dstype_NORMING_CONSTANTS
+    && opts_ptr->discspec_type != fnft_nsev_inverse_dstype_RESIDUES)
+        return E_INVALID_ARGUMENT(opts_ptr->discspec_type);
 
     INT ret_code = SUCCESS;
     UINT contspec_flag = 0;
-- 
2.43.0


From 1a2f883d5230a33cb73eab2ba6256aea9dd8561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:57 +0000
Subject: [PATCH 58/60] fix: nsev_inverse_XI overwrote XI although it reported
 an error

---
 src/fnft_nsev_inverse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 8b3951b..25f0692 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -60,9 +60,11 @@ INT fnft_nsev_inverse_XI(const UINT D, REAL const * const T,
     XIC[0] = CEXP(2.0*FNFT_PI*I * (M/2 + 1)/M);
     XIC[1] = -1.0;
     ret_code = nse_discretization_z_to_lambda(2, eps_t, XIC, discretization);
+    if (ret_code != SUCCESS)
+        return E_SUBROUTINE(ret_code);
     XI[0] = CREAL(XIC[0]);
     XI[1] = CREAL(XIC[1]);
-    return ret_code;
+    return SUCCESS;
 }
 
 // Auxliary functions. Function bodies follow below.
-- 
2.43.0


From ff752e1df701123aae42b5d0f9723496b0b4faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:57 +0000
Subject: [PATCH 59/60] fix: fnft_version did not check suffix for NULL

---
 src/fnft_version.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_version.c b/src/fnft_version.c
index 04b1c04..bcc5f72 100644
--- a/src/fnft_version.c
+++ b/src/fnft_version.c
@@ -28,7 +28,7 @@ INT fnft_version(UINT * const major,
                  UINT * const patch,
                  char suffix[FNFT_VERSION_SUFFIX_MAXLEN+1])
 {
-    if (major == NULL || minor == NULL || patch == NULL)
+    if (major == NULL || minor == NULL || patch == NULL || suffix == NULL)
         return E_INVALID_ARGUMENT(NULL pointer passed.);
     *major = FNFT_VERSION_MAJOR;
     *minor = FNFT_VERSION_MINOR;
-- 
2.43.0


From 70bb7908ef7f6bd79503a21866b95f6f4e311060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:12 +0000
Subject: [PATCH 60/60] fix: documented default options of nsep and kdvv did
 not match the code

---
 include/fnft_kdvv.h | 6 +++---
 include/fnft_nsep.h | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/fnft_kdvv.h b/include/fnft_kdvv.h
index a9aa2b3..606594c 100644
--- a/include/fnft_kdvv.h
+++ b/include/fnft_kdvv.h
@@ -180,16 +180,16 @@ typedef struct {
  * default settings.
  *
  * @returns A \link fnft_kdvv_opts_t \endlink object with the following options.\n
- *  bound_state_filtering = fnft_kdvv_bsfilt_FULL\n
- *  bound_state_localization = fnft_kdvv_bsloc_SUBSAMPLE_AND_REFINE\n
+ *  bound_state_localization = fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE\n
  *  niter = 10\n
  *  discspec_type = fnft_kdvv_dstype_NORMING_CONSTANTS\n
  *  contspec_type = fnft_kdvv_cstype_REFLECTION_COEFFICIENT\n
  *  normalization_flag = 1\n
  *  discretization = fnft_kdv_discretization_2SPLIT4B\n
  *  richardson_extrapolation_flag = 0\n
+ *  grid_spacing = 0.0\n
  *
-  * @ingroup fnft
+ * @ingroup fnft
  */
 fnft_kdvv_opts_t fnft_kdvv_default_opts();
 
diff --git a/include/fnft_nsep.h b/include/fnft_nsep.h
index 292121a..8432014 100644
--- a/include/fnft_nsep.h
+++ b/include/fnft_nsep.h
@@ -161,9 +161,9 @@ typedef struct {
  *
  * @ingroup fnft
  * @returns A \link fnft_nsep_opts_t \endlink object with the following options.\n
- *  localization = fnft_nsep_loc_MIXED\n
+ *  localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE\n
  *  filtering = fnft_nsep_filt_AUTO\n
- *  max_evals = 20\n
+ *  max_evals = 50\n
  *  bounding_box[0] = -FNFT_INF\n
  *  bounding_box[1] = FNFT_INF\n
  *  bounding_box[2] = -FNFT_INF\n
@@ -171,8 +171,9 @@ typedef struct {
  *  normalization_flag = 1\n
  *  discretization = fnft_nse_discretization_2SPLIT2A\n
  *  floquet_range = {-1, 1}\n
- *  floquet_nvals = 2\n
- *  Dsub = 0
+ *  points_per_spine = 2\n
+ *  Dsub = 0\n
+ *  tol = -1
  */
 fnft_nsep_opts_t fnft_nsep_default_opts();
 
-- 
2.43.0

