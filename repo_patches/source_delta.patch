From b71a4200191762f98aeb618751d3bcff6ff54994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 01/56] fix: do not carry status and polish information of an
 earlier solve over

---
 src/osqp_api.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..3e71ebf 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -664,6 +664,14 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
+
+  // Nothing reported by an earlier solve may survive into this one
+  update_status(solver->info, OSQP_UNSOLVED);
+  solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
+  solver->info->primdual_int  = 0.0;
+#if defined(OSQP_ENABLE_PROFILING) && !defined(OSQP_EMBEDDED_MODE)
+  solver->info->polish_time   = 0.0;
+#endif
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
-- 
2.43.0


From 5577c09b3246d0878a945785cb8f14bceed5c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 02/56] fix: return unscaled infeasibility certificates also
 with scaled termination

---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..a1f450b 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -914,7 +914,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_PRIMAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_y,
                           work->delta_y,
@@ -931,7 +931,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_DUAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_x,
                           work->delta_x,
-- 
2.43.0


From 26e936d8e34015b69fbc44f0c59ba9af4f4e18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 03/56] fix: use the limited step size for its inverse at setup

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 3e71ebf..ba49da3 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -493,7 +493,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From 8a8ba234fb36485f9ef78371c4a34abf0d35dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 04/56] fix: evaluate and count the final iterate when the time
 limit is reached

---
 src/osqp_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index ba49da3..9dee0b8 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -763,6 +763,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+      can_check_termination = 0; // The current iterate has not been checked yet
+      iter++;                    // This iteration is complete, as when the loop runs out
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From cbd0f9d86d7fd49c7e4b9478acb3e5bc9734e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 05/56] fix: support a scalar step size in the MKL indirect
 solver

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..052476a 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -111,7 +111,8 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
-      OSQPVectorf_copy(s->rho_vec, rho_vec);
+      if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+      else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
   }
@@ -364,7 +365,8 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else         OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
-- 
2.43.0


From 83982b9cce79e87f0b64c7b3ed616f8fe6be6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 06/56] fix: return the CG iterate when the CG iteration limit
 is reached

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 052476a..54c4c2a 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -269,7 +269,9 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
     }
   }
 
-  if ( (rci_request == 0) || (rci_request == 2) ) {  //solution was found for x.
+  // x is the solution, or the best approximation of it when the iteration limit (-1)
+  // was reached first
+  if ( (rci_request == 0) || (rci_request == 2) || (rci_request == -1) ) {
 
     OSQPVectorf_copy(s->r1, s->x);
 
-- 
2.43.0


From 11fb50e8b1c2abcb2bcbd28d97c27e103964b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 07/56] fix: let warm and cold starts reach the MKL indirect
 solver

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 54c4c2a..d6feb9f 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -224,6 +224,7 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
     if (admm_iter == 1) {
       // On the first iteration, set reduction_factor to its default value
       s->reduction_factor = s->tol_fraction;
+      s->cg_zero_iters    = 0;
     } else if (s->cg_zero_iters >= s->reduction_interval) {
       // Otherwise. check to see if the tolerance reduction factor should be adapted.
       // This is done if CG is consistently never having to actually run.
@@ -333,9 +334,8 @@ void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
 
 void warm_start_linys_mklcg(struct mklcg_solver_* self,
                             const OSQPVectorf*    x) {
-  // TODO: Warm starting!
-  OSQP_UnusedVar(self);
-  OSQP_UnusedVar(x);
+  // Start the next CG solve from the given point
+  OSQPVectorf_copy(self->x, x);
   return;
 }
 
-- 
2.43.0


From 78f96de8dec1fe4c0d11a9a1a348bed40d25bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 08/56] fix: keep sigma on every KKT diagonal entry when P is
 updated

---
 algebra/_common/kkt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..86550be 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -353,14 +353,16 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
+
+  // P is in triu CSC format whatever the format of the KKT matrix
+  (void)format;
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -370,7 +372,7 @@ void update_KKT_P(OSQPCscMatrix* KKT,
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From 580108c7742e6dc3714e2dfcbebba76aa13cdcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:22 +0000
Subject: [PATCH 09/56] fix: use delta to regularize the polishing linear
 system

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 2 +-
 algebra/mkl/lin_sys/direct/pardiso_interface.c  | 3 ++-
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6af6385..4acbf87 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -226,7 +226,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
-    OSQPFloat  sigma = settings->sigma;
+    OSQPFloat  sigma = polishing ? settings->delta : settings->sigma; // Regularization of the KKT matrix
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..1f9af7a 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -77,7 +77,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   OSQPInt    n_plus_m;  // n_plus_m dimension
   OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
 
-  OSQPFloat sigma = settings->sigma;
+  // Regularization of the KKT matrix
+  OSQPFloat sigma = polishing ? settings->delta : settings->sigma;
 
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index d6feb9f..160d6a7 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -99,7 +99,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //data, no copies or processing required
   s->P       = *(OSQPMatrix**)(&P);
   s->A       = *(OSQPMatrix**)(&A);
-  s->sigma   = settings->sigma;
+  s->sigma   = polish ? settings->delta : settings->sigma;
   s->polish  = polish;
   s->m       = m;
   s->n       = n;
@@ -108,13 +108,13 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_dual_res = scaled_dual_res;
 
   //if polish is false, use the rho_vec we get.
-  //Otherwise, use rho_vec = ones.*(1/sigma)
+  //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
       if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
       else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
-      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
 
   //Link functions
-- 
2.43.0


From ba5a1b07c2925d1b330b638a03d864657ec3597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:22 +0000
Subject: [PATCH 10/56] fix: do not print about polishing when verbose is off

---
 src/polish.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polish.c b/src/polish.c
index f66a0a0..74deed2 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -342,7 +342,10 @@ OSQPInt polish(OSQPSolver* solver) {
     return exitflag;
   } else if (work->pol->n_active == 0) {
     /* No active constraints, so skip polishing */
-    c_print("Polishing not needed - no active set detected at optimal point\n");
+#ifdef OSQP_ENABLE_PRINTING
+    if (settings->verbose)
+      c_print("Polishing not needed - no active set detected at optimal point\n");
+#endif /* ifdef OSQP_ENABLE_PRINTING */
     info->status_polish = OSQP_POLISH_NO_ACTIVE_SET_FOUND;
 
     /* Memory clean-up */
-- 
2.43.0


From e76b00432e9a00c75fe8665300a35d7b84c3badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 11/56] fix: free everything when polishing fails on the way

---
 src/polish.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 74deed2..65cbbb4 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -202,12 +202,18 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     rhs = OSQPVectorf_malloc(work->data->n + mred);
 
     //form views of the top/bottom parts of rhs and z
-    rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
-    rhs2 = OSQPVectorf_view(rhs,work->data->n,mred);
+    rhs1 = rhs ? OSQPVectorf_view(rhs,0,work->data->n) : OSQP_NULL;
+    rhs2 = rhs ? OSQPVectorf_view(rhs,work->data->n,mred) : OSQP_NULL;
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
     if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
+      OSQPVectorf_free(rhs);
+      OSQPVectorf_view_free(rhs1);
+      OSQPVectorf_view_free(rhs2);
+      OSQPVectorf_view_free(z1);
+      OSQPVectorf_view_free(z2);
+
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
     }
 
@@ -376,6 +382,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
 
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
@@ -388,7 +395,9 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
 
     return exitflag;
   }
@@ -400,6 +409,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
 
@@ -415,6 +425,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -438,6 +449,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -450,7 +462,22 @@ OSQPInt polish(OSQPSolver* solver) {
   // Store the polished solution (x,z,y)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+  exitflag = get_ypol_from_yred(work, pol_sol_yview); // pol->y
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_FAILED;
+
+    // Memory clean-up
+    plsh->free(plsh);
+    OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
+    OSQPVectorf_free(pol_sol);
+    OSQPVectorf_view_free(pol_sol_xview);
+    OSQPVectorf_view_free(pol_sol_yview);
+
+    return exitflag;
+  }
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
-- 
2.43.0


From 30c46c2defdfbcec445801b564fce54c00a46fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 12/56] fix: keep the KKT error of the returned point when
 polishing fails

---
 src/polish.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polish.c b/src/polish.c
index 65cbbb4..0727e72 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -324,6 +324,7 @@ OSQPInt polish(OSQPSolver* solver) {
 
   OSQPInt polish_successful = 0;
   OSQPInt exitflag = 0;
+  OSQPFloat rel_kkt_error; // Relative KKT error before polishing
 
   LinSysSolver* plsh = OSQP_NULL;
   OSQPVectorf*  rhs_red = OSQP_NULL;
@@ -486,6 +487,7 @@ OSQPInt polish(OSQPSolver* solver) {
   OSQPVectorf_minus(work->pol->y, work->pol->y, work->pol->z);
 
   // Compute primal and dual residuals at the polished solution
+  rel_kkt_error = info->rel_kkt_error;
   update_info(solver, 0, 1);
 
   // Check if polish was successful
@@ -526,6 +528,7 @@ OSQPInt polish(OSQPSolver* solver) {
 #endif /* ifdef OSQP_ENABLE_PRINTING */
   } else { // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
+    info->rel_kkt_error = rel_kkt_error;
 
     // TODO: Try to find a better solution on the line connecting ADMM
     //       and polished solution
-- 
2.43.0


From 0a1b13cad0004dff7a1e0b0c772638695c07704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 13/56] fix: return the solution that was found also when
 polishing fails

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 9dee0b8..85db847 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -993,9 +993,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     exitflag = polish(solver);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_POLISH);
 
+    // The unpolished solution is still valid when polishing fails
     if (exitflag > 0) {
       c_eprint("Failed polishing");
-      goto exit;
     }
   }
 #endif /* ifndef OSQP_EMBEDDED_MODE */
-- 
2.43.0


From dab435bfff581412237a9cb974d965cb3d2510a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 14/56] fix: survive failed allocations of vectors and of the
 solver itself

---
 algebra/builtin/vector.c | 2 +-
 algebra/mkl/vector.c     | 2 +-
 src/osqp_api.c           | 2 +-
 src/polish.c             | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/algebra/builtin/vector.c b/algebra/builtin/vector.c
index 1b31950..b7f5392 100644
--- a/algebra/builtin/vector.c
+++ b/algebra/builtin/vector.c
@@ -216,7 +216,7 @@ OSQPVectorf* OSQPVectorf_view(const OSQPVectorf* a,
                                     OSQPInt      head,
                                     OSQPInt      length) {
 
-  OSQPVectorf* view = c_malloc(sizeof(OSQPVectorf));
+  OSQPVectorf* view = a ? c_malloc(sizeof(OSQPVectorf)) : OSQP_NULL;
   if (view) {
       OSQPVectorf_view_update(view, a, head, length);
   }
diff --git a/algebra/mkl/vector.c b/algebra/mkl/vector.c
index 8fbda24..c7922f7 100644
--- a/algebra/mkl/vector.c
+++ b/algebra/mkl/vector.c
@@ -149,7 +149,7 @@ OSQPVectorf* OSQPVectorf_view(const OSQPVectorf* a,
                               OSQPInt            head,
                               OSQPInt            length) {
 
-  OSQPVectorf* view = c_malloc(sizeof(OSQPVectorf));
+  OSQPVectorf* view = a ? c_malloc(sizeof(OSQPVectorf)) : OSQP_NULL;
   if (view){
       OSQPVectorf_view_update(view, a, head, length);
   }
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 85db847..0dc57bd 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -355,8 +355,8 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
   // Allocate empty solver
   solver = c_calloc(1, sizeof(OSQPSolver));
-  if (!(solver)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   *solverp = solver;
+  if (!(solver)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
   // Allocate empty workspace
   work   = c_calloc(1, sizeof(OSQPWorkspace));
diff --git a/src/polish.c b/src/polish.c
index 0727e72..7f1ef09 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -202,8 +202,8 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     rhs = OSQPVectorf_malloc(work->data->n + mred);
 
     //form views of the top/bottom parts of rhs and z
-    rhs1 = rhs ? OSQPVectorf_view(rhs,0,work->data->n) : OSQP_NULL;
-    rhs2 = rhs ? OSQPVectorf_view(rhs,work->data->n,mred) : OSQP_NULL;
+    rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
+    rhs2 = OSQPVectorf_view(rhs,work->data->n,mred);
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-- 
2.43.0


From e5798fdb9809df1d817707aabc0daf5267ec6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 15/56] fix: handle failed allocations of MKL matrices

---
 algebra/mkl/matrix.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..14aa92d 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -17,6 +17,21 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
           csc_is_eq(A->csc, B->csc, tol) );
 }
 
+static void mkl_csc_spfree(OSQPCscMatrix* M) {
+  if(M) {
+    if(M->p)
+      blas_free(M->p);
+
+    if(M->i)
+      blas_free(M->i);
+
+    if(M->x)
+      blas_free(M->x);
+
+    c_free(M);
+  }
+}
+
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
@@ -34,22 +49,12 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
-  return csc;
-}
-
-static void mkl_csc_spfree(OSQPCscMatrix* M) {
-  if(M) {
-    if(M->p)
-      blas_free(M->p);
-
-    if(M->i)
-      blas_free(M->i);
-
-    if(M->x)
-      blas_free(M->x);
-
-    c_free(M);
+  if (!csc->p || (hasData && nzmax > 0 && (!csc->i || !csc->x))) {
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
   }
+
+  return csc;
 }
 
 //Make a copy from a csc matrix.  Returns OSQP_NULL on failure
@@ -328,7 +333,11 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    // Free work index and return on error
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
-- 
2.43.0


From fa687f3a4c47c8cf01d6ec1385b23f39fe2805da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:15 +0000
Subject: [PATCH 16/56] fix: copy only the entries a matrix holds into the MKL
 matrix

---
 algebra/mkl/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 14aa92d..3bb6df3 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -64,7 +64,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
   OSQPInt i       = 0;
   OSQPInt n       = A->n;   /* Number of columns */
   OSQPInt m       = A->m;   /* Number of rows */
-  OSQPInt nzmax   = A->nzmax; /* Number of non-zeros */
+  OSQPInt nnz     = A->p[A->n]; /* Number of non-zeros (nzmax only bounds it) */
   OSQPInt hasData = (A->x != OSQP_NULL); /* Input A matrix has data */
 
   MKL_INT retval = 0;
@@ -81,7 +81,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
 
   /* We specially allocate this matrix using the MKL memory routines,
      so it should NEVER touch the normal memory routines. */
-  out->csc = mkl_csc_spalloc(m, n, nzmax, hasData);
+  out->csc = mkl_csc_spalloc(m, n, nnz, hasData);
 
   if(!out->csc){
     c_free(out);
@@ -92,7 +92,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
     out->csc->p[i] = A->p[i];
   }
 
-  for(i=0; i < nzmax; i++) {
+  for(i=0; i < nnz; i++) {
     out->csc->i[i] = A->i[i];
     out->csc->x[i] = A->x[i];
   }
-- 
2.43.0


From cade72f0bfcaeae179bb790af379b4e48a01c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:15 +0000
Subject: [PATCH 17/56] fix: give the MKL matrix back with its own dimensions
 and entries

---
 algebra/mkl/matrix.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3bb6df3..b80b33b 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -155,15 +155,16 @@ OSQPCscMatrix* OSQPMatrix_get_csc(const OSQPMatrix* M) {
   spblas_export_csc(M->mkl_mat, &idx_method, &numrows, &numcols, &p_start, &p_end, &row_idx, &vals);
 
   /* Create the CSC using the returned data */
-  nnz = p_end[numcols-1]+1;
-  B = csc_spalloc(numcols, numrows, nnz, 1, 0);
+  nnz = numcols ? p_end[numcols-1] : 0;
+  B = csc_spalloc(numrows, numcols, nnz, 1, 0);
+  if (!B) return OSQP_NULL;
 
   /* MKL doesn't give back the actual p we need, we need to take the last value from p_end and concatenate
      it onto the array returned in p_start */
   for (i = 0; i < numcols; i++) {
     B->p[i] = p_start[i];
   }
-  B->p[numcols] = p_end[numcols-1] + 1;
+  B->p[numcols] = nnz;
 
   for (i=0; i < nnz; i++) {
     B->i[i] = row_idx[i];
-- 
2.43.0


From bb28b5b576429888d859de29755928a64b33c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:15 +0000
Subject: [PATCH 18/56] fix: handle failed allocations in the Pardiso interface

---
 .../mkl/lin_sys/direct/pardiso_interface.c    | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 1f9af7a..6a49fe3 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -36,14 +36,16 @@ void warm_start_linsys_solver_pardiso(pardiso_solver*    s,
 void free_linsys_solver_pardiso(pardiso_solver* s) {
   if (s) {
 
-    // Free pardiso solver using internal function
-    s->phase = PARDISO_CLEANUP;
-    PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
-             &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
-             s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
-
-    if ( s->error != 0 ){
-      c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+    // Free pardiso solver using internal function (if it was ever started)
+    if (s->maxfct) {
+      s->phase = PARDISO_CLEANUP;
+      PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
+               &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
+               s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
+
+      if ( s->error != 0 ){
+        c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+      }
     }
     // Check each attribute of the structure and free it if it exists
     if (s->KKT)         csc_spfree(s->KKT);
@@ -83,6 +85,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   // Size of KKT
   n = P->csc->n;
@@ -122,6 +125,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!s->bp || !s->sol || (rho_vec && !s->rho_inv_vec)) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -136,6 +145,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) || (m && !s->rhotoKKT)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -157,6 +172,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -164,6 +180,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if (!s->KKT_i || !s->KKT_p) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
-- 
2.43.0


From fd2a3cbb408490c14ba9875a1660845240fbe523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:15 +0000
Subject: [PATCH 19/56] fix: free the Pardiso factorization of a non-convex
 problem

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 6a49fe3..0e4704f 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -259,6 +259,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if ( s->iparm[21] < n ) {
     // Error: Number of positive eigenvalues of KKT should be the same as dimension of P
     c_eprint("KKT matrix has fewer positive eigenvalues than it should. The problem seems to be non-convex.");
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_NONCVX_ERROR;
   }
 
-- 
2.43.0


From cb9a4c9528f38841c4fb800ded470fedbf5335a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:15 +0000
Subject: [PATCH 20/56] fix: notice matrix updates that make the problem
 non-convex with Pardiso

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 0e4704f..77dad7b 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -347,8 +347,11 @@ OSQPInt update_linsys_solver_matrices_pardiso(pardiso_solver*   s,
            s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
 
-  // Return exit flag
-  return s->error;
+  if (s->error) return s->error;
+
+  // Number of positive eigenvalues should match the dimension of P
+  // if P + sigma I is PD.  Error otherwise.
+  return (s->iparm[21] < s->n) ? 1 : 0;
 }
 
 
-- 
2.43.0


From cfc7dfa4d7bfe94bf88d6108968c3e36e3a49a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 21/56] fix: handle failed allocations in the MKL indirect
 solver

---
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 160d6a7..9cc3f9f 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,8 +92,9 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   //Just hold on to pointers to the problem
   //data, no copies or processing required
@@ -110,6 +111,11 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get.
   //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
+  if (!s->rho_vec) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
   if (!polish) {
       if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
       else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
@@ -174,11 +180,20 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
 
+  // Preconditioner and its inverse
+  s->precond     = OSQPVectorf_malloc(n);
+  s->precond_inv = OSQPVectorf_malloc(n);
+
+  if (!s->x || !s->ywork || !s->r1 || !s->r2 || !s->tmp || !s->mvm_pre || !s->mvm_post ||
+      !s->precond_pre || !s->precond_post || !s->precond || !s->precond_inv) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   status = cg_solver_init(s);
 
   // Compute the preconditioner
-  s->precond     = OSQPVectorf_malloc(n);
-  s->precond_inv = OSQPVectorf_malloc(n);
   cg_update_precond(s);
 
   return status;
@@ -379,7 +394,7 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
+  if (s) {
     OSQPVectorf_free(s->tmp);
     OSQPVectorf_free(s->rho_vec);
     OSQPVectorf_free(s->x);
-- 
2.43.0


From 570b773558d59f1b82937c0f8692d1690f749b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:29 +0000
Subject: [PATCH 22/56] fix: handle failed allocations in the QDLDL interface

---
 .../_common/lin_sys/qdldl/qdldl_interface.c   | 56 +++++++++++++++++--
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 4acbf87..0f92d9e 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -16,6 +16,9 @@
 #include "kkt.h"
 #endif
 
+// Returned by LDL_factor when memory runs out
+#define LDL_MEM_ERROR (-100)
+
 #define STRINGIZE_(x) #x
 #define STRINGIZE(x) STRINGIZE_(x)
 
@@ -111,6 +114,11 @@ static OSQPInt LDL_factor(OSQPCscMatrix* A,
     p->L->x = (OSQPFloat *)c_malloc(sizeof(OSQPFloat)*sum_Lnz);
     p->L->nzmax = sum_Lnz;
 
+    if (sum_Lnz && (!p->L->i || !p->L->x)) {
+      c_eprint("Error in KKT matrix LDL factorization when allocating memory.");
+      return LDL_MEM_ERROR;
+    }
+
     // Factor matrix
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
     factor_status = QDLDL_factor(A->n, A->p, A->i, A->x,
@@ -151,6 +159,7 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     OSQPCscMatrix* KKT_temp;
 
     info = (OSQPFloat *)c_malloc(AMD_INFO * sizeof(OSQPFloat));
+    if (!info) return LDL_MEM_ERROR;
 
     // Compute permutation matrix P using AMD
 #ifdef OSQP_USE_LONG
@@ -167,6 +176,10 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
 
     // Inverse of the permutation vector
     Pinv = csc_pinv(p->P, (*KKT)->n);
+    if (!Pinv) {
+        c_free(info);
+        return LDL_MEM_ERROR;
+    }
 
     // Permute KKT matrix
     if (!PtoKKT && !AtoKKT && !rhotoKKT){  // No vectors to be stored
@@ -176,7 +189,14 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     else {
         // Allocate vector of mappings from unpermuted to permuted
         KtoPKPt = c_malloc((*KKT)->p[(*KKT)->n] * sizeof(OSQPInt));
-        KKT_temp = csc_symperm((*KKT), Pinv, KtoPKPt, 1);
+        KKT_temp = KtoPKPt ? csc_symperm((*KKT), Pinv, KtoPKPt, 1) : OSQP_NULL;
+
+        if (!KKT_temp) {
+            c_free(KtoPKPt);
+            c_free(Pinv);
+            c_free(info);
+            return LDL_MEM_ERROR;
+        }
 
         // Update vectors PtoKKT, AtoKKT and rhotoKKT
         if (PtoKKT){
@@ -225,12 +245,14 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    i;         // Loop counter
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
+    OSQPInt    status = 0; // Status of the permutation and the factorization
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
     OSQPFloat  sigma = polishing ? settings->delta : settings->sigma; // Regularization of the KKT matrix
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
     *sp = s;
+    if (!s) return OSQP_MEM_ALLOC_ERROR;
 
     // Size of KKT
     n = P->csc->n;
@@ -274,6 +296,11 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     //      L will be allocated during the factorization depending on the
     //      resulting number of elements.
     s->L = c_calloc(1, sizeof(OSQPCscMatrix));
+    if (!s->L) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
     s->L->m  = n_plus_m;
     s->L->n  = n_plus_m;
     s->L->nz = -1;
@@ -311,6 +338,14 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     s->bwork = (QDLDL_bool *)c_malloc(sizeof(QDLDL_bool)*n_plus_m);
     s->fwork = (QDLDL_float *)c_malloc(sizeof(QDLDL_float)*n_plus_m);
 
+    if (!s->L->p || !s->Dinv || !s->D || !s->P || !s->bp || !s->sol ||
+        (rho_vec && m && !s->rho_inv_vec) ||
+        !s->etree || !s->Lnz || !s->iwork || !s->bwork || !s->fwork) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Form and permute KKT matrix
     if (polishing){ // Called from polish()
 
@@ -321,7 +356,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp)
-            permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
+            status = permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
     }
     else { // Called from ADMM algorithm
 
@@ -330,6 +365,12 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
         s->AtoKKT = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
         s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+        if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) || (m && !s->rhotoKKT)) {
+            free_linsys_solver_qdldl(s);
+            *sp = OSQP_NULL;
+            return OSQP_MEM_ALLOC_ERROR;
+        }
+
         // Use p->rho_inv_vec for storing param2 = rho_inv_vec
         if (rho_vec) {
           rhov = rho_vec->values;
@@ -348,24 +389,27 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp){
-            permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
+            status = permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
         }
     }
 
     // Check if matrix has been created
-    if (!KKT_temp){
+    if (!KKT_temp || status < 0){
         c_eprint("Error forming and permuting KKT matrix");
+        csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
         return OSQP_LINSYS_SOLVER_INIT_ERROR;
     }
 
     // Factorize the KKT matrix
-    if (LDL_factor(KKT_temp, s, n) < 0) {
+    status = LDL_factor(KKT_temp, s, n);
+
+    if (status < 0) {
         csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
-        return OSQP_NONCVX_ERROR;
+        return (status == LDL_MEM_ERROR) ? OSQP_MEM_ALLOC_ERROR : OSQP_NONCVX_ERROR;
     }
 
     if (polishing){ // If KKT passed, assign it to KKT_temp
-- 
2.43.0


From ae161d4c6d99449e50ceb3304b8de2b434cec8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:29 +0000
Subject: [PATCH 23/56] fix: handle failed allocations of CSC matrices and
 derivative data

---
 algebra/_common/csc_utils.c |  4 ++--
 src/osqp_api.c              | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/algebra/_common/csc_utils.c b/algebra/_common/csc_utils.c
index 478ce92..a0afeff 100644
--- a/algebra/_common/csc_utils.c
+++ b/algebra/_common/csc_utils.c
@@ -571,7 +571,7 @@ OSQPCscMatrix* triu_to_csc(OSQPCscMatrix* M) {
 
     // Convert triplet matrix to csc format
     M_symm = triplet_to_csc(M_trip, OSQP_NULL);
-    M_symm->nzmax = z_M;
+    if (M_symm) M_symm->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M_symm;
@@ -622,7 +622,7 @@ OSQPCscMatrix* vstack(OSQPCscMatrix* A, OSQPCscMatrix* B) {
 
     // Convert triplet matrix to csc format
     M = triplet_to_csc(M_trip, OSQP_NULL);
-    M->nzmax = z_M;
+    if (M) M->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M;
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 0dc57bd..37866af 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -66,6 +66,16 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->n  = n;
   mat->nz = -1;
   mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
+  mat->i  = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
+  mat->x  = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
+
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p || (min_elem && (!mat->i || !mat->x))) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
 
   if( m < n) {
     // Fewer rows than columns
@@ -84,8 +94,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   }
 
   mat->nzmax = min_elem;
-  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
-  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
 
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
@@ -95,9 +103,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -140,6 +145,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // We own the arrays
   mat->owned = 1;
 
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   return mat;
 }
 
@@ -614,7 +624,8 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->derivative_data->ryu = OSQPVectorf_malloc(m);
   work->derivative_data->rhs = OSQPVectorf_malloc(2 * (n + 2*m));
   if (!(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
-    !(work->derivative_data->ryl) || !(work->derivative_data->ryu))
+    !(work->derivative_data->ryl) || !(work->derivative_data->ryu) ||
+    !(work->derivative_data->rhs))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
-- 
2.43.0


From 2ad4876854f626e8cdbdb90ceb40bf00dfad8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:51 +0000
Subject: [PATCH 24/56] fix: refuse to work on a missing or only partly set up
 solver

---
 src/osqp_api.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 37866af..d25dd32 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -224,6 +224,14 @@ void OSQPCodegenDefines_free(OSQPCodegenDefines* defs) {
 /**********************
 * Main API Functions *
 **********************/
+
+/* Whether the setup of the solver ran to its end: the status is the last thing it sets,
+   and the linear system solver is missing when the problem was found non-convex. */
+static OSQPInt is_set_up(const OSQPSolver* solver) {
+  return solver && solver->work && solver->settings && solver->info &&
+         solver->work->linsys_solver && solver->info->status_val;
+}
+
 OSQPInt osqp_capabilities(void) {
   OSQPInt capabilities = 0;
 
@@ -250,7 +258,7 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag <= OSQP_NO_ERROR || error_flag >= OSQP_LAST_ERROR_PLACE ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
@@ -557,7 +565,6 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
 
   // Initialize information
   solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED; // Polishing not performed
-  update_status(solver->info, OSQP_UNSOLVED);
 # ifdef OSQP_ENABLE_PROFILING
   solver->info->solve_time  = 0.0;                   // Solve time to zero
   solver->info->update_time = 0.0;                   // Update time to zero
@@ -629,6 +636,9 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
+  // Everything is in place
+  update_status(solver->info, OSQP_UNSOLVED);
+
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_SETUP);
 
   // Print header
@@ -661,7 +671,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Check if solver has been initialized
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_set_up(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
   work = solver->work;
   settings = solver->settings;
@@ -1060,9 +1070,7 @@ exit:
 
 
 OSQPInt osqp_get_solution(OSQPSolver* solver, OSQPSolution* solution) {
-  if (!solver || !solver->work || !solver->settings || !solver->info) {
-    return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
-  }
+  if (!is_set_up(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
   if (!solution)
     return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
@@ -1214,7 +1222,7 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
   OSQPWorkspace* work;
 
   /* Check if workspace has been initialized */
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_set_up(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   work = solver->work;
 
 #ifdef OSQP_ENABLE_PROFILING
@@ -1285,7 +1293,7 @@ OSQPInt osqp_warm_start(OSQPSolver*      solver,
   OSQPWorkspace* work;
 
   /* Check if workspace has been initialized */
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_set_up(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   work = solver->work;
 
   /* Update warm_start setting to true */
@@ -1315,7 +1323,12 @@ OSQPInt osqp_warm_start(OSQPSolver*      solver,
 
 
 void osqp_cold_start(OSQPSolver *solver) {
-  OSQPWorkspace *work = solver->work;
+  OSQPWorkspace *work;
+
+  /* Check if workspace has been initialized (also called at the end of the setup) */
+  if (!solver || !solver->work || !solver->work->linsys_solver) return;
+  work = solver->work;
+
   OSQPVectorf_set_scalar(work->x, 0.);
   OSQPVectorf_set_scalar(work->z, 0.);
   OSQPVectorf_set_scalar(work->y, 0.);
@@ -1340,7 +1353,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   OSQPWorkspace *work;
 
   // Check if workspace has been initialized
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_set_up(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   work = solver->work;
 
 #ifdef OSQP_ENABLE_PROFILING
@@ -1437,7 +1450,7 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
     OSQPWorkspace *work;
 
     // Check if workspace has been initialized
-    if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+    if (!is_set_up(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
     work = solver->work;
 
   // Check value of rho
@@ -1495,10 +1508,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
-  if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  if (!is_set_up(solver)) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From c924b6c61859325e239dd891c6fd1d22eeff7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:51 +0000
Subject: [PATCH 25/56] fix: validate cg_precond, missing bounds, and
 adaptive_rho only at setup

---
 src/auxil.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index a1f450b..9455c82 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -971,6 +971,11 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
     return 1;
   }
 
+  if ((m > 0) && (!l || !u)) {
+    c_eprint("Missing lower or upper bounds");
+    return 1;
+  }
+
   // General dimensions Tests
   if ((n <= 0) || (m < 0)) {
     c_eprint("n must be positive and m nonnegative; n = %i, m = %i",
@@ -1116,6 +1121,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
+  if (settings->cg_precond != OSQP_NO_PRECONDITIONER &&
+      settings->cg_precond != OSQP_DIAGONAL_PRECONDITIONER) {
+    c_eprint("cg_precond not recognized");
+    return 1;
+  }
+
   if (settings->cg_tol_reduction <= 0) {
     c_eprint("cg_tol_reduction must be positive");
     return 1;
@@ -1128,8 +1139,8 @@ OSQPInt validate_settings(const OSQPSettings* settings,
   }
 
   if (from_setup &&
-      settings->adaptive_rho < 0 ||
-      settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE) {
+      (settings->adaptive_rho < 0 ||
+       settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE)) {
     c_eprint("adaptive_rho not a valid choice");
     return 1;
   }
-- 
2.43.0


From e43d2f5eab0c5ca7b6285249e1b0ce3ead1f6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:03 +0000
Subject: [PATCH 26/56] fix: reject settings that are not a number

---
 src/auxil.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 9455c82..c4fa82c 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1093,7 +1093,7 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (from_setup && settings->rho <= 0.0) {
+  if (from_setup && !(settings->rho > 0.0)) {
     c_eprint("rho must be positive");
     return 1;
   }
@@ -1105,13 +1105,13 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (from_setup && settings->sigma <= 0.0) {
+  if (from_setup && !(settings->sigma > 0.0)) {
     c_eprint("sigma must be positive");
     return 1;
   }
 
-  if (settings->alpha <= 0.0 ||
-      settings->alpha >= 2.0) {
+  if (!(settings->alpha > 0.0) ||
+      !(settings->alpha < 2.0)) {
     c_eprint("alpha must be strictly between 0 and 2");
     return 1;
   }
@@ -1132,8 +1132,8 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->cg_tol_fraction <= 0.0 ||
-      settings->cg_tol_fraction >= 1.0) {
+  if (!(settings->cg_tol_fraction > 0.0) ||
+      !(settings->cg_tol_fraction < 1.0)) {
     c_eprint("cg_tol_fraction must be strictly between 0 and 1");
     return 1;
   }
@@ -1157,12 +1157,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (from_setup && settings->adaptive_rho_fraction <= 0) {
+  if (from_setup && !(settings->adaptive_rho_fraction > 0)) {
     c_eprint("adaptive_rho_fraction must be positive");
     return 1;
   }
 
-  if (from_setup && settings->adaptive_rho_tolerance < 1.0) {
+  if (from_setup && !(settings->adaptive_rho_tolerance >= 1.0)) {
     c_eprint("adaptive_rho_tolerance must be >= 1");
     return 1;
   }
@@ -1172,12 +1172,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->eps_abs < 0.0) {
+  if (!(settings->eps_abs >= 0.0)) {
     c_eprint("eps_abs must be nonnegative");
     return 1;
   }
 
-  if (settings->eps_rel < 0.0) {
+  if (!(settings->eps_rel >= 0.0)) {
     c_eprint("eps_rel must be nonnegative");
     return 1;
   }
@@ -1188,12 +1188,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->eps_prim_inf <= 0.0) {
+  if (!(settings->eps_prim_inf > 0.0)) {
     c_eprint("eps_prim_inf must be positive");
     return 1;
   }
 
-  if (settings->eps_dual_inf <= 0.0) {
+  if (!(settings->eps_dual_inf > 0.0)) {
     c_eprint("eps_dual_inf must be positive");
     return 1;
   }
@@ -1215,12 +1215,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->time_limit <= 0.0) {
+  if (!(settings->time_limit > 0.0)) {
     c_eprint("time_limit must be positive\n");
     return 1;
   }
 
-  if (settings->delta <= 0.0) {
+  if (!(settings->delta > 0.0)) {
     c_eprint("delta must be positive");
     return 1;
   }
-- 
2.43.0


From 3176e1c243ae0f14e6c6b13ed87108c026ff3a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 27/56] fix: reject a step size that is not a number

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index d25dd32..a243274 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1454,7 +1454,7 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
     work = solver->work;
 
   // Check value of rho
-  if (rho_new <= 0) {
+  if (!(rho_new > 0)) {
     c_eprint("rho must be positive");
     return 1;
   }
-- 
2.43.0


From db7f315b0a4727a4976d31a9b4f1b365c3e7a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 28/56] fix: leave the infeasibility certificate alone when a
 bound update is rejected

---
 src/osqp_api.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index a243274..5f88d68 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1236,9 +1236,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Ax to store l_new and u_new (delta_y may hold a certificate) */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Ax;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1256,9 +1256,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
-      if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+       * NB: Use work->z_prev & Ax rather than l_tmp & u_tmp */
+      if (l_new) swap_vectors(&work->z_prev, &work->data->l);
+      if (u_new) swap_vectors(&work->Ax,     &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
-- 
2.43.0


From ca13963808a2d0f1a8800392f7f4a655d5d155f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 29/56] fix: use the measured interval for time-based rho
 adaptation

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 5f88d68..2f025bb 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -839,7 +839,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From 6b883238196b45c3d20c21cfa7ec3fd4a949b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 30/56] fix: leave no info field and no timing flag unset at
 setup and after an interrupt

---
 src/osqp_api.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 2f025bb..475939e 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -579,6 +579,8 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   solver->info->rho_updates   = 0;                      // Rho updates set to 0
   solver->info->rho_estimate  = solver->settings->rho;  // Best rho estimate
   solver->info->obj_val       = OSQP_INFTY;
+  solver->info->dual_obj_val  = OSQP_INFTY;
+  solver->info->duality_gap   = OSQP_INFTY;
   solver->info->prim_res      = OSQP_INFTY;
   solver->info->dual_res      = OSQP_INFTY;
   solver->info->rel_kkt_error = OSQP_INFTY;
@@ -1040,9 +1042,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 
   // Indicate that the update_time should be set to zero
   work->clear_update_time = 1;
-
-  // Indicate that osqp_update_rho is not called from osqp_solve
-  work->rho_update_from_solve = 0;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
 #ifdef OSQP_ENABLE_PRINTING
@@ -1058,6 +1057,11 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 exit:
 #endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
+#ifdef OSQP_ENABLE_PROFILING
+  // Indicate that osqp_update_rho is not called from osqp_solve
+  work->rho_update_from_solve = 0;
+#endif /* ifdef OSQP_ENABLE_PROFILING */
+
 #ifdef OSQP_ENABLE_INTERRUPT
   // Restore previous signal handler
   osqp_end_interrupt_listener();
-- 
2.43.0


From 65c07bc9fb1d0aabb9f4ab348d2bd7427380c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 31/56] fix: do not let polishing trade in the duality gap for
 smaller residuals

---
 src/polish.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/polish.c b/src/polish.c
index 7f1ef09..6f44643 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -506,6 +506,13 @@ OSQPInt polish(OSQPSolver* solver) {
                                                                     // already
                                                                     // tiny
 
+  // A pair with smaller residuals can still be far from complementary when
+  // the active constraints were guessed wrong: do not trade in the duality gap
+  if (settings->check_dualgap)
+    polish_successful = polish_successful &&
+                        c_absval(work->pol->duality_gap) <=
+                          c_max(c_absval(info->duality_gap), settings->eps_abs);
+
   if (polish_successful) {
     // Update solver information
     info->obj_val       = work->pol->obj_val;
-- 
2.43.0


From 6d6a34ac60394de50c5efefe32cfd48dc74dedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:31 +0000
Subject: [PATCH 32/56] fix: do products with empty matrices, for which there
 is no MKL handle

---
 algebra/mkl/matrix.c | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index b80b33b..d302f82 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -97,6 +97,10 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
     out->csc->x[i] = A->x[i];
   }
 
+  /* An empty matrix (no non-zero entries, or no rows/columns) has no MKL handle, since MKL
+     refuses to create one for some of those. The operations take care of it themselves. */
+  if (nnz == 0) return out;
+
   retval = spblas_create_csc(&out->mkl_mat,
                              SPARSE_INDEX_BASE_ZERO,
                              out->csc->m,      /* Number of rows */
@@ -106,10 +110,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
                              out->csc->i,      /* Array of row indices */
                              out->csc->x);     /* The actual data */
 
-  /* We expect the SPARSE_STATUS_NOT_INITIALIZED return value if the matrix is either
-     empty (no non-zero entries) or has zero rows/columns, so we treat it as a success
-     as well so we still get an MKL matrix. */
-  if (retval != SPARSE_STATUS_SUCCESS && retval != SPARSE_STATUS_NOT_INITIALIZED) {
+  if (retval != SPARSE_STATUS_SUCCESS) {
     OSQPMatrix_free(out);
     return OSQP_NULL;
   }
@@ -152,6 +153,9 @@ OSQPCscMatrix* OSQPMatrix_get_csc(const OSQPMatrix* M) {
   OSQPInt i = 0;
   OSQPInt nnz = 0;
 
+  /* An empty matrix has no MKL handle */
+  if (!M->mkl_mat) return csc_copy(M->csc);
+
   spblas_export_csc(M->mkl_mat, &idx_method, &numrows, &numcols, &p_start, &p_end, &row_idx, &vals);
 
   /* Create the CSC using the returned data */
@@ -214,6 +218,14 @@ void OSQPMatrix_extract_diag(const OSQPMatrix*  A,
   csc_extract_diag(A->csc, OSQPVectorf_data(d));
 }
 
+/* There is no MKL handle for an empty matrix, only the scaling y = beta*y is left to do */
+static void scale_empty_product(OSQPVectorf* y, OSQPFloat beta) {
+  if (beta == 0.0)
+    OSQPVectorf_set_scalar(y, 0.0);
+  else
+    OSQPVectorf_mult_scalar(y, beta);
+}
+
 //y = alpha*A*x + beta*y
 void OSQPMatrix_Axpy(const OSQPMatrix*  A,
                      const OSQPVectorf* x,
@@ -223,6 +235,11 @@ void OSQPMatrix_Axpy(const OSQPMatrix*  A,
 
   struct matrix_descr descr;
 
+  if (!A->mkl_mat) {
+    scale_empty_product(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
@@ -247,6 +264,11 @@ void OSQPMatrix_Atxpy(const OSQPMatrix*  A,
                             OSQPFloat    beta) {
   struct matrix_descr descr;
 
+  if (!A->mkl_mat) {
+    scale_empty_product(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
@@ -401,6 +423,9 @@ OSQPMatrix* OSQPMatrix_submatrix_byrows(const OSQPMatrix*  A,
     return OSQP_NULL;
   }
 
+  /* An empty matrix has no MKL handle */
+  if (OSQPMatrix_get_nz(out) == 0) return out;
+
   retval = spblas_create_csc(&out->mkl_mat,
                              SPARSE_INDEX_BASE_ZERO,
                              out->csc->m,      /* Number of rows */
@@ -410,10 +435,7 @@ OSQPMatrix* OSQPMatrix_submatrix_byrows(const OSQPMatrix*  A,
                              out->csc->i,      /* Array of row indices */
                              out->csc->x);     /* The actual data */
 
-  /* We expect the SPARSE_STATUS_NOT_INITIALIZED return value if the matrix is either
-     empty (no non-zero entries) or has zero rows/columns, so we treat it as a success
-     as well so we still get an MKL matrix. */
-  if (retval != SPARSE_STATUS_SUCCESS && retval != SPARSE_STATUS_NOT_INITIALIZED) {
+  if (retval != SPARSE_STATUS_SUCCESS) {
     OSQPMatrix_free(out);
     return OSQP_NULL;
   }
-- 
2.43.0


From abf3491ca0437c10af0e2aef0bf53502bc30201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 33/56] fix: give infinite bounds no weight in the support
 function

A bound of IEEE infinity times a zero multiplier made the dual objective and
the duality gap NaN, so that such problems never terminated.
---
 algebra/builtin/vector.c | 4 ++--
 algebra/mkl/vector.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/builtin/vector.c b/algebra/builtin/vector.c
index b7f5392..6677fa8 100644
--- a/algebra/builtin/vector.c
+++ b/algebra/builtin/vector.c
@@ -601,12 +601,12 @@ OSQPFloat OSQPVectorf_dot_prod_signed(const OSQPVectorf* a,
 
   if (sign == 1) {  /* dot with positive part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_max(bv[i], 0.);
+      if (bv[i] > 0.) dotprod += av[i] * bv[i]; /* a may be infinite where b is zero */
     }
   }
   else if (sign == -1){  /* dot with negative part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_min(bv[i],0.);
+      if (bv[i] < 0.) dotprod += av[i] * bv[i]; /* a may be infinite where b is zero */
     }
   }
   else{
diff --git a/algebra/mkl/vector.c b/algebra/mkl/vector.c
index c7922f7..0725418 100644
--- a/algebra/mkl/vector.c
+++ b/algebra/mkl/vector.c
@@ -456,12 +456,12 @@ OSQPFloat OSQPVectorf_dot_prod_signed(const OSQPVectorf* a,
 
   if (sign == 1) {  /* dot with positive part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_max(bv[i], 0.);
+      if (bv[i] > 0.) dotprod += av[i] * bv[i]; /* a may be infinite where b is zero */
     }
   }
   else if (sign == -1){  /* dot with negative part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_min(bv[i],0.);
+      if (bv[i] < 0.) dotprod += av[i] * bv[i]; /* a may be infinite where b is zero */
     }
   }
   else{
-- 
2.43.0


From 4ea5e545d408ea1bb95992f10989c54e99ec7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 34/56] fix: accept a polished solution only if no residual
 gets worse

When one residual of the solution was already tiny, polishing was accepted
whatever it did to that residual.
---
 src/polish.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 6f44643..e48279b 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -496,15 +496,19 @@ OSQPInt polish(OSQPSolver* solver) {
                                                                     // are
                                                                     // reduced
                       (work->pol->prim_res < info->prim_res &&
-                       info->dual_res < 1e-10) ||              // Dual
+                       info->dual_res < 1e-10 &&
+                       work->pol->dual_res < 1e-10) ||         // Dual
                                                                     // residual
                                                                     // already
                                                                     // tiny
+                                                                    // and still so
                       (work->pol->dual_res < info->dual_res &&
-                       info->prim_res < 1e-10);                // Primal
+                       info->prim_res < 1e-10 &&
+                       work->pol->prim_res < 1e-10);           // Primal
                                                                     // residual
                                                                     // already
                                                                     // tiny
+                                                                    // and still so
 
   // A pair with smaller residuals can still be far from complementary when
   // the active constraints were guessed wrong: do not trade in the duality gap
-- 
2.43.0


From 4cb95547739fcf33eb5870a50fe15125e55a570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:50 +0000
Subject: [PATCH 35/56] fix: classify the constraints again when a matrix
 update rescales the bounds

---
 src/osqp_api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 475939e..26d00d8 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1433,6 +1433,10 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
                   work->data->A, Ax_new_idx, A_new_n);
   }
 
+  // The rescaled bounds may put constraints into another class (equality, inequality, unbounded)
+  if (!exitflag && solver->settings->scaling && solver->settings->rho_is_vec) {
+    exitflag = update_rho_vec(solver);
+  }
 
   // Reset solver information
   reset_info(solver->info);
-- 
2.43.0


From fdb01a05941f48c6abdacec5fc045bbf3ef13aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:24 +0000
Subject: [PATCH 36/56] fix: judge the duality gap of a polished solution with
 the scaling of the termination test

---
 src/polish.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polish.c b/src/polish.c
index e48279b..f165263 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -515,7 +515,10 @@ OSQPInt polish(OSQPSolver* solver) {
   if (settings->check_dualgap)
     polish_successful = polish_successful &&
                         c_absval(work->pol->duality_gap) <=
-                          c_max(c_absval(info->duality_gap), settings->eps_abs);
+                          c_max(c_absval(info->duality_gap),
+                                settings->scaling && settings->scaled_termination ?
+                                  work->scaling->cinv * settings->eps_abs :
+                                  settings->eps_abs);
 
   if (polish_successful) {
     // Update solver information
-- 
2.43.0


From 6b7fd710a9d58208263514b24bb8723fc735e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 37/56] fix: start the error-based step-size adaptation of
 every solve afresh

---
 src/osqp_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 26d00d8..ddeac97 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -692,6 +692,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   update_status(solver->info, OSQP_UNSOLVED);
   solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
   solver->info->primdual_int  = 0.0;
+  work->last_rel_kkt          = OSQP_INFTY; // no step-size update in this solve yet
 #if defined(OSQP_ENABLE_PROFILING) && !defined(OSQP_EMBEDDED_MODE)
   solver->info->polish_time   = 0.0;
 #endif
-- 
2.43.0


From bfb7b8dc61d59ab16dbfda7c740862e5074fbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 38/56] fix: do not return uninitialised memory when Pardiso
 leaves the solution of a singular system unwritten

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 77dad7b..d1af50c 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -117,7 +117,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   s->bp = (OSQPFloat *)c_malloc(sizeof(OSQPFloat) * n_plus_m);
 
   // Solution vector
-  s->sol = (OSQPFloat *)c_malloc(sizeof(OSQPFloat) * n_plus_m);
+  s->sol = (OSQPFloat *)c_calloc(n_plus_m, sizeof(OSQPFloat)); // Pardiso may leave it unwritten if the KKT matrix is singular
 
   // Parameter vector
   if (rho_vec) {
-- 
2.43.0


From 6f0b621153d27d859372cba51b29a5da6c9fa58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 39/56] fix: do not throw away the starting point when a
 certificate is retrieved

---
 src/auxil.c    | 13 +++++--------
 src/osqp_api.c |  3 +++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index c4fa82c..e480a35 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -634,14 +634,11 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
   else {
 
     // No solution present. Solution is NaN
-    OSQPVectorf_set_scalar(work->x, OSQP_NAN);
-    OSQPVectorf_set_scalar(work->y, OSQP_NAN);
-    OSQPVectorf_to_raw(solution->x, work->x); // primal
-    OSQPVectorf_to_raw(solution->y, work->y); // dual
-
-    // reset iterates to 0 for next run (they cannot start from NaN)
-    osqp_cold_start(solver);
-
+    // (use x_prev and z_prev as scratch space, the iterates may hold a new starting point)
+    OSQPVectorf_set_scalar(work->x_prev, OSQP_NAN);
+    OSQPVectorf_set_scalar(work->z_prev, OSQP_NAN);
+    OSQPVectorf_to_raw(solution->x, work->x_prev); // primal
+    OSQPVectorf_to_raw(solution->y, work->z_prev); // dual
 
 #ifndef OSQP_EMBEDDED_MODE
 
diff --git a/src/osqp_api.c b/src/osqp_api.c
index ddeac97..68c7640 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1053,6 +1053,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Store solution
   store_solution(solver, solver->solution);
 
+  // Without a solution, the next run starts from 0 (the iterates may have diverged)
+  if (!has_solution(solver->info)) osqp_cold_start(solver);
+
 // Define exit flag for quitting function
 #if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-- 
2.43.0


From ecf87bdfb828eb05152c8a104917936c40a60867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:22 +0000
Subject: [PATCH 40/56] fix: do not mark an iteration with the step-size update
 of the one before

---
 src/osqp_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 68c7640..79c314c 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -730,6 +730,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   for (iter = 1; iter <= max_iter; iter++) {
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_ADMM_ITER);
 
+    work->rho_updated = 0; // Not updated in this iteration yet
+
     // Update x_prev, z_prev (preallocated, no malloc)
     swap_vectors(&(work->x), &(work->x_prev));
     swap_vectors(&(work->z), &(work->z_prev));
@@ -898,7 +900,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       }
     }
 
-    work->rho_updated = 0;
 #if OSQP_EMBEDDED_MODE != 1
     // Further processing to determine if the KKT error has decresed
     // This requires values computed in update_info, so must be done here.
-- 
2.43.0


From d6458ac6b6cc3d4b46453f4f881b6edc6a42f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:32 +0000
Subject: [PATCH 41/56] fix: do not have a settings update of the MKL indirect
 solver print a warning

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 9cc3f9f..797e06b 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -316,10 +316,6 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
 
 void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
                                          const OSQPSettings*   settings) {
-
-  MKL_INT mkln = s->n;
-  MKL_INT rci_request = 1;
-
   // New precoditioner type requested
   if (s->precond_type != settings->cg_precond) {
     s->precond_type = settings->cg_precond;
@@ -339,9 +335,7 @@ void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
   s->reduction_interval = settings->cg_tol_reduction;
   s->tol_fraction       = settings->cg_tol_fraction;
 
-  //returns -1 for dcg failure, 0 otherwise
-  dcg_check(&mkln, NULL, NULL, &rci_request,
-            s->iparm, s->dparm, OSQPVectorf_data(s->tmp));
+  // dcg is initialized and checked again with these parameters before every solve
 
   return;
 }
-- 
2.43.0


From 22a3ab11b928161edcc52cc965ac806fbd53bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 42/56] fix: infinity norms do not ignore NaN entries

A vector with NaN entries had a small or zero (scaled) norm, so diverged iterates could pass the
termination test and be reported as solved.
---
 algebra/builtin/vector.c | 6 +++---
 algebra/mkl/vector.c     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/algebra/builtin/vector.c b/algebra/builtin/vector.c
index 6677fa8..534c14f 100644
--- a/algebra/builtin/vector.c
+++ b/algebra/builtin/vector.c
@@ -476,7 +476,7 @@ OSQPFloat OSQPVectorf_norm_inf(const OSQPVectorf* v) {
 
   for (i = 0; i < length; i++) {
     absval = c_absval(vv[i]);
-    if (absval > normval) normval = absval;
+    if (absval > normval || absval != absval) normval = absval; // NaN is kept
   }
   return normval;
 }
@@ -507,7 +507,7 @@ OSQPFloat OSQPVectorf_scaled_norm_inf(const OSQPVectorf* S,
 
   for (i = 0; i < length; i++) {
     absval = c_absval(Sv[i] * vv[i]);
-    if (absval > normval) normval = absval;
+    if (absval > normval || absval != absval) normval = absval; // NaN is kept
   }
   return normval;
 }
@@ -538,7 +538,7 @@ OSQPFloat OSQPVectorf_norm_inf_diff(const OSQPVectorf* a,
 
   for (i = 0; i < length; i++) {
     absval = c_absval(av[i] - bv[i]);
-    if (absval > normDiff) normDiff = absval;
+    if (absval > normDiff || absval != absval) normDiff = absval; // NaN is kept
   }
   return normDiff;
 }
diff --git a/algebra/mkl/vector.c b/algebra/mkl/vector.c
index 0725418..aa9da49 100644
--- a/algebra/mkl/vector.c
+++ b/algebra/mkl/vector.c
@@ -371,7 +371,7 @@ OSQPFloat OSQPVectorf_scaled_norm_inf(const OSQPVectorf* S,
 
   for (i = 0; i < length; i++) {
     absval = c_absval(Sv[i] * vv[i]);
-    if (absval > normval) normval = absval;
+    if (absval > normval || absval != absval) normval = absval; // NaN is kept
   }
   return normval;
 }
@@ -403,7 +403,7 @@ OSQPFloat OSQPVectorf_norm_inf_diff(const OSQPVectorf* a,
 
   for (i = 0; i < length; i++) {
     absval = c_absval(av[i] - bv[i]);
-    if (absval > normDiff) normDiff = absval;
+    if (absval > normDiff || absval != absval) normDiff = absval; // NaN is kept
   }
   return normDiff;
 }
-- 
2.43.0


From 3db0c31c515ef4a10e16f044b0fb1f8c712ae8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 43/56] fix: judge a matrix update with the step sizes of the
 rescaled bounds

The system was factored and checked for convexity with the weights of the old constraint classes;
when the rescaling changed a class, the second factorisation was not checked any more.
---
 src/osqp_api.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 79c314c..0885514 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1423,6 +1423,11 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
 
   if (solver->settings->scaling) scale_data(solver);
 
+  // The rescaled bounds may put constraints into another class (equality, inequality, unbounded).
+  // NB: Done first, so that the update of the matrices judges the system that is going to be used
+  //     (it factors again, so the outcome with the old matrices does not matter).
+  if (solver->settings->scaling && solver->settings->rho_is_vec) update_rho_vec(solver);
+
   // Update linear system structure with new data.
   // If there is scaling, then a full update is needed.
   if(solver->settings->scaling){
@@ -1438,11 +1443,6 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
                   work->data->A, Ax_new_idx, A_new_n);
   }
 
-  // The rescaled bounds may put constraints into another class (equality, inequality, unbounded)
-  if (!exitflag && solver->settings->scaling && solver->settings->rho_is_vec) {
-    exitflag = update_rho_vec(solver);
-  }
-
   // Reset solver information
   reset_info(solver->info);
 
-- 
2.43.0


From e4a0f7c87a7ba3fabb13423668e1c50412803696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:54 +0000
Subject: [PATCH 44/56] fix: generated code keeps numbers exactly

%.20f rounds every number below one to an absolute 1e-20, so small
entries of the factors, the data and the iterates lost their digits in
the generated program.
---
 src/codegen.c | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index a444641..022754a 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -40,7 +40,7 @@ static OSQPInt write_vecf(FILE*            f,
   if (n && vecf) {
     fprintf(f, "OSQPFloat %s[%" OSQP_INT_FMT "] = {\n", name, n);
     for (i = 0; i < n; i++) {
-      fprintf(f, "  (OSQPFloat)%.20f,\n", vecf[i]);
+      fprintf(f, "  (OSQPFloat)%.17e,\n", vecf[i]);
     }
     fprintf(f, "};\n");
   }
@@ -177,29 +177,29 @@ static OSQPInt write_settings(FILE*               f,
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->warm_starting);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaling);
   fprintf(f, "  0,\n"); // polishing
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->rho);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->rho_is_vec);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->alpha);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->sigma);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->alpha);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_max_iter);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_tol_reduction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->cg_tol_fraction);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->cg_tol_fraction);
   fprintf(f, "  %u,\n", settings->cg_precond);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho_interval);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_fraction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_tolerance);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->adaptive_rho_fraction);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->adaptive_rho_tolerance);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->max_iter);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_abs);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_rel);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_prim_inf);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_dual_inf);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->eps_abs);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->eps_rel);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->eps_prim_inf);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->eps_dual_inf);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaled_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_dualgap);
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->time_limit);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->delta);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->time_limit);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", settings->delta);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->polish_refine_iter);
   fprintf(f, "};\n\n");
 
@@ -222,14 +222,14 @@ static OSQPInt write_info(FILE*           f,
   fprintf(f, "  \"%s\",\n", OSQP_STATUS_MESSAGE[OSQP_UNSOLVED]);
   fprintf(f, "  %d,\n", OSQP_UNSOLVED);
   fprintf(f, "  0,\n"); // status_polish
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // prim_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // duality_gap
+  fprintf(f, "  (OSQPFloat)%.17e,\n", OSQP_INFTY); // obj_val
+  fprintf(f, "  (OSQPFloat)%.17e,\n", OSQP_INFTY); // dual_obj_val
+  fprintf(f, "  (OSQPFloat)%.17e,\n", OSQP_INFTY); // prim_res
+  fprintf(f, "  (OSQPFloat)%.17e,\n", OSQP_INFTY); // dual_res
+  fprintf(f, "  (OSQPFloat)%.17e,\n", OSQP_INFTY); // duality_gap
   fprintf(f, "  0,\n"); // iter (iteration count)
   fprintf(f, "  0,\n"); // rho_updates
-  fprintf(f, "  (OSQPFloat)%.20f,\n", info->rho_estimate);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", info->rho_estimate);
   fprintf(f, "  (OSQPFloat)0.0,\n"); // setup_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // solve_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // update_time
@@ -295,10 +295,10 @@ static OSQPInt write_scaling(FILE*              f,
   sprintf(name, "%sscaling_Einv", prefix);
   GENERATE_ERROR(write_OSQPVectorf(f, scaling->Einv, name))
   fprintf(f, "OSQPScaling %sscaling = {\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->c);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", scaling->c);
   fprintf(f, "  &%sscaling_D,\n", prefix);
   fprintf(f, "  &%sscaling_E,\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->cinv);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", scaling->cinv);
   fprintf(f, "  &%sscaling_Dinv,\n", prefix);
   fprintf(f, "  &%sscaling_Einv\n", prefix);
   fprintf(f, "};\n\n");
@@ -422,8 +422,8 @@ static OSQPInt write_linsys(FILE*               f,
     fprintf(f, "  OSQP_NULL,\n");
   }
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", linsys->sigma);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", linsys->rho_inv);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", n);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", m);
   if (embedded > 1) {
@@ -601,10 +601,10 @@ static OSQPInt write_workspace(FILE*             f,
   }
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_prim_res
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", work->rho_inv);
 
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->last_rel_kkt);
+  fprintf(f, "  (OSQPFloat)%.17e,\n", work->last_rel_kkt);
 
   fprintf(f, "};\n\n");
 
-- 
2.43.0


From dd8afe682efee4707fb7b703ab49eaf30637fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:54 +0000
Subject: [PATCH 45/56] fix: generated code with infinite bounds compiles

A bound given as an IEEE infinity was written as 'inf', which is not C.
---
 src/codegen.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codegen.c b/src/codegen.c
index 022754a..e909a8b 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <ctype.h>  /* -> toupper */
+#include <float.h>  /* -> DBL_MAX */
 #include <time.h>   /* time, ctime */
 
 #include "error.h"
@@ -40,7 +41,10 @@ static OSQPInt write_vecf(FILE*            f,
   if (n && vecf) {
     fprintf(f, "OSQPFloat %s[%" OSQP_INT_FMT "] = {\n", name, n);
     for (i = 0; i < n; i++) {
-      fprintf(f, "  (OSQPFloat)%.17e,\n", vecf[i]);
+      /* Infinite bounds have no literal */
+      if (vecf[i] > DBL_MAX)       fprintf(f, "  (OSQPFloat)HUGE_VAL,\n");
+      else if (vecf[i] < -DBL_MAX) fprintf(f, "  (OSQPFloat)-HUGE_VAL,\n");
+      else                         fprintf(f, "  (OSQPFloat)%.17e,\n", vecf[i]);
     }
     fprintf(f, "};\n");
   }
@@ -733,6 +737,7 @@ OSQPInt codegen_src(const char* output_dir,
   fprintf(srcFile, " */\n\n");
 
   /* Include required headers */
+  fprintf(srcFile, "#include <math.h>\n"); /* HUGE_VAL */
   fprintf(srcFile, "#include \"types.h\"\n");
   fprintf(srcFile, "#include \"algebra_impl.h\"\n");
   fprintf(srcFile, "#include \"qdldl_interface.h\"\n\n");
-- 
2.43.0


From 50540f401a9947ff37222ed3e7557a93f6609292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:54 +0000
Subject: [PATCH 46/56] fix: generated workspace matches its structure with
 optional features

With profiling, printing or derivatives enabled the workspace has more
fields than its initialiser, so the values after them were given to the
wrong fields.
---
 src/codegen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/codegen.c b/src/codegen.c
index e909a8b..37d6e1e 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -607,6 +607,20 @@ static OSQPInt write_workspace(FILE*             f,
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
   fprintf(f, "  (OSQPFloat)%.17e,\n", work->rho_inv);
 
+  /* Fields that only exist when the feature is enabled in the generated code */
+  fprintf(f, "#ifdef OSQP_ENABLE_PROFILING\n");
+  fprintf(f, "  OSQP_NULL,\n");  /* timer */
+  fprintf(f, "  1,\n");          /* first_run */
+  fprintf(f, "  0,\n");          /* clear_update_time */
+  fprintf(f, "  0,\n");          /* rho_update_from_solve */
+  fprintf(f, "#endif\n");
+  fprintf(f, "#ifdef OSQP_ENABLE_PRINTING\n");
+  fprintf(f, "  0,\n");          /* summary_printed */
+  fprintf(f, "#endif\n");
+  fprintf(f, "#ifdef OSQP_ENABLE_DERIVATIVES\n");
+  fprintf(f, "  OSQP_NULL,\n");  /* derivative_data */
+  fprintf(f, "#endif\n");
+
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
   fprintf(f, "  (OSQPFloat)%.17e,\n", work->last_rel_kkt);
 
-- 
2.43.0


From a55648d1b204d1e1bf365bf57fef870d28385c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:54 +0000
Subject: [PATCH 47/56] fix: provide interrupt.h to the generated code

Code generated with interrupts enabled includes it.
---
 include/CMakeLists.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CMakeLists.txt b/include/CMakeLists.txt
index 5849160..6d85bca 100644
--- a/include/CMakeLists.txt
+++ b/include/CMakeLists.txt
@@ -22,7 +22,8 @@ set(osqp_headers_public
     "${CMAKE_CURRENT_SOURCE_DIR}/public/osqp_export_define.h")
 
 list( APPEND EMBEDDED_PUBLIC_INCS ${osqp_headers_public} )
-list( APPEND EMBEDDED_PRIVATE_INCS ${osqp_headers_private} )
+list( APPEND EMBEDDED_PRIVATE_INCS ${osqp_headers_private}
+      "${CMAKE_CURRENT_SOURCE_DIR}/private/interrupt.h" )
 
 # The configure header is handled differentally for code generation (we don't copy it)
 list( APPEND osqp_headers_public "${CMAKE_CURRENT_BINARY_DIR}/public/osqp_configure.h")
-- 
2.43.0


From 728491c2406adfe2cee07f417caf7ae49247c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 48/56] fix: refuse names that do not fit when generating code

A long prefix or directory overflowed the buffers that file and variable
names are built in.
---
 src/codegen.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/codegen.c b/src/codegen.c
index 37d6e1e..5380609 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <string.h> /* -> strlen */
 #include <ctype.h>  /* -> toupper */
 #include <float.h>  /* -> DBL_MAX */
 #include <time.h>   /* time, ctime */
@@ -667,6 +668,16 @@ static OSQPInt write_solver(FILE*             f,
 * Codegen API
 **************/
 
+/* The names that are built from the directory and the prefix must fit their buffers */
+static OSQPInt names_fit(const char* output_dir,
+                         const char* file_prefix) {
+
+  return (strlen(file_prefix) + strlen("workspace") < FILE_LENGTH) &&
+         (strlen(output_dir) + strlen(file_prefix) + strlen("workspace.h") < PATH_LENGTH) &&
+         (strlen(output_dir) + strlen("osqp_configure.h") < PATH_LENGTH);
+}
+
+
 OSQPInt codegen_inc(const char* output_dir,
                     const char* file_prefix) {
 
@@ -675,6 +686,9 @@ OSQPInt codegen_inc(const char* output_dir,
   time_t now;
   OSQPInt i = 0;
 
+  if (!names_fit(output_dir, file_prefix))
+    return osqp_error(OSQP_FOPEN_ERROR);
+
   sprintf(fname,  "%sworkspace", file_prefix);
   sprintf(hfname, "%s%s.h", output_dir, fname);
 
@@ -734,6 +748,9 @@ OSQPInt codegen_src(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
+  if (!names_fit(output_dir, file_prefix))
+    return osqp_error(OSQP_FOPEN_ERROR);
+
   sprintf(fname,  "%s%sworkspace", output_dir, file_prefix);
   sprintf(cfname, "%s.c",        fname);
 
@@ -772,6 +789,9 @@ OSQPInt codegen_defines(const char*         output_dir,
   FILE *incFile;
   time_t now;
 
+  if (!names_fit(output_dir, ""))
+    return osqp_error(OSQP_FOPEN_ERROR);
+
   sprintf(cfname,  "%sosqp_configure.h", output_dir);
 
   /* Open source file */
@@ -839,6 +859,9 @@ OSQPInt codegen_example(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
+  if (!names_fit(output_dir, file_prefix))
+    return osqp_error(OSQP_FOPEN_ERROR);
+
   sprintf(cfname, "%semosqp.c", output_dir);
 
   /* Open source file */
-- 
2.43.0


From 134f5f3b0e7137bc3f91dd76b258fcc5b4c819c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:53 +0000
Subject: [PATCH 49/56] fix: adjoint derivative frees its work arrays with the
 allocator that made them

---
 .../_common/lin_sys/qdldl/qdldl_interface.c   | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 0f92d9e..9347df0 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -795,23 +795,23 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     QDLDL_float *Lx = OSQP_NULL;
     QDLDL_int   *Li = OSQP_NULL;
 
-    QDLDL_int   *Lp   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An+1));
-    QDLDL_float *D    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    QDLDL_float *Dinv = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *Lp   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An+1));
+    QDLDL_float *D    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    QDLDL_float *Dinv = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //permutation
-    QDLDL_int   *P    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An));
+    QDLDL_int   *P    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An));
     QDLDL_int   *Pinv = OSQP_NULL;
 
     //data for elim tree calculation
-    QDLDL_int *etree = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
-    QDLDL_int *Lnz   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *etree = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *Lnz   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
     QDLDL_int  sumLnz;
 
     //working data for factorisation
-    QDLDL_int   *iwork = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(3*An));
-    QDLDL_bool  *bwork = (QDLDL_bool*)malloc(sizeof(QDLDL_bool)*An);
-    QDLDL_float *fwork = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *iwork = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(3*An));
+    QDLDL_bool  *bwork = (QDLDL_bool*)c_malloc(sizeof(QDLDL_bool)*An);
+    QDLDL_float *fwork = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //Data for results of A\b
     QDLDL_float *x = OSQP_NULL;
@@ -849,8 +849,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
 
     sumLnz = QDLDL_etree(An, adj_permuted->p, adj_permuted->i, iwork, Lnz, etree);
 
-    Li    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*sumLnz);
-    Lx    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*sumLnz);
+    Li    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*sumLnz);
+    Lx    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*sumLnz);
 
     if (!Li || !Lx) {
         retval = OSQP_MEM_ALLOC_ERROR;
@@ -859,8 +859,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
 
     QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork);
 
-    x = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    x_work = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    x = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    x_work = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     if (!x || !x_work) {
         retval = OSQP_MEM_ALLOC_ERROR;
-- 
2.43.0


From ba85c86643bdaa58cc6eaa6cd446653cc76a5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:57 +0000
Subject: [PATCH 50/56] fix: adjoint derivative uses dy with the sign of the
 lower multipliers

---
 include/private/derivative.h |  3 +--
 src/derivative.c             | 15 ++++++---------
 src/osqp_api.c               |  2 +-
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/private/derivative.h b/include/private/derivative.h
index 783bdc9..c2a2e44 100644
--- a/include/private/derivative.h
+++ b/include/private/derivative.h
@@ -20,8 +20,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
 OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dx,
-                                   OSQPFloat*     dy_l,
-                                   OSQPFloat*     dy_u);
+                                   OSQPFloat*     dy);
 
 #ifdef __cplusplus
 }
diff --git a/src/derivative.c b/src/derivative.c
index 095479a..62157b9 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -100,8 +100,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
 OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dx,
-                                   OSQPFloat*     dy_l,
-                                   OSQPFloat*     dy_u) {
+                                   OSQPFloat*     dy) {
 
     // Check if solver has been initialized
     if (!solver || !solver->work || !solver->work->derivative_data)
@@ -135,8 +134,10 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPInt* u_noninf_indices_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
     OSQPInt* nu_sign_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
 
-    OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy_l, m);
-    OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy_u, m);
+    // y = y_u - y_l, so the lower multipliers move against y
+    OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy, m);
+    OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy, m);
+    OSQPVectorf_mult_scalar(dy_l_vec, -1);
 
     // TODO: We could use constr_type in OSQPWorkspace but it only tells us whether a constraint is 'loose'
     // not 'upper loose' or 'lower loose', which we seem to need here.
@@ -262,11 +263,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     OSQPFloat* d_nu_vec = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
     for (j=0; j<n_eq; j++) {
-      if (nu_sign_vec[j]==1) {
-        d_nu_vec[j] = dy_u[eq_indices_vec[j]];
-      } else if (nu_sign_vec[j]==-1) {
-        d_nu_vec[j] = -dy_l[eq_indices_vec[j]];
-      } else {}  // should never happen
+      d_nu_vec[j] = dy[eq_indices_vec[j]];
     }
     OSQPVectorf_subvector_assign(rhs, d_nu_vec, pos, n_eq, -1);
     c_free(d_nu_vec);
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 0885514..cc811ac 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1634,7 +1634,7 @@ OSQPInt osqp_adjoint_derivative_compute(OSQPSolver* solver,
   OSQPInt status = 0;
 
 #ifdef OSQP_ENABLE_DERIVATIVES
-  status = adjoint_derivative_compute(solver, dx, dy, dy);
+  status = adjoint_derivative_compute(solver, dx, dy);
 #else
   OSQP_UnusedVar(solver);
   OSQP_UnusedVar(dx);
-- 
2.43.0


From b92b68aa42f6aa1b16852da448f8308e3e39b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 51/56] fix: adjoint derivative reports failed allocations and
 solver errors

---
 src/derivative.c | 229 ++++++++++++++++++++++++++++-------------------
 1 file changed, 138 insertions(+), 91 deletions(-)

diff --git a/src/derivative.c b/src/derivative.c
index 62157b9..51d7b29 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -38,8 +38,7 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
 
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
-    OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // unscaled solution
-    OSQPFloat* x_data = OSQPVectorf_data(x);
+    OSQPFloat* x_data = solver->solution->x;  // unscaled solution
 
     OSQPFloat* y_u_data = OSQPVectorf_data(derivative_data->y_u);
     OSQPFloat* y_l_data = OSQPVectorf_data(derivative_data->y_l);
@@ -47,8 +46,7 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
     OSQPFloat* ryl_data = OSQPVectorf_data(derivative_data->ryl);
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
-    OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
-    OSQPFloat* rx_data  = OSQPVectorf_data(rx);
+    OSQPFloat* rx_data = OSQPVectorf_data(derivative_data->rhs) + pos;
 
     OSQPInt col;
     for (col=0; col<n; col++) {
@@ -63,9 +61,6 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
         }
     }
 
-    OSQPVectorf_view_free(rx);
-    OSQPVectorf_free(x);
-
     return 0;
 }
 
@@ -85,6 +80,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
     OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
+    if (!rx) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     // Assign vector derivatives to function arguments
     OSQPVectorf_to_raw(dq, rx);
@@ -110,6 +106,36 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
 
+    OSQPInt status = OSQP_NO_ERROR;
+    OSQPInt n_ineq_l = 0;
+    OSQPInt n_ineq_u = 0;
+    OSQPInt n_eq = 0;
+    OSQPInt j;
+    OSQPInt pos = 0;
+
+    // Everything allocated below is released at the end, whether or not all of it was obtained
+    OSQPMatrix*  A_ineq_l = OSQP_NULL;
+    OSQPMatrix*  A_ineq_u = OSQP_NULL;
+    OSQPMatrix*  A_eq = OSQP_NULL;
+    OSQPMatrix*  G = OSQP_NULL;
+    OSQPMatrix*  GDiagLambda = OSQP_NULL;
+    OSQPMatrix*  P_full = OSQP_NULL;
+    OSQPVectori* A_ineq_l_i = OSQP_NULL;
+    OSQPVectori* A_ineq_u_i = OSQP_NULL;
+    OSQPVectori* A_eq_i = OSQP_NULL;
+    OSQPVectorf* m_zeros = OSQP_NULL;
+    OSQPVectorf* y_l_ineq = OSQP_NULL;
+    OSQPVectorf* y_u_ineq = OSQP_NULL;
+    OSQPVectorf* lambda = OSQP_NULL;
+    OSQPVectorf* l_ineq = OSQP_NULL;
+    OSQPVectorf* u_ineq = OSQP_NULL;
+    OSQPVectorf* slacks = OSQP_NULL;
+    OSQPVectorf* dy_l_ineq = OSQP_NULL;
+    OSQPVectorf* dy_u_ineq = OSQP_NULL;
+    OSQPFloat*   d_nu_vec = OSQP_NULL;
+    OSQPFloat*   r_yl = OSQP_NULL;
+    OSQPFloat*   r_yu = OSQP_NULL;
+
     OSQPMatrix*  P = OSQPMatrix_copy_new(solver->work->data->P);
     OSQPMatrix*  A = OSQPMatrix_copy_new(solver->work->data->A);
     OSQPVectorf* l = OSQPVectorf_copy_new(solver->work->data->l);
@@ -117,14 +143,6 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // Note: x/y are unscaled solutions
     OSQPVectorf* y = OSQPVectorf_new(solver->solution->y, m);
 
-    // TODO: If we didn't have to unscale P/A/l/u we would not have to copy these
-    if (solver->settings->scaling) unscale_PA(solver, P, A);
-    if (solver->settings->scaling) unscale_lu(solver, l, u);
-
-    OSQPFloat* l_data = OSQPVectorf_data(l);
-    OSQPFloat* u_data = OSQPVectorf_data(u);
-    OSQPFloat* y_data = OSQPVectorf_data(y);
-
     OSQPInt* A_ineq_l_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
     OSQPInt* A_ineq_u_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
     OSQPInt* A_eq_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
@@ -137,17 +155,28 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     // y = y_u - y_l, so the lower multipliers move against y
     OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy, m);
     OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy, m);
+
+    if (!P || !A || !l || !u || !x || !y || !dy_l_vec || !dy_u_vec ||
+        (m && (!A_ineq_l_vec || !A_ineq_u_vec || !A_eq_vec || !eq_indices_vec ||
+               !l_noninf_indices_vec || !u_noninf_indices_vec || !nu_sign_vec))) {
+        status = osqp_error(OSQP_MEM_ALLOC_ERROR);
+        goto cleanup;
+    }
+
     OSQPVectorf_mult_scalar(dy_l_vec, -1);
 
+    // TODO: If we didn't have to unscale P/A/l/u we would not have to copy these
+    if (solver->settings->scaling) unscale_PA(solver, P, A);
+    if (solver->settings->scaling) unscale_lu(solver, l, u);
+
+    OSQPFloat* l_data = OSQPVectorf_data(l);
+    OSQPFloat* u_data = OSQPVectorf_data(u);
+    OSQPFloat* y_data = OSQPVectorf_data(y);
+
     // TODO: We could use constr_type in OSQPWorkspace but it only tells us whether a constraint is 'loose'
     // not 'upper loose' or 'lower loose', which we seem to need here.
     OSQPFloat infval = OSQP_INFTY * OSQP_MIN_SCALING;
 
-    OSQPInt n_ineq_l = 0;
-    OSQPInt n_ineq_u = 0;
-    OSQPInt n_eq = 0;
-
-    OSQPInt j;
     for (j = 0; j < m; j++) {
         OSQPFloat _l = l_data[j];
         OSQPFloat _u = u_data[j];
@@ -185,107 +214,96 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     derivative_data->n_ineq_u = n_ineq_u;
     derivative_data->n_eq = n_eq;
 
-    OSQPVectori* A_ineq_l_i = OSQPVectori_new(A_ineq_l_vec, m);
-    c_free(A_ineq_l_vec);
-    OSQPMatrix*  A_ineq_l = OSQPMatrix_submatrix_byrows(A, A_ineq_l_i);
-    OSQPMatrix_mult_scalar(A_ineq_l, -1);
-
-    OSQPVectori* A_ineq_u_i = OSQPVectori_new(A_ineq_u_vec, m);
-    c_free(A_ineq_u_vec);
-    OSQPMatrix*  A_ineq_u = OSQPMatrix_submatrix_byrows(A, A_ineq_u_i);
+    A_ineq_l_i = OSQPVectori_new(A_ineq_l_vec, m);
+    A_ineq_u_i = OSQPVectori_new(A_ineq_u_vec, m);
+    A_eq_i     = OSQPVectori_new(A_eq_vec, m);
+    if (!A_ineq_l_i || !A_ineq_u_i || !A_eq_i) {
+        status = osqp_error(OSQP_MEM_ALLOC_ERROR);
+        goto cleanup;
+    }
 
-    OSQPMatrix* G = OSQPMatrix_vstack(A_ineq_l, A_ineq_u);
+    A_ineq_l = OSQPMatrix_submatrix_byrows(A, A_ineq_l_i);
+    A_ineq_u = OSQPMatrix_submatrix_byrows(A, A_ineq_u_i);
+    A_eq     = OSQPMatrix_submatrix_byrows(A, A_eq_i);
+    if (!A_ineq_l || !A_ineq_u || !A_eq) {
+        status = osqp_error(OSQP_MEM_ALLOC_ERROR);
+        goto cleanup;
+    }
+    OSQPMatrix_mult_scalar(A_ineq_l, -1);
 
-    OSQPMatrix_free(A_ineq_l);
-    OSQPMatrix_free(A_ineq_u);
-
-    OSQPVectori* A_eq_i = OSQPVectori_new(A_eq_vec, m);
-    c_free(A_eq_vec);
-    OSQPMatrix*  A_eq = OSQPMatrix_submatrix_byrows(A, A_eq_i);
-    OSQPVectori_free(A_eq_i);
-    OSQPMatrix_free(A);
+    G = OSQPMatrix_vstack(A_ineq_l, A_ineq_u);
 
     // --------- lambda
-    OSQPVectorf* m_zeros = OSQPVectorf_malloc(m);
+    m_zeros = OSQPVectorf_malloc(m);
+    if (!G || !m_zeros) {
+        status = osqp_error(OSQP_MEM_ALLOC_ERROR);
+        goto cleanup;
+    }
     OSQPVectorf_set_scalar(m_zeros, 0);
     OSQPVectorf_ew_max_vec(derivative_data->y_u, y, m_zeros);
     OSQPVectorf_ew_min_vec(derivative_data->y_l, y, m_zeros);
     OSQPVectorf_mult_scalar(derivative_data->y_l, -1);
-    OSQPVectorf_free(m_zeros);
-
-    OSQPVectorf* y_l_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_l, A_ineq_l_i);
-    OSQPVectorf* y_u_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_u, A_ineq_u_i);
-    OSQPVectorf* lambda = OSQPVectorf_concat(y_l_ineq, y_u_ineq);
 
-    OSQPVectorf_free(y_l_ineq);
-    OSQPVectorf_free(y_u_ineq);
-    // ---------- lambda
+    y_l_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_l, A_ineq_l_i);
+    y_u_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_u, A_ineq_u_i);
 
     // --------- slacks
-    OSQPVectorf* l_ineq = OSQPVectorf_subvector_byrows(l, A_ineq_l_i);
-    OSQPVectorf_free(l);
+    l_ineq = OSQPVectorf_subvector_byrows(l, A_ineq_l_i);
+    u_ineq = OSQPVectorf_subvector_byrows(u, A_ineq_u_i);
+    if (!y_l_ineq || !y_u_ineq || !l_ineq || !u_ineq) {
+        status = osqp_error(OSQP_MEM_ALLOC_ERROR);
+        goto cleanup;
+    }
     OSQPVectorf_mult_scalar(l_ineq, -1);
-    OSQPVectorf* u_ineq = OSQPVectorf_subvector_byrows(u, A_ineq_u_i);
-    OSQPVectorf_free(u);
-    OSQPVectorf* h = OSQPVectorf_concat(l_ineq, u_ineq);
 
-    OSQPVectorf_free(l_ineq);
-    OSQPVectorf_free(u_ineq);
-
-    OSQPVectorf* slacks = OSQPVectorf_copy_new(h);
-    OSQPVectorf_free(h);
-    OSQPMatrix_Axpy(G, x, slacks, 1, -1);
-    OSQPVectorf_free(x);
+    lambda = OSQPVectorf_concat(y_l_ineq, y_u_ineq);
+    slacks = OSQPVectorf_concat(l_ineq, u_ineq);
 
     // ---------- GDiagLambda
-    OSQPMatrix* GDiagLambda = OSQPMatrix_copy_new(G);
-    OSQPMatrix_lmult_diag(GDiagLambda, lambda);
-    OSQPVectorf_free(lambda);
+    GDiagLambda = OSQPMatrix_copy_new(G);
 
     // ---------- Assemble RHS of the linear system
-    OSQPVectorf* dy_l_ineq = OSQPVectorf_subvector_byrows(dy_l_vec, A_ineq_l_i);
-    OSQPVectorf_free(dy_l_vec);
-    OSQPVectori_free(A_ineq_l_i);
-    OSQPVectorf* dy_u_ineq = OSQPVectorf_subvector_byrows(dy_u_vec, A_ineq_u_i);
-    OSQPVectorf_free(dy_u_vec);
-    OSQPVectori_free(A_ineq_u_i);
+    dy_l_ineq = OSQPVectorf_subvector_byrows(dy_l_vec, A_ineq_l_i);
+    dy_u_ineq = OSQPVectorf_subvector_byrows(dy_u_vec, A_ineq_u_i);
+    d_nu_vec  = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
+    P_full    = OSQPMatrix_triu_to_symm(P);
+    if (!lambda || !slacks || !GDiagLambda || !dy_l_ineq || !dy_u_ineq || (n_eq && !d_nu_vec) || !P_full) {
+        status = osqp_error(OSQP_MEM_ALLOC_ERROR);
+        goto cleanup;
+    }
+
+    OSQPMatrix_Axpy(G, x, slacks, 1, -1);
+    OSQPMatrix_lmult_diag(GDiagLambda, lambda);
 
     OSQPVectorf *rhs = derivative_data->rhs;
-    OSQPInt pos = 0;
     OSQPVectorf_subvector_assign(rhs, dx, pos, n, -1);
     pos += n;
     OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_l_ineq), pos, n_ineq_l, -1);
-    OSQPVectorf_free(dy_l_ineq);
     pos += n_ineq_l;
     OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_u_ineq), pos, n_ineq_u, -1);
-    OSQPVectorf_free(dy_u_ineq);
     pos += n_ineq_u;
 
-    OSQPFloat* d_nu_vec = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
     for (j=0; j<n_eq; j++) {
       d_nu_vec[j] = dy[eq_indices_vec[j]];
     }
     OSQPVectorf_subvector_assign(rhs, d_nu_vec, pos, n_eq, -1);
-    c_free(d_nu_vec);
     pos += n_eq;
 
     OSQPVectorf_subvector_assign_scalar(rhs, 0, pos, n + n_ineq_l + n_ineq_u + n_eq);
     // ---------- Assemble RHS of the linear system
 
-    OSQPMatrix* P_full = OSQPMatrix_triu_to_symm(P);
-    OSQPMatrix_free(P);
-    adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
-                                     solver->settings, P_full, G, A_eq, GDiagLambda, slacks, rhs);
-    OSQPMatrix_free(P_full);
-    OSQPMatrix_free(G);
-    OSQPMatrix_free(A_eq);
-    OSQPMatrix_free(GDiagLambda);
-    OSQPVectorf_free(slacks);
+    status = adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
+                                              solver->settings, P_full, G, A_eq, GDiagLambda, slacks, rhs);
+    if (status) goto cleanup;
 
     OSQPFloat* rhs_data = OSQPVectorf_data(rhs);
 
-    OSQPFloat* r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
-    OSQPFloat* r_yu = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
+    r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
+    r_yu = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
+    if (m && (!r_yl || !r_yu)) {
+        status = osqp_error(OSQP_MEM_ALLOC_ERROR);
+        goto cleanup;
+    }
     // TODO: We shouldn't have to do this if we assemble r_yl/r_yu judiciously
     for (j=0; j<m; j++) r_yl[j] = 0;
     for (j=0; j<m; j++) r_yu[j] = 0;
@@ -294,12 +312,10 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     for (j=0; j<derivative_data->n_ineq_l; j++) {
         r_yl[l_noninf_indices_vec[j]] = -rhs_data[pos+j];
     }
-    c_free(l_noninf_indices_vec);
     pos += derivative_data->n_ineq_l;
     for (j=0; j<derivative_data->n_ineq_u; j++) {
         r_yu[u_noninf_indices_vec[j]] = rhs_data[pos+j];
     }
-    c_free(u_noninf_indices_vec);
     pos += derivative_data->n_ineq_u;
     for (j=0; j<derivative_data->n_eq; j++) {
         if (nu_sign_vec[j]==1) {
@@ -310,19 +326,50 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
             r_yu[eq_indices_vec[j]] = 0;
         }
     }
-    c_free(nu_sign_vec);
-    c_free(eq_indices_vec);
 
     OSQPVectorf_from_raw(derivative_data->ryl, r_yl);
-    c_free(r_yl);
     OSQPVectorf_ew_prod(derivative_data->ryl, derivative_data->ryl, derivative_data->y_l);
     OSQPVectorf_mult_scalar(derivative_data->ryl, -1);
     OSQPVectorf_from_raw(derivative_data->ryu, r_yu);
-    c_free(r_yu);
     OSQPVectorf_ew_prod(derivative_data->ryu, derivative_data->ryu, derivative_data->y_u);
 
-    //cleanup
+cleanup:
+    OSQPMatrix_free(P);
+    OSQPMatrix_free(A);
+    OSQPMatrix_free(A_ineq_l);
+    OSQPMatrix_free(A_ineq_u);
+    OSQPMatrix_free(A_eq);
+    OSQPMatrix_free(G);
+    OSQPMatrix_free(GDiagLambda);
+    OSQPMatrix_free(P_full);
+    OSQPVectori_free(A_ineq_l_i);
+    OSQPVectori_free(A_ineq_u_i);
+    OSQPVectori_free(A_eq_i);
+    OSQPVectorf_free(l);
+    OSQPVectorf_free(u);
+    OSQPVectorf_free(x);
     OSQPVectorf_free(y);
+    OSQPVectorf_free(dy_l_vec);
+    OSQPVectorf_free(dy_u_vec);
+    OSQPVectorf_free(m_zeros);
+    OSQPVectorf_free(y_l_ineq);
+    OSQPVectorf_free(y_u_ineq);
+    OSQPVectorf_free(lambda);
+    OSQPVectorf_free(l_ineq);
+    OSQPVectorf_free(u_ineq);
+    OSQPVectorf_free(slacks);
+    OSQPVectorf_free(dy_l_ineq);
+    OSQPVectorf_free(dy_u_ineq);
+    c_free(A_ineq_l_vec);
+    c_free(A_ineq_u_vec);
+    c_free(A_eq_vec);
+    c_free(eq_indices_vec);
+    c_free(l_noninf_indices_vec);
+    c_free(u_noninf_indices_vec);
+    c_free(nu_sign_vec);
+    c_free(d_nu_vec);
+    c_free(r_yl);
+    c_free(r_yu);
 
-    return 0;
+    return status;
 }
-- 
2.43.0


From 53e6d2a2399704f80cb0375687f15597d659594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:28 +0000
Subject: [PATCH 52/56] fix: adjoint derivative of an equality constraint with
 a zero multiplier

---
 src/derivative.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/derivative.c b/src/derivative.c
index 51d7b29..b9cc0f7 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -317,22 +317,25 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
         r_yu[u_noninf_indices_vec[j]] = rhs_data[pos+j];
     }
     pos += derivative_data->n_ineq_u;
-    for (j=0; j<derivative_data->n_eq; j++) {
-        if (nu_sign_vec[j]==1) {
-            r_yl[eq_indices_vec[j]] = 0;
-            r_yu[eq_indices_vec[j]] = rhs_data[pos+j] / y_data[eq_indices_vec[j]];
-        } else {
-            r_yl[eq_indices_vec[j]] = -rhs_data[pos+j] / y_data[eq_indices_vec[j]];
-            r_yu[eq_indices_vec[j]] = 0;
-        }
-    }
-
     OSQPVectorf_from_raw(derivative_data->ryl, r_yl);
     OSQPVectorf_ew_prod(derivative_data->ryl, derivative_data->ryl, derivative_data->y_l);
     OSQPVectorf_mult_scalar(derivative_data->ryl, -1);
     OSQPVectorf_from_raw(derivative_data->ryu, r_yu);
     OSQPVectorf_ew_prod(derivative_data->ryu, derivative_data->ryu, derivative_data->y_u);
 
+    // The multiplier of an equality constraint can be zero, so these are not scaled by it
+    OSQPFloat* ryl_data = OSQPVectorf_data(derivative_data->ryl);
+    OSQPFloat* ryu_data = OSQPVectorf_data(derivative_data->ryu);
+    for (j=0; j<derivative_data->n_eq; j++) {
+        if (nu_sign_vec[j]==1) {
+            ryl_data[eq_indices_vec[j]] = 0;
+            ryu_data[eq_indices_vec[j]] = rhs_data[pos+j];
+        } else {
+            ryl_data[eq_indices_vec[j]] = -rhs_data[pos+j];
+            ryu_data[eq_indices_vec[j]] = 0;
+        }
+    }
+
 cleanup:
     OSQPMatrix_free(P);
     OSQPMatrix_free(A);
-- 
2.43.0


From d8a9e4cb989a30650e9e8ec010c42ca5bb1ff4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:28 +0000
Subject: [PATCH 53/56] fix: adjoint derivatives without an allocated solution
 are refused

---
 src/derivative.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/derivative.c b/src/derivative.c
index b9cc0f7..0b380ca 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -36,6 +36,9 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
     if (!solver || !solver->work || !solver->work->derivative_data)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
+    // The derivatives are those of the stored solution
+    if (!solver->solution) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
     OSQPFloat* x_data = solver->solution->x;  // unscaled solution
@@ -102,6 +105,9 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     if (!solver || !solver->work || !solver->work->derivative_data)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
+    // The derivatives are those of the stored solution
+    if (!solver->solution) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+
     OSQPInt m = solver->work->data->m;
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
-- 
2.43.0


From 220f6ad8552fcb1f24bc5fc8531da2f45fba51b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 54/56] fix: adjoint derivative reports a failed factorisation

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 9347df0..2c2653a 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -857,7 +857,10 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
         goto csc_alloc_fail;
     }
 
-    QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork);
+    if (QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork) < 0) {
+        retval = osqp_error(OSQP_LINSYS_SOLVER_INIT_ERROR);
+        goto csc_alloc_fail;
+    }
 
     x = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
     x_work = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
-- 
2.43.0


From 27e298485a908173406fe0be3e9b687a699db4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:26 +0000
Subject: [PATCH 55/56] fix: adjoint derivative does not diverge in single
 precision

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 2c2653a..523b0dd 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -781,7 +781,13 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
         goto adj_alloc_fail;
     }
 
+    // The perturbation must stay well above the rounding errors of the factorisation,
+    // its effect is removed by the iterative refinement below
+#ifdef OSQP_USE_FLOAT
+    _adj_perturb(adj, 1e-3);
+#else
     _adj_perturb(adj, 1e-6);
+#endif
 
     // ----------------------------
     // QDLDL formulation + solve
-- 
2.43.0


From a9c81b6b32aca5ca169401b47b12a44e5c3978d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:41 +0000
Subject: [PATCH 56/56] fix: do not leave earlier certificates when a solve
 ends non convex

---
 src/auxil.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index e480a35..acb066f 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -666,6 +666,14 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
       OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
     }
 
+    if (info->status_val == OSQP_NON_CVX) {
+      /* Nothing is certified: do not leave the certificates of an earlier solve */
+      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
+      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+    }
+
 #endif /* ifndef OSQP_EMBEDDED_MODE */
   }
 }
-- 
2.43.0

