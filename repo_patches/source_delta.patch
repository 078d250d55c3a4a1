From 4e9c763ddc91031b7e905a08ba484aac374adf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 1/7] fix: size the recurrence tables for L =
 LIBGRPP_MAX_BASIS_L and the differentiated L+1 shells

---
 libgrpp/kinetic.c                  | 4 ++--
 libgrpp/momentum.c                 | 4 ++--
 libgrpp/overlap.c                  | 3 ++-
 libgrpp/type1_mcmurchie_davidson.c | 5 +++--
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..a78c1ac 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,8 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    // L+1 values for each shell, one more for the differentiated (L+1) shells
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..8bebb2a 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -63,8 +63,9 @@ struct mmd_data {
     double K_abc[3];
     double R_QC_2;
     double boys[100];
-    double E[3][LMAX][LMAX][2 * LMAX];
-    double R[2 * LMAX][2 * LMAX][2 * LMAX][2 * LMAX];
+    // angular momenta 0..LMAX, and LMAX+1 for the differentiated shells (only one of two shells at a time)
+    double E[3][LMAX + 2][LMAX + 2][2 * LMAX + 2];
+    double R[2 * LMAX + 2][2 * LMAX + 2][2 * LMAX + 2][2 * LMAX + 2];
 };
 
 
-- 
2.43.0


From 4463575cfd450feaa2611056f6611d49eeffc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:51 +0000
Subject: [PATCH 2/7] fix: double_factorial aborted for arguments above its
 table although it can compute them

---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0


From b9c7ffada1d54662f8611c9cb473ed964ebc7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:51 +0000
Subject: [PATCH 3/7] fix: outercore integrals overwrote the origins of the
 caller's outercore shells

---
 libgrpp/outercore_integrals.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..6397e38 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -103,17 +103,19 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_y, 0, size_A * size_B * sizeof(double));
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
-    // bind outercore shells of the GRPP to the RPP center
+    // bind outercore shells of the GRPP to the RPP center (the arguments remain constant)
+    libgrpp_shell_t **bound_shells = (libgrpp_shell_t **) calloc(num_oc_shells, sizeof(libgrpp_shell_t *));
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
+        bound_shells[ioc] = libgrpp_shell_deep_copy(oc_shells[ioc]);
+        bound_shells[ioc]->origin[0] = rpp_origin[0];
+        bound_shells[ioc]->origin[1] = rpp_origin[1];
+        bound_shells[ioc]->origin[2] = rpp_origin[2];
     }
 
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
-        libgrpp_shell_t *nlj = oc_shells[ioc];
+        libgrpp_shell_t *nlj = bound_shells[ioc];
 
         libgrpp_outercore_potential_integrals_part_1(
             shell_A, shell_B, rpp_origin, pot, nlj,
@@ -127,8 +129,8 @@ void libgrpp_outercore_potential_integrals(
 
             libgrpp_potential_t *pot_1 = oc_potentials[ioc];
             libgrpp_potential_t *pot_2 = oc_potentials[joc];
-            libgrpp_shell_t *nlj_1 = oc_shells[ioc];
-            libgrpp_shell_t *nlj_2 = oc_shells[joc];
+            libgrpp_shell_t *nlj_1 = bound_shells[ioc];
+            libgrpp_shell_t *nlj_2 = bound_shells[joc];
 
             libgrpp_outercore_potential_integrals_part_2(
                 shell_A, shell_B,
@@ -137,6 +139,11 @@ void libgrpp_outercore_potential_integrals(
             );
         }
     }
+
+    for (int ioc = 0; ioc < num_oc_shells; ioc++) {
+        libgrpp_delete_shell(bound_shells[ioc]);
+    }
+    free(bound_shells);
 }
 
 
-- 
2.43.0


From 0b88cc5a5f820475e5d1096381acbbdb95c0fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:10 +0000
Subject: [PATCH 4/7] fix: gradients read outside the L-1 matrices, altered the
 bra component list and mixed component orders

---
 libgrpp/grpp_integrals_gradient.c | 60 ++++++++++++-------------------
 libgrpp/overlap_gradient.c        | 14 ++++----
 2 files changed, 30 insertions(+), 44 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..433919d 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -446,30 +446,24 @@ void grpp_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int ket_nlm[3];
-                ket_nlm[0] = shell_B->cart_list[3 * j + 0];
-                ket_nlm[1] = shell_B->cart_list[3 * j + 1];
-                ket_nlm[2] = shell_B->cart_list[3 * j + 2];
-
                 int index = i * shell_B->cart_size + j;
 
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
                     bra_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
-                        factor * bra_nlm[icoord] * arep_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * arep_matrix_down[shell_B->cart_size * bra_index + j];
                     grad_so_x[icoord][index] -=
-                        factor * bra_nlm[icoord] * so_x_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * so_x_matrix_down[shell_B->cart_size * bra_index + j];
                     grad_so_y[icoord][index] -=
-                        factor * bra_nlm[icoord] * so_y_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * so_y_matrix_down[shell_B->cart_size * bra_index + j];
                     grad_so_z[icoord][index] -=
-                        factor * bra_nlm[icoord] * so_z_matrix_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * so_z_matrix_down[shell_B->cart_size * bra_index + j];
                 }
 
                 /*
@@ -477,13 +471,12 @@ void grpp_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
                 bra_nlm[icoord] -= 1;
 
-                grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + ket_index];
-                grad_so_x[icoord][index] += factor * so_x_matrix_up[shell_B->cart_size * bra_index + ket_index];
-                grad_so_y[icoord][index] += factor * so_y_matrix_up[shell_B->cart_size * bra_index + ket_index];
-                grad_so_z[icoord][index] += factor * so_z_matrix_up[shell_B->cart_size * bra_index + ket_index];
+                grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + j];
+                grad_so_x[icoord][index] += factor * so_x_matrix_up[shell_B->cart_size * bra_index + j];
+                grad_so_y[icoord][index] += factor * so_y_matrix_up[shell_B->cart_size * bra_index + j];
+                grad_so_z[icoord][index] += factor * so_z_matrix_up[shell_B->cart_size * bra_index + j];
             }
         }
     }
@@ -635,11 +628,6 @@ void grpp_gradient_diff_ket_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int bra_nlm[3];
-                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
-                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
-                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
-
                 int ket_nlm[3];
                 ket_nlm[0] = shell_B->cart_list[3 * j + 0];
                 ket_nlm[1] = shell_B->cart_list[3 * j + 1];
@@ -650,34 +638,32 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
                     ket_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
-                        factor * ket_nlm[icoord] * arep_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * arep_matrix_down[cart_size_down * i + ket_index];
                     grad_so_x[icoord][index] -=
-                        factor * ket_nlm[icoord] * so_x_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * so_x_matrix_down[cart_size_down * i + ket_index];
                     grad_so_y[icoord][index] -=
-                        factor * ket_nlm[icoord] * so_y_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * so_y_matrix_down[cart_size_down * i + ket_index];
                     grad_so_z[icoord][index] -=
-                        factor * ket_nlm[icoord] * so_z_matrix_down[cart_size_down * bra_index + ket_index];
+                        factor * ket_nlm[icoord] * so_z_matrix_down[cart_size_down * i + ket_index];
                 }
 
                 /*
                  * contribution from the L+1 gaussian
                  */
                 ket_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
                 int ket_index = nlm_to_linear(ket_nlm);
                 ket_nlm[icoord] -= 1;
 
-                grad_arep[icoord][index] += factor * arep_matrix_up[cart_size_up * bra_index + ket_index];
-                grad_so_x[icoord][index] += factor * so_x_matrix_up[cart_size_up * bra_index + ket_index];
-                grad_so_y[icoord][index] += factor * so_y_matrix_up[cart_size_up * bra_index + ket_index];
-                grad_so_z[icoord][index] += factor * so_z_matrix_up[cart_size_up * bra_index + ket_index];
+                grad_arep[icoord][index] += factor * arep_matrix_up[cart_size_up * i + ket_index];
+                grad_so_x[icoord][index] += factor * so_x_matrix_up[cart_size_up * i + ket_index];
+                grad_so_y[icoord][index] += factor * so_y_matrix_up[cart_size_up * i + ket_index];
+                grad_so_z[icoord][index] += factor * so_z_matrix_up[cart_size_up * i + ket_index];
             }
         }
     }
@@ -852,10 +838,10 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                    int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                     diff_nlm[icoord] += 1;
 
                     int n = diff_nlm[icoord];
@@ -872,8 +858,8 @@ void grpp_gradient_contribution(
                  * contribution from the L+1 gaussian
                  */
                 diff_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                 diff_nlm[icoord] -= 1;
 
                 int row_len = diff_bra ? shell_B->cart_size : cart_size_up;
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..46220da 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,21 +115,22 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
-                int *ket_nlm = shell_B->cart_list + 3 * j;
+                int bra_nlm[3];
+                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
+                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
+                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
                 int index = i * shell_B->cart_size + j;
 
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
                     bra_nlm[icoord] += 1;
 
                     grad[icoord][index] -=
-                        factor * bra_nlm[icoord] * overlap_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * overlap_down[shell_B->cart_size * bra_index + j];
                 }
 
                 /*
@@ -137,10 +138,9 @@ void overlap_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
                 bra_nlm[icoord] -= 1;
 
-                grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + ket_index];
+                grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + j];
             }
         }
     }
-- 
2.43.0


From 259773ad7d2e06dfc63b5cf1d2e31d10085555de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:10 +0000
Subject: [PATCH 5/7] fix: adding more than 100 terms to a GRPP object wrote
 outside its lists

---
 libgrpp/grpp.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libgrpp/grpp.c b/libgrpp/grpp.c
index 75b10f8..86ce76b 100644
--- a/libgrpp/grpp.c
+++ b/libgrpp/grpp.c
@@ -30,8 +30,9 @@ void libgrpp_grpp_set_local_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t
 
 void libgrpp_grpp_add_averaged_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_arep == 0) {
-        grpp->U_arep = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
+    if (grpp->n_arep % LIBGRPP_MAX_NUMBER_POTENTIALS == 0) {
+        grpp->U_arep = (libgrpp_potential_t **) realloc(
+            grpp->U_arep, (grpp->n_arep + LIBGRPP_MAX_NUMBER_POTENTIALS) * sizeof(libgrpp_potential_t *));
     }
 
     grpp->U_arep[grpp->n_arep++] = pot;
@@ -40,8 +41,9 @@ void libgrpp_grpp_add_averaged_potential(libgrpp_grpp_t *grpp, libgrpp_potential
 
 void libgrpp_grpp_add_spin_orbit_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot)
 {
-    if (grpp->n_esop == 0) {
-        grpp->U_esop = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
+    if (grpp->n_esop % LIBGRPP_MAX_NUMBER_POTENTIALS == 0) {
+        grpp->U_esop = (libgrpp_potential_t **) realloc(
+            grpp->U_esop, (grpp->n_esop + LIBGRPP_MAX_NUMBER_POTENTIALS) * sizeof(libgrpp_potential_t *));
     }
 
     grpp->U_esop[grpp->n_esop++] = pot;
@@ -50,9 +52,11 @@ void libgrpp_grpp_add_spin_orbit_potential(libgrpp_grpp_t *grpp, libgrpp_potenti
 
 void libgrpp_grpp_add_outercore_potential(libgrpp_grpp_t *grpp, libgrpp_potential_t *pot, libgrpp_shell_t *oc_shell)
 {
-    if (grpp->n_oc_shells == 0) {
-        grpp->U_oc = (libgrpp_potential_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_potential_t *));
-        grpp->oc_shells = (libgrpp_shell_t **) calloc(LIBGRPP_MAX_NUMBER_POTENTIALS, sizeof(libgrpp_shell_t *));
+    if (grpp->n_oc_shells % LIBGRPP_MAX_NUMBER_POTENTIALS == 0) {
+        grpp->U_oc = (libgrpp_potential_t **) realloc(
+            grpp->U_oc, (grpp->n_oc_shells + LIBGRPP_MAX_NUMBER_POTENTIALS) * sizeof(libgrpp_potential_t *));
+        grpp->oc_shells = (libgrpp_shell_t **) realloc(
+            grpp->oc_shells, (grpp->n_oc_shells + LIBGRPP_MAX_NUMBER_POTENTIALS) * sizeof(libgrpp_shell_t *));
     }
 
     grpp->U_oc[grpp->n_oc_shells] = pot;
-- 
2.43.0


From fefd420ae389aeedf2830e915446d27e0ccf9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:23 +0000
Subject: [PATCH 6/7] fix: the ball, Gaussian, Fermi and Fermi-bubble entry
 points passed the charge as the first model parameter

---
 libgrpp/nuclear_attraction.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index a2fb118..04f2bec 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -196,8 +196,7 @@ void libgrpp_nuclear_attraction_integrals_charged_ball(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, params, coulomb_matrix);
@@ -216,8 +215,7 @@ void libgrpp_nuclear_attraction_integrals_gaussian_model(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, params, coulomb_matrix);
@@ -236,9 +234,8 @@ void libgrpp_nuclear_attraction_integrals_fermi_model(
     double *charge_origin, int charge, double fermi_param_c, double fermi_param_a, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = fermi_param_c;
-    params[2] = fermi_param_a;
+    params[0] = fermi_param_c;
+    params[1] = fermi_param_a;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI, params, coulomb_matrix);
@@ -258,10 +255,9 @@ void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(
     double *charge_origin, int charge, double param_c, double param_a, double param_k, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = param_c;
-    params[2] = param_a;
-    params[3] = param_k;
+    params[0] = param_c;
+    params[1] = param_a;
+    params[2] = param_k;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, params, coulomb_matrix);
-- 
2.43.0


From 179df190a646f393a1a68b828ebf65acb88586a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 7/7] fix: type-2 radial integrals treated centres within 1e-7
 of the pseudopotential as one-centre

---
 libgrpp/radial_type2_integral.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/radial_type2_integral.c b/libgrpp/radial_type2_integral.c
index 1befa4a..32cb00c 100644
--- a/libgrpp/radial_type2_integral.c
+++ b/libgrpp/radial_type2_integral.c
@@ -123,7 +123,7 @@ radial_type2_table_t *tabulate_radial_type2_integrals(
     /*
      * the special case of one-center RPP integrals
      */
-    if (CA_2 < 1e-14 && CB_2 < 1e-14) {
+    if (CA_2 < 1e-24 && CB_2 < 1e-24) {
 
         for (int i = 0; i < bra->num_primitives; i++) {
             double alpha_A = bra->alpha[i];
-- 
2.43.0

