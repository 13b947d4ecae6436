From 76db37e6a131fe0b2e7c2781fe8a71493aafe150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:10 +0000
Subject: [PATCH 01/13] fix: 2D ELL pattern of the x=lx edge pointed the north
 neighbour at the node itself

---
 src/ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index ea883bd..1a58404 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -837,7 +837,7 @@ void ell_init_2D(ell_matrix *m, int nFields, int nx, int ny)
 					mcols[4 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
 					mcols[5 * nFields + nnz * d1 + d2] = 0;
 					mcols[6 * nFields + nnz * d1 + d2] = (i + nx - 1) * nFields + d2;
-					mcols[7 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
+					mcols[7 * nFields + nnz * d1 + d2] = (i + nx) * nFields + d2;
 					mcols[8 * nFields + nnz * d1 + d2] = 0;
 				}
 			}
-- 
2.43.0


From b081e4485646ff0d2f8e963064ad3839dbd5f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:10 +0000
Subject: [PATCH 02/13] fix: 2D boundary conditions left columns of boundary
 nodes in rows next to x=lx and y=ly

---
 src/ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index 1a58404..e9f97f0 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -461,7 +461,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 		for (int i = 0; i < nx - 4; i++) {
 			for (int l = 6; l < 9; ++l)
 				for (int d2 = 0; d2 < nFields; d2++)
-					mvals[n * nFields * nnz + d1 * nnz + 6 * nFields + d2] = 0;
+					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
 			n += 1;
 		}
 	}
@@ -482,7 +482,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{ // x = lx - hx
 		const int tmp[] = { 2, 5, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = 4 * nx - 1;
+			int n = 3 * nx - 2;
 			for (int i = 0; i < ny - 4; i++) {
 				for (auto l : tmp)
 					for (int d2 = 0; d2 < nFields; d2++)
@@ -516,7 +516,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{// x = lx - hx , y = ly - hy
 		const int tmp[] = { 2, 5, 6, 7, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = (ny - 1) * nx - 1;
+			int n = (ny - 1) * nx - 2;
 			for (auto l : tmp)
 				for (int d2 = 0; d2 < nFields; d2++)
 					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
-- 
2.43.0


From da0c45e7fd76b418614d7ef3da5c90cb86bc833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:10 +0000
Subject: [PATCH 03/13] fix: ell_solve_jacobi_2D leaked its work arrays

---
 src/ell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ell.cpp b/src/ell.cpp
index e9f97f0..8d5047f 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -110,6 +110,10 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	}
 	solver->err = err;
 	solver->its = its;
+
+	free(k);
+	free(e_i);
+
 	return 0;
 }
 
-- 
2.43.0


From 7c865010d4e4a15f7586534dcbc97e2ecacfd2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:10 +0000
Subject: [PATCH 04/13] fix: linearity threshold was read from the
 uninitialised member instead of the argument

---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From d4708816052401dc41c679bab586f751464ea959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:10 +0000
Subject: [PATCH 05/13] fix: Newton iteration counter incremented the pointer,
 so the limit never applied

---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From 27fa739e062388b891ebe23dc412e0e1b4728993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:10 +0000
Subject: [PATCH 06/13] fix: 3D averages were divided by lx*ly instead of by
 the volume

---
 src/assembly.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..ec30e92 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -783,8 +783,9 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 		}
 	}
 
+	const double vol = (dim == 2) ? lx * ly : lx * ly * lz;
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= vol;
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -839,8 +840,9 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 		}
 	}
 
+	const double vol = (dim == 2) ? lx * ly : lx * ly * lz;
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= vol;
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From 644e87239f6ef81fa50d8c232b1af5980f34351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 07/13] fix: displacements and internal variables were read
 before being initialised

---
 src/micro.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..0bca0f9 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -57,12 +57,12 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 
 	b = (double *) malloc(nn * dim * sizeof(double));
 	du = (double *) malloc(nn * dim * sizeof(double));
-	u = (double *) malloc(nn * dim * sizeof(double));
+	u = (double *) calloc(nn * dim, sizeof(double));
 	elem_stress = (double *) malloc(nelem * nvoi * sizeof(double));
 	elem_strain = (double *) malloc(nelem * nvoi * sizeof(double));
 	elem_type = (int *) malloc(nelem * sizeof(int));
-	vars_old = (double *) malloc(num_int_vars * sizeof(double));
-	vars_new = (double *) malloc(num_int_vars * sizeof(double));
+	vars_old = (double *) calloc(num_int_vars, sizeof(double));
+	vars_new = (double *) calloc(num_int_vars, sizeof(double));
 
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
-- 
2.43.0


From e504a17fe0834bf406715f431bb6c9ac26d3b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 08/13] fix: a new Gauss point was reported with uninitialised
 stress, tangent and counters

---
 src/homogenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..40363f9 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = gp_t();
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
-- 
2.43.0


From b176a29d7f93879d63d276b07f31013ad78d64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 09/13] fix: plastic flow was only noticed when the last
 integration point of an element yielded

---
 src/assembly.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index ec30e92..eadd123 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -701,6 +701,9 @@ void micropp_t::get_elem_rhs2D(int ex, int ey, bool *non_linear, double (&be)[2
 void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double (&be)[3 * 8])
 {
 	double bmat[6][3 * 8], cxb[6][3 * 8], stress_gp[6];
+	bool non_linear_gp;
+
+	*non_linear = false;
 
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
@@ -711,7 +714,9 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0


From bb5cf62a6ead8002ca3193790f5ce69c1aeb7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 10/13] fix: an elastic evaluation after a plastic trial left
 the trial's variables to be committed

---
 src/homogenize.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 40363f9..5dc7f03 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -170,16 +170,15 @@ void micropp_t::homogenize()
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 			calc_ave_stress(gp.macro_stress);
 
-			if (nl_flag == true) {
-				if (gp.int_vars_n == NULL) {
-					gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
-					gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
-					for (int i = 0; i < num_int_vars; ++i)
-						gp.int_vars_n[i] = 0.0;
-				}
+			if (nl_flag == true && gp.int_vars_n == NULL) {
+				gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
+				gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
 				for (int i = 0; i < num_int_vars; ++i)
-					gp.int_vars_k[i] = vars_new[i];
+					gp.int_vars_n[i] = 0.0;
 			}
+			if (gp.int_vars_k != NULL)
+				for (int i = 0; i < num_int_vars; ++i)
+					gp.int_vars_k[i] = vars_new[i];
 
 			gp.nr_its[0] = nr_its;
 			gp.nr_err[0] = nr_err;
-- 
2.43.0


From fac06f700d759b3339e03285f9a6e7961a2b50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 11/13] fix: stored shear plastic strains (tensor) were
 subtracted from engineering shear strains

---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index eadd123..b9154be 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1029,7 +1029,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0


From dac86915b9d118edb6e368fa740c97d2d9823d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 12/13] fix: the hardening modulus was left out of the plastic
 multiplier

---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index b9154be..373c547 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1046,7 +1046,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		for (int i = 0; i < 6; ++i)
 			normal[i] = sig_dev_trial[i] / sig_dev_trial_norm;
 
-		dl = f_trial / (2 * material->mu * (1.0 + (0.0 * material->Ka) / (3 * material->mu)));
+		dl = f_trial / (2 * material->mu * (1.0 + material->Ka / (3 * material->mu)));
 
 		for (int i = 0; i < 6; ++i)
 			eps_p_new[i] = eps_p_old[i] + dl * normal[i];
-- 
2.43.0


From 45ffcff0b6d759f00a77fe19043df216acf0c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 13/13] fix: constructing again through the Fortran wrapper
 leaked the previous object

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 22ac880..35926d3 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -30,6 +30,7 @@ extern "C" {
 	void micropp_construct_(int *dim, int size[3], int *micro_type,
 	                        double *micro_params, int *mat_types, double *params)
 	{
+		delete micro;
 		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); 
 	}
 
-- 
2.43.0

