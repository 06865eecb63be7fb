From cfd15b21be1764590b2b663a8bf74f2372059ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:10 +0000
Subject: [PATCH 01/11] fix: keep the common denominator of existential
 divisions

div_expr printed the numerator of each normalised coefficient of a
division together with the common denominator, so that floor((2i+N)/4)
was generated as floord(i+N,4).
---
 source/isl/constraints.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/isl/constraints.c b/source/isl/constraints.c
index acd6312..1e4c5a4 100644
--- a/source/isl/constraints.c
+++ b/source/isl/constraints.c
@@ -584,8 +584,9 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 		v = cloog_constraint_variable_expr(constraint, 1 + i, names);
 
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* The coefficient over the common denominator */
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, v)->expr;
 
 		isl_val_free(c);
@@ -593,8 +594,9 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 	c = isl_aff_get_constant_val(div);
 	if (!isl_val_is_zero(c)) {
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* The coefficient over the common denominator */
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, NULL)->expr;
 	}
 	isl_val_free(c);
-- 
2.43.0


From 57357a57974915009706867c2595d094fc43248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:46 +0000
Subject: [PATCH 02/11] fix: cloog_domain_convex must not consume its caller's
 reference

isl_set_coalesce takes its argument, so calling it on the caller's set
dropped a reference that the caller still owns; with a shared set this
freed it under its other owners (segfault in cloog_loop_merge with -f 2
on one-dimensional unions).
---
 source/isl/domain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b928ff9..63e9272 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -135,8 +135,8 @@ CloogDomain * cloog_domain_copy(CloogDomain * domain)
 CloogDomain *cloog_domain_convex(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-  set = isl_set_coalesce(set);
-	set = isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(set)));
+	set = isl_set_coalesce(isl_set_copy(set));
+	set = isl_set_from_basic_set(isl_set_convex_hull(set));
 	return cloog_domain_from_isl_set(set);
 }
 
-- 
2.43.0


From 16145a0782e7c46bd918a0b274ed5354c54646c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:53 +0000
Subject: [PATCH 03/11] fix: release the trip count when a loop cannot be
 unrolled

cloog_domain_can_unroll leaked the isl_val holding the candidate count
(and with it a reference on the isl_ctx) on its failure path.
---
 source/isl/domain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 63e9272..331b161 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2065,6 +2065,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
+		isl_val_free(ccu.n);
 		return 0;
 	}
 
-- 
2.43.0


From e436cd98c5a20eb99b09415d71a525e23d441515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:45 +0000
Subject: [PATCH 04/11] fix: read the scattering columns in
 cloog_scattering_from_cloog_matrix

The rows of a scattering matrix start with the scattering dimensions, but
the reader only handled the set (output) dimensions and so took the
coefficients of the wrong columns.
---
 source/isl/domain.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 331b161..2e6faf3 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -531,6 +531,7 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 {
 	struct isl_constraint *constraint;
 	int j;
+	int nin = isl_space_is_set(dim) ? 0 : isl_space_dim(dim, isl_dim_in);
 	int nvariables = isl_space_dim(dim, isl_dim_set);
 	int nparam = isl_space_dim(dim, isl_dim_param);
 	isl_local_space *ls = isl_local_space_from_space(dim);
@@ -540,17 +541,22 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 	else
 		constraint = isl_inequality_alloc(ls);
 
-	for (j = 0; j < nvariables; ++j) {
+	for (j = 0; j < nin; ++j) {
 		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
+		isl_constraint_set_coefficient_val(constraint, isl_dim_in, j, val);
+	}
+
+	for (j = 0; j < nvariables; ++j) {
+		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + nin + j]);
 		isl_constraint_set_coefficient_val(constraint, isl_dim_out, j, val);
 	}
 
 	for (j = 0; j < nparam; ++j) {
-		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + nvariables + j]);
+		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + nin + nvariables + j]);
 		isl_constraint_set_coefficient_val(constraint, isl_dim_param, j, val);
 	}
 
-	isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + nvariables + nparam]);
+	isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + nin + nvariables + nparam]);
 	isl_constraint_set_constant_val(constraint, val);
 
 	return constraint;
-- 
2.43.0


From a8280196a08b5806c05be41f3d901be216304cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:46 +0000
Subject: [PATCH 05/11] fix: do not derive a stride from a coefficient sharing
 a factor with it

If the coefficient at the level and the gcd of the coefficients of the
existentially quantified variables have a common factor, no integer
factor satisfies the property documented for construct_stride (its product
with the coefficient is -1 modulo the stride), and the loop would start
at a value that is not in the domain, e.g. {[i] : (2i+M-1) mod 4 = 0}.
---
 source/isl/domain.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 2e6faf3..871e984 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1826,7 +1826,8 @@ static CloogStride *construct_stride(isl_constraint *c, int level)
 	gcd = isl_val_copy(gcd_copy);
 	stride = isl_val_div(gcd, v);
 
-	if (isl_val_is_zero(stride) || isl_val_is_one(stride))
+	if (isl_val_is_zero(stride) || isl_val_is_one(stride) ||
+	    !isl_val_is_one(v_copy))
 		s = NULL;
 	else {
 		cloog_int_init(c_m);
-- 
2.43.0


From 4cf9776c29ae6dffbe4b4e8710f1ab030daffaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:41 +0000
Subject: [PATCH 06/11] fix: do not unroll a union whose first piece has no
 usable lower bound

cloog_domain_can_unroll only noticed a second piece when the first one had
already provided a lower bound, so a union starting with a piece without
one was unrolled using the bound of a later piece, losing iterations.
---
 source/isl/domain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 871e984..a507614 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2043,6 +2043,8 @@ static int basic_set_can_unroll(__isl_take isl_basic_set *bset, void *user)
 		bset = isl_basic_set_remove_redundancies(bset);
 		r = isl_basic_set_foreach_constraint(bset,
 						&constraint_can_unroll, ccu);
+		if (!ccu->c)
+			ccu->can_unroll = 0;
 	}
 	isl_basic_set_free(bset);
 	return r;
-- 
2.43.0


From a19264e3a464ca14320d49b4e8a46db9ede178ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:23 +0000
Subject: [PATCH 07/11] fix: do not try to unroll the parameter level

With first_unroll == 0 loop_recurse called cloog_loop_unroll with level 0,
which asks isl about dimension -1 and aborts the program.
---
 source/loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/loop.c b/source/loop.c
index a019ffa..8043857 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1781,7 +1781,7 @@ static CloogLoop *loop_recurse(CloogLoop *loop,
     if (level && options->strides && !constant)
       cloog_loop_stride(loop, level);
 
-    if (!constant &&
+    if (level && !constant &&
 	options->first_unroll >= 0 && level + scalar >= options->first_unroll) {
 	loop = cloog_loop_unroll(loop, level);
 	if (loop->next)
-- 
2.43.0


From 8088d49350aeea91ba5aa92943563e84d1ac24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 08/11] fix: leave room for terms introduced by stride
 elimination in modulo guards

The number of terms of a modulo guard is counted before iterators are
eliminated using stride constraints; the elimination may replace a
single iterator by several parameters and earlier iterators, so the
terms were written past the end of the reduction.
---
 source/clast.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/clast.c b/source/clast.c
index 7283aa7..44bd6e1 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1392,7 +1392,10 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	struct clast_reduction *r;
 	const char *name;
 
-	r = new_clast_reduction(clast_red_sum, nb_elts + 1);
+	/* Eliminating iterators below may introduce new terms,
+	 * so leave room for every variable and the constant.
+	 */
+	r = new_clast_reduction(clast_red_sum, len - 1);
 	nb_elts = 0;
 
 	/* First, the modulo guard : the iterators... */
-- 
2.43.0


From 8a4b056a651941a59838c12d1e05b1f429710446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 09/11] fix: separate the stride of a FORTRAN loop from its
 upper bound

A stride larger than one was printed directly after the upper bound,
turning "DO i=0, N" with stride 2 into "DO i=0, N2".
---
 source/pprint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 6d85a5d..17ee831 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -615,8 +615,10 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	cloog_die("unbounded loops not allowed in FORTRAN.\n");
 
     if (options->language == CLOOG_LANGUAGE_FORTRAN) {
-	if (cloog_int_gt_si(f->stride, 1))
+	if (cloog_int_gt_si(f->stride, 1)) {
+	    fprintf(dst, ", ");
 	    cloog_int_print(dst, f->stride);
+	}
 	fprintf(dst,"\n");
     }
     else {
-- 
2.43.0


From bb7dd50657c0ed93bd994c2793ccd2e2aed413c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:24 +0000
Subject: [PATCH 10/11] fix: print a sign before a later term with a zero
 coefficient

The terms of a sum were glued together, e.g. i and 0*j as "i0*j".
---
 source/pprint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 17ee831..9ea83c0 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -135,7 +135,7 @@ void pprint_sum(struct cloogoptions *opt, FILE *dst, struct clast_reduction *r)
     for (i = 1; i < r->n; ++i) {
 	assert(r->elts[i]->type == clast_expr_term);
 	t = (struct clast_term *) r->elts[i];
-	if (cloog_int_is_pos(t->val))
+	if (!cloog_int_is_neg(t->val))
 	    fprintf(dst, "+");
 	pprint_term(opt, dst, t);
     }
-- 
2.43.0


From e0a8f7c05f6f0be72a1d1d3905649de6de3cfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:42 +0000
Subject: [PATCH 11/11] fix: cloog_loop_generate_scalar must not group loops
 that have no dimension at the scalar level

The head of a group was compared with its successors without checking that
it still has a scalar dimension there; a statement already complete was then
merged with (and lost to) its successors.
---
 source/loop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/loop.c b/source/loop.c
index 8043857..0f31351 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2057,6 +2057,7 @@ CloogLoop *cloog_loop_generate_scalar(CloogLoop *loop,
     ref = temp ;
     
     while((end->next != NULL) &&
+	 cloog_loop_more(temp, level, scalar_new, nb_scattdims) &&
 	 cloog_loop_more(end->next, level, scalar_new, nb_scattdims) &&
          cloog_loop_scalar_eq(ref,end->next,level,scaldims,nb_scattdims,scalar))
     end = end->next ;
-- 
2.43.0

