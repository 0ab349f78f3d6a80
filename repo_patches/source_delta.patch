From 177c404bdc13682a8ef24215ff89e3263709bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:10 +0000
Subject: [PATCH 01/68] fix: report failure when saving to file does not write
 all the data

---
 c3/lib_array/array.c             |  7 ++++++-
 c3/lib_clinalg/ft.c              | 16 ++++++++++++----
 c3/lib_probability/probability.c |  8 ++++++--
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 807c867..cc24b0b 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -660,6 +660,7 @@ darray_save(size_t rows, size_t cols, double * arr, char * filename, int type)
         unsigned char * data = malloc(totsize+sizeof(size_t));
         if (data == NULL){
             fprintf(stderr, "can't allocate space for saving density\n");
+            fclose(fp);
             return 0;
         }
 
@@ -685,7 +686,11 @@ darray_save(size_t rows, size_t cols, double * arr, char * filename, int type)
         }
     
     }
-    fclose(fp);
+    int failed = ferror(fp);
+    if ((fclose(fp) != 0) || (failed != 0)){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
 
     return 1;
 }
diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b430784..52644df 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -427,6 +427,7 @@ int function_train_save(struct FunctionTrain * ft, char * filename)
     unsigned char * data = malloc(totsize+sizeof(size_t));
     if (data == NULL){
         fprintf(stderr, "can't allocate space for saving density\n");
+        fclose(fp);
         return 0;
     }
     
@@ -434,10 +435,13 @@ int function_train_save(struct FunctionTrain * ft, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = function_train_serialize(ptr,ft,NULL);
 
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t nwrite = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    if ((fclose(fp) != 0) || (nwrite != totsize+sizeof(size_t))){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
@@ -4124,6 +4128,7 @@ int ft1d_array_save(struct FT1DArray * ft, char * filename)
     unsigned char * data = malloc(totsize+sizeof(size_t));
     if (data == NULL){
         fprintf(stderr, "can't allocate space for saving density\n");
+        fclose(fp);
         return 0;
     }
     
@@ -4131,10 +4136,13 @@ int ft1d_array_save(struct FT1DArray * ft, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = ft1d_array_serialize(ptr,ft,NULL);
 
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t nwrite = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    if ((fclose(fp) != 0) || (nwrite != totsize+sizeof(size_t))){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 1927569..2da7f02 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -951,16 +951,20 @@ int probability_density_save(struct ProbabilityDensity * pdf, char * filename)
     unsigned char * data = malloc(totsize+sizeof(size_t));
     if (data == NULL){
         fprintf(stderr, "can't allocate space for saving density\n");
+        fclose(fp);
         return 0;
     }
 
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = probability_density_serialize(ptr,pdf,NULL);
     
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t nwrite = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    if ((fclose(fp) != 0) || (nwrite != totsize+sizeof(size_t))){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From 66234ad97349f438626acd17773ba83bc1ce137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:10 +0000
Subject: [PATCH 02/68] fix: reject truncated or unreadable files on load and
 close them

---
 c3/lib_array/array.c             | 10 +++++++++-
 c3/lib_clinalg/ft.c              | 16 ++++++++++++++++
 c3/lib_probability/probability.c |  8 ++++++++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index cc24b0b..6324042 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -720,16 +720,24 @@ darray_load(char * filename, int type)
         size_t k = fread(&totsize,sizeof(size_t),1,fp);
         if ( k != 1){
             printf("error reading file %s\n",filename);
+            fclose(fp);
             return NULL;
         }
 
         unsigned char * data = malloc(totsize);
         if (data == NULL){
             fprintf(stderr, "can't allocate space for loading density\n");
+            fclose(fp);
             return NULL;
         }
 
         k = fread(data,sizeof(unsigned char),totsize,fp);
+        if (k != totsize){
+            printf("error reading file %s\n",filename);
+            free(data); data = NULL;
+            fclose(fp);
+            return NULL;
+        }
         
         size_t nrows, ncols, tot;
         unsigned char * ptr = deserialize_size_t(data,&nrows);
@@ -738,11 +746,11 @@ darray_load(char * filename, int type)
         assert(tot == (nrows*ncols));
         
         free(data); data = NULL;
-        fclose(fp);
     }
     else{
         fprintf(stderr,"Loading array of type=%d is not implemented\n",type);
     }
+    fclose(fp);
     return value;
 }
 
diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 52644df..b693bf6 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -465,16 +465,24 @@ struct FunctionTrain * function_train_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        printf("error reading file %s\n",filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct FunctionTrain * ft = NULL;
     function_train_deserialize(data,&ft);
@@ -4166,16 +4174,24 @@ struct FT1DArray * ft1d_array_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        printf("error reading file %s\n",filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct FT1DArray * ft = NULL;
     ft1d_array_deserialize(data,&ft);
diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 2da7f02..92a146c 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -988,16 +988,24 @@ struct ProbabilityDensity * probability_density_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        printf("error reading file %s\n",filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct ProbabilityDensity * pdf = NULL;
     probability_density_deserialize(data,&pdf);
-- 
2.43.0


From 43d07097065dff806d22f0ef8c7d94173f1ad82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 03/68] fix: recall infinite and undefined values exactly from
 the function monitor

---
 c3/lib_array/array.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 6324042..467d710 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -45,6 +45,7 @@
 #include <math.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
 
 #include "array.h"
 #include "stringmanip.h"
@@ -436,6 +437,11 @@ struct dbl_packed
 
 void pack(double x, struct dbl_packed * r)
 {
+    if (isfinite(x) == 0){ // has no fraction, flag it with an exponent that frexp never returns
+        r->exp = INT_MAX;
+        r->frac = isnan(x) ? 0 : ((x < 0.0) ? -1 : 1);
+        return;
+    }
     double xf = fabs(frexp(x,&r->exp))-0.5;
     if (xf < 0.0){
         r->frac = 0;
@@ -450,6 +456,12 @@ void pack(double x, struct dbl_packed * r)
 double unpack(const struct dbl_packed * p)
 {
     double xf, x;
+    if (p->exp == INT_MAX){
+        if (p->frac == 0){
+            return NAN;
+        }
+        return (p->frac < 0) ? -INFINITY : INFINITY;
+    }
     if (p->frac == 0){
         return 0.0;
     }
-- 
2.43.0


From a9df2a5f7a04db7a71420ff2e5a01ddd57a9f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 04/68] fix: print the stored points and gradients of the
 iteration they belong to

---
 c3/lib_optimization/optimization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8954b92..eeb1603 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -844,12 +844,12 @@ void c3opt_print_stored_values(struct c3Opt * opt, FILE * fp, int width, int pre
         }
         if (opt->store_grad == 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->d+jj]);
             }
         }
         if (opt->store_x== 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->d+jj]);
             }
         }
         fprintf(fp,"\n");
-- 
2.43.0


From 80367185f113db76ef6c5c1656bf36cc5d871a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 05/68] fix: stop the strong Wolfe zoom when the interval
 cannot be divided

---
 c3/lib_optimization/optimization.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index eeb1603..d3a50ce 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1427,6 +1427,9 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
         /* printf("(tlow,thigh) = (%3.15G,%3.15G),\n",tl,th); */
 
         t = (tl + th)/2.0;
+        if ((t == tl) || (t == th)){ // interval cannot be divided further
+            break;
+        }
         c3opt_ls_x_move(d,t,dir,x,newx,lb,ub);
 
         fcurr = c3opt_eval(opt,newx,grad);
-- 
2.43.0


From bb846ace486ff22a748cac46cfea68ceb28a6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 06/68] fix: do not abort the strong Wolfe line search on an
 insufficient decrease

---
 c3/lib_optimization/optimization.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index d3a50ce..6688bb5 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1556,11 +1556,6 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
         }
         if ((*newf > checkval) || ( (*newf >= f_prev) && (iter > 1))){
             /* printf("found range (%G,%G) \n",t_prev,t); */
-            if (f_prev > *newf){
-                /* printf("f_prev = %G\n",f_prev); */
-                /* printf("*newf = %G\n",*newf); */
-                assert (f_prev < *newf);
-            }
             t = c3opt_ls_zoom(opt,t_prev,f_prev,t,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
@@ -1576,7 +1571,6 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
             return t*alpha;
         }
         else if (dg2 >= 0.0){
-            assert (*newf < f_prev);
             t = c3opt_ls_zoom(opt,t,*newf,t_prev,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
-- 
2.43.0


From a15baf90982e6bc42d5fed71fb7ac0959b28a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:45 +0000
Subject: [PATCH 07/68] fix: copy all of an optimizer, and no more than its
 workspace holds

---
 c3/lib_optimization/optimization.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 6688bb5..7d81e17 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -302,6 +302,7 @@ struct c3Opt * c3opt_create(enum c3opt_alg alg)
     opt->d = 0;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
 
     opt->lb = NULL;
@@ -450,6 +451,7 @@ struct c3Opt * c3opt_alloc(enum c3opt_alg alg, size_t d)
     opt->d = d;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
     
     opt->lb = calloc_double(d);
@@ -533,6 +535,7 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     }
     struct c3Opt * opt = c3opt_alloc(old->alg,old->d);
     opt->f = old->f;
+    opt->fsgd = old->fsgd;
     opt->farg = old->farg;
     memmove(opt->lb,old->lb,opt->d*sizeof(double));
     memmove(opt->ub,old->ub,opt->d*sizeof(double));
@@ -545,7 +548,8 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->nlocs   = old->nlocs;
     if ((opt->alg == BFGS) || (opt->alg == BATCHGRAD) || (opt->alg == LBFGS)){
         opt->grad = 1;
-        memmove(opt->workspace,old->workspace,4*opt->d*sizeof(double));
+        size_t nwork = (opt->alg == BATCHGRAD) ? 2*opt->d : 4*opt->d;
+        memmove(opt->workspace,old->workspace,nwork*sizeof(double));
         c3ls_free(opt->ls); opt->ls = NULL;
         opt->ls = c3ls_copy(old->ls);
     }
@@ -573,15 +577,15 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->store_x     = old->store_x;
     if (opt->store_grad == 1){
         opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->maxiter);
+        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->maxiter*sizeof(double));
     }
     if (opt->store_x == 1){
         opt->stored_x = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->maxiter);
+        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->maxiter*sizeof(double));
     }
     if (opt->store_func == 1){
         opt->stored_func = calloc_double(sizeof(double)*opt->maxiter);
-        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->maxiter);
+        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->maxiter*sizeof(double));
     }
 
     return opt;
-- 
2.43.0


From 7629a79c7ab83a29e7c6abb72b660a887a6dca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:45 +0000
Subject: [PATCH 08/68] fix: release the previous brute-force locations

---
 c3/lib_optimization/optimization.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 7d81e17..6021287 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -930,6 +930,7 @@ void c3opt_set_brute_force_vals(struct c3Opt * opt, size_t nvals, double * loc)
         fprintf(stderr,"in order to add brute force values\n");
     }
     opt->nlocs = nvals;
+    free(opt->workspace); opt->workspace = NULL;
     opt->workspace = calloc_double(nvals * opt->d);
     memmove(opt->workspace,loc,opt->d*nvals*sizeof(double));
 }
-- 
2.43.0


From a8e9ba37b61485f5c38159f55181b0dcce97d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:27 +0000
Subject: [PATCH 09/68] fix: keep optimizer trace storage large enough when the
 iteration limit grows

---
 c3/lib_optimization/optimization.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 6021287..d66285d 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -720,10 +720,32 @@ int c3opt_get_verbose(struct c3Opt* opt)
     return opt->verbose;
 }
 
+/// @private
+static double * c3opt_grow_trace(double * trace, size_t nold, size_t nnew)
+{
+    double * out = calloc_double(nnew);
+    memmove(out,trace,nold*sizeof(double));
+    free(trace); trace = NULL;
+    return out;
+}
+
 void c3opt_set_maxiter(struct c3Opt * opt , size_t maxiter)
 {
     assert (opt != NULL);
-    opt->maxiter = maxiter;;
+    if (maxiter > opt->maxiter){ // stored traces must fit the additional iterations
+        size_t nold = sizeof(double)*opt->maxiter;
+        size_t nnew = sizeof(double)*maxiter;
+        if (opt->stored_grad != NULL){
+            opt->stored_grad = c3opt_grow_trace(opt->stored_grad,opt->d*nold,opt->d*nnew);
+        }
+        if (opt->stored_x != NULL){
+            opt->stored_x = c3opt_grow_trace(opt->stored_x,opt->d*nold,opt->d*nnew);
+        }
+        if (opt->stored_func != NULL){
+            opt->stored_func = c3opt_grow_trace(opt->stored_func,nold,nnew);
+        }
+    }
+    opt->maxiter = maxiter;
 }
 
 size_t c3opt_get_maxiter(const struct c3Opt * opt)
@@ -800,10 +822,15 @@ double * c3opt_get_workspace(struct c3Opt * opt)
 void c3opt_set_storage_options(struct c3Opt * opt, int store_func, int store_grad, int store_x)
 {
     assert (opt != NULL);
+
     opt->store_func = store_func;
     opt->store_grad = store_grad;
     opt->store_x = store_x;
 
+    free(opt->stored_grad); opt->stored_grad = NULL;
+    free(opt->stored_func); opt->stored_func = NULL;
+    free(opt->stored_x);    opt->stored_x = NULL;
+
     if (opt->store_grad == 1){
         opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
     }
-- 
2.43.0


From 0aeff60b5892342b0c04df2c64e74ae3a7aec772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:27 +0000
Subject: [PATCH 10/68] fix: allow the low-memory optimizer to remember a
 single step

---
 c3/lib_optimization/optimization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index d66285d..b83aa7a 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2405,7 +2405,7 @@ void c3opt_lbfgs_list_insert(struct c3opt_lbfgs_list * list, size_t iter,
     }
     else{//(list->size == 0){
         new->next = NULL;
-        new->prev = NULL;
+        new->prev = (list->m == 1) ? new : NULL; // a list of one is full already
         list->size = 1;
     }
     
-- 
2.43.0


From c8616c9197e990063cb14f0c202fc3415a10c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:49 +0000
Subject: [PATCH 11/68] fix: ignore steps without curvature in the low-memory
 optimizer

---
 c3/lib_optimization/optimization.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index b83aa7a..e80463f 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2587,12 +2587,14 @@ void lbfgs_hg(size_t iter, size_t m, size_t dx, double hoscale, int scale,
             }
         }
         assert (kk == jj); // just to make sure
-        alpha[ii] = 1.0/rhoinv * cblas_ddot(dx,s,1,q,1);
-        cblas_daxpy(dx,-alpha[ii],y,1,q,1);
+        if (fabs(rhoinv) > 1e-16){ // no curvature information otherwise
+            alpha[ii] = 1.0/rhoinv * cblas_ddot(dx,s,1,q,1);
+            cblas_daxpy(dx,-alpha[ii],y,1,q,1);
+        }
     }
 
     for (size_t zz = 0; zz < dx; zz++){
-        if ((den_start > 1e-15) && (scale == 1)){
+        if ((den_start > 1e-15) && (fabs(num_start) > 1e-16) && (scale == 1)){
             q[zz] *= hoscale*num_start/den_start;
         }
         else{
@@ -2606,8 +2608,10 @@ void lbfgs_hg(size_t iter, size_t m, size_t dx, double hoscale, int scale,
         
         c3opt_lbfgs_list_step_back(list,&kk,&s,&y,&rhoinv); // oldest to newest
         
-        beta = 1.0/rhoinv * cblas_ddot(dx,y,1,q,1);
-        cblas_daxpy(dx,(alpha[ii]-beta),s,1,q,1);
+        if (fabs(rhoinv) > 1e-16){
+            beta = 1.0/rhoinv * cblas_ddot(dx,y,1,q,1);
+            cblas_daxpy(dx,(alpha[ii]-beta),s,1,q,1);
+        }
     }
 }
 
-- 
2.43.0


From d13d69089a18dea75a2977c6792a2dfa023aeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:04 +0000
Subject: [PATCH 12/68] fix: follow the gradient when the low-memory optimizer
 has no descent direction

---
 c3/lib_optimization/optimization.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index e80463f..bec1706 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2690,6 +2690,11 @@ int c3_opt_lbfgs(struct c3Opt * opt,
     while (converged == 0){
         
         memmove(workspace,x,d*sizeof(double));
+        // use the gradient if the search direction is not one of descent
+        if (!(cblas_ddot(d,grad,1,workspace+d,1) <= 1e-15)){
+            for (size_t ii = 0; ii < d; ii++){ workspace[d+ii] = -grad[ii];}
+        }
+
         fvaltemp = *fval;
         if (alg == BACKTRACK){
             c3opt_ls_box(opt,workspace,fvaltemp,grad,workspace+d,
-- 
2.43.0


From f0eb35f51688acb4c2ce1feb98304b4576709d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 13/68] fix: release the points of an indexed fiber evaluation

---
 c3/lib_funcs/fwrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index da00cdb..4fc57eb 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -497,6 +497,7 @@ int fwrap_eval_fiber(size_t nevals, const void * x, double * out, void * fwin)
         for (size_t ii = 0; ii < nevals; ii++){
             out[ii] = fw->intf(xeval + ii*fw->d,fw->fargs);
         }
+        free(xeval);
     }
     else{
         const double * xin = x;
-- 
2.43.0


From 4642a38c0aaa7be9d64d259cc1b2facc69cba65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 14/68] fix: initialise all fields of a function wrapper

---
 c3/lib_funcs/fwrap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index 4fc57eb..804b038 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -121,7 +121,15 @@ struct Fwrap * fwrap_create(size_t dim, const char * type)
 
     fw->interface = 0;
     fw->d = dim;
+    fw->f = NULL;
+    fw->fvec = NULL;
+    fw->intf = NULL;
+    fw->fargs = NULL;
+    fw->mofvec = NULL;
     fw->evalfunc = 0;
+    fw->nfuncs = 0;
+    fw->arrfuncs = NULL;
+    fw->farrargs = NULL;
     fw->fiber_approx = 0;
     fw->fiber_dim = 0;
     fw->nfibers = 0;
-- 
2.43.0


From 47ab205760346dc16da867b97279db3e9a71bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:53 +0000
Subject: [PATCH 15/68] fix: stop an approximation whose function reports a
 failure

---
 c3/lib_funcs/constelm.c      |  6 +++++-
 c3/lib_funcs/linelm.c        | 32 +++++++++++++++++++++++++-------
 c3/lib_funcs/piecewisepoly.c | 15 ++++++++++++---
 c3/lib_funcs/polynomials.c   | 21 ++++++++++++++++++---
 4 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 3a31952..938a591 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -1304,7 +1304,11 @@ const_elem_exp_approx(struct ConstElemExpAopts * opts, struct Fwrap * f)
 
         // copy nodes from options
         memmove(lexp->nodes,opts->nodes,N*sizeof(double));
-        fwrap_eval(N,lexp->nodes,lexp->coeff,f);
+        int return_val = fwrap_eval(N,lexp->nodes,lexp->coeff,f);
+        if (return_val != 0){
+            fprintf(stderr,"Error evaluating function for constant elements\n");
+            exit(1);
+        }
 
     }
     else{
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 746fb23..eab3e3c 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1900,6 +1900,24 @@ void lin_elem_xy_free(struct LinElemXY * xy)
     }
 }
 
+/********************************************************//**
+    Evaluate a wrapped function and stop if it reports a failure
+
+    \param[in]     N   - number of evaluations
+    \param[in]     x   - locations
+    \param[in,out] out - values
+    \param[in]     f   - function
+*************************************************************/
+static void lin_elem_eval_func(size_t N, const double * x, double * out,
+                               struct Fwrap * f)
+{
+    int return_val = fwrap_eval(N,x,out,f);
+    if (return_val != 0){
+        fprintf(stderr,"Error evaluating function for linear elements\n");
+        exit(1);
+    }
+}
+
 /********************************************************//**
     Recursively partition
 
@@ -1929,7 +1947,7 @@ void lin_elem_adapt(struct Fwrap * f,
     else{
         double mid = (xl+xr)/2.0;
         double fmid;
-        fwrap_eval(1,&mid,&fmid,f);
+        lin_elem_eval_func(1,&mid,&fmid,f);
         /* printf("xl = %3.15G, xr = %3.15G, fl = %3.15G, fr = %3.15G, fmid = %3.15G\n", xl, xr, fl, fr, fmid); */
         /* printf("adapt! diff=%3.15G, delta=%3.15G\n", (fl+fr)/2.0-fmid, delta); */
         if (fabs( (fl+fr)/2.0 - fmid  )/fabs(fmid) < delta){
@@ -1988,7 +2006,7 @@ lin_elem_exp_approx(struct LinElemExpAopts * opts, struct Fwrap * f)
         // evaluate the function
         /* printf("evaluate points\n"); */
         /* dprint(N,lexp->nodes); */
-        fwrap_eval(N,lexp->nodes,lexp->coeff,f);
+        lin_elem_eval_func(N,lexp->nodes,lexp->coeff,f);
 
         if (fabs(lexp->nodes[0] - opts->nodes[0]) > 1e-15){
             fprintf(stderr, "In lin_elem_exp_approx\n");
@@ -2008,8 +2026,8 @@ lin_elem_exp_approx(struct LinElemExpAopts * opts, struct Fwrap * f)
             double xl = opts->lb;
             double xr = opts->ub;
             double fl,fr;
-            fwrap_eval(1,&xl,&fl,f);
-            fwrap_eval(1,&xr,&fr,f);
+            lin_elem_eval_func(1,&xl,&fl,f);
+            lin_elem_eval_func(1,&xr,&fr,f);
             
             lin_elem_adapt(f,xl,fl,xr,fr,opts->delta,opts->hmin,&xy);
             lexp->num_nodes = lin_elem_xy_length(xy);
@@ -2030,8 +2048,8 @@ lin_elem_exp_approx(struct LinElemExpAopts * opts, struct Fwrap * f)
             double xr = opts->nodes[1];
 
             double fl,fr;
-            fwrap_eval(1,&xl,&fl,f);
-            fwrap_eval(1,&xr,&fr,f);
+            lin_elem_eval_func(1,&xl,&fl,f);
+            lin_elem_eval_func(1,&xr,&fr,f);
             
             lin_elem_adapt(f,xl,fl,xr,fr,opts->delta,opts->hmin,&xy);
             for (size_t ii = 2; ii < opts->num_nodes; ii++){
@@ -2040,7 +2058,7 @@ lin_elem_exp_approx(struct LinElemExpAopts * opts, struct Fwrap * f)
                 fl = fr;
                 
                 xr = opts->nodes[ii];
-                fwrap_eval(1,&xr,&fr,f);
+                lin_elem_eval_func(1,&xr,&fr,f);
 
                 /* printf("(xl,fl,xr,fr)=(%G,%G,%G,%G)\n",xl,fl,xr,fr); */
                 struct LinElemXY * temp = NULL;
diff --git a/c3/lib_funcs/piecewisepoly.c b/c3/lib_funcs/piecewisepoly.c
index 48d03bd..c2715a7 100755
--- a/c3/lib_funcs/piecewisepoly.c
+++ b/c3/lib_funcs/piecewisepoly.c
@@ -2380,7 +2380,10 @@ piecewise_poly_approx1(struct PwPolyOpts * aopts,
         poly->leaf = 1;
         poly->nbranches = 0;
         poly->ope = orth_poly_expansion_init(aopts->ptype, N, aopts->lb, aopts->ub);
-        orth_poly_expansion_approx_vec(poly->ope,fw,aopts->opeopts);
+        if (orth_poly_expansion_approx_vec(poly->ope,fw,aopts->opeopts) != 0){
+            fprintf(stderr,"Error evaluating function for piecewise polynomial approximation\n");
+            exit(1);
+        }
         orth_poly_expansion_round(&(poly->ope));
     }
     else{
@@ -2418,7 +2421,10 @@ piecewise_poly_approx1(struct PwPolyOpts * aopts,
             if (aopts->opeopts == NULL){
                 poly->branches[ii]->ope = 
                     orth_poly_expansion_init(aopts->ptype, N, clb, cub);
-                orth_poly_expansion_approx_vec(poly->branches[ii]->ope,fw,aopts->opeopts);
+                if (orth_poly_expansion_approx_vec(poly->branches[ii]->ope,fw,aopts->opeopts) != 0){
+                    fprintf(stderr,"Error evaluating function for piecewise polynomial approximation\n");
+                    exit(1);
+                }
             }
             else{
                 ope_opts_set_lb(aopts->opeopts,clb);
@@ -2534,7 +2540,10 @@ piecewise_poly_approx1_adapt(struct PwPolyOpts * aopts,
     poly->leaf = 1;
     poly->nbranches = 0;
     poly->ope = orth_poly_expansion_init(aopts->ptype,N,aopts->lb,aopts->ub);
-    orth_poly_expansion_approx_vec(poly->ope,fw,aopts->opeopts);
+    if (orth_poly_expansion_approx_vec(poly->ope,fw,aopts->opeopts) != 0){
+        fprintf(stderr,"Error evaluating function for piecewise polynomial approximation\n");
+        exit(1);
+    }
     orth_poly_expansion_round(&(poly->ope));
     /* poly->ope = orth_poly_expansion_approx_adapt(aopts->opeopts,fw); */
 
diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 2808cbb..831d6a3 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3909,6 +3909,21 @@ orth_poly_expansion_approx_vec(struct OrthPolyExpansion * poly,
     return return_val;
 }
 
+/********************************************************//**
+*   Approximate a function as above, and stop if it cannot be evaluated
+*************************************************************/
+static void
+orth_poly_expansion_approx_or_stop(struct OrthPolyExpansion * poly,
+                                   struct Fwrap * fw,
+                                   const struct OpeOpts * aopts)
+{
+    int return_val = orth_poly_expansion_approx_vec(poly,fw,aopts);
+    if (return_val != 0){
+        fprintf(stderr,"Error evaluating function for polynomial approximation\n");
+        exit(1);
+    }
+}
+
 /********************************************************//**
 *   Create an approximation adaptively
 *
@@ -3931,7 +3946,7 @@ orth_poly_expansion_approx_adapt(const struct OpeOpts * aopts,
 
         size_t N = ope_opts_get_start(aopts);
         struct OrthPolyExpansion * poly = orth_poly_expansion_init_from_opts(aopts, N);
-        orth_poly_expansion_approx_vec(poly, fw, NULL);
+        orth_poly_expansion_approx_or_stop(poly, fw, NULL);
 
         return poly;
         /* fprintf(stderr, "Cannot perform approx_adapt with fourier basis\n"); */
@@ -3942,7 +3957,7 @@ orth_poly_expansion_approx_adapt(const struct OpeOpts * aopts,
     size_t N = aopts->start_num;
     struct OrthPolyExpansion * poly = NULL;
     poly = orth_poly_expansion_init_from_opts(aopts,N);
-    orth_poly_expansion_approx_vec(poly,fw,aopts);
+    orth_poly_expansion_approx_or_stop(poly,fw,aopts);
 
     size_t coeffs_too_big = 0;
     for (ii = 0; ii < aopts->coeffs_check; ii++){
@@ -3973,7 +3988,7 @@ orth_poly_expansion_approx_adapt(const struct OpeOpts * aopts,
         poly->nalloc = N + OPECALLOC;
         poly->coeff = calloc_double(poly->nalloc);
 //        printf("Number of coefficients to check = %zu\n",aopts->coeffs_check);
-        orth_poly_expansion_approx_vec(poly,fw,aopts);
+        orth_poly_expansion_approx_or_stop(poly,fw,aopts);
 	    double sum_coeff_squared = 0.0;
         for (ii = 0; ii < N; ii++){ 
             sum_coeff_squared += pow(poly->coeff[ii],2); 
-- 
2.43.0


From 8bba9f5a5b99bdc31df82d41d34430e0e855ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:25 +0000
Subject: [PATCH 16/68] fix: set the bounds of constant element options

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 938a591..1ccf1fe 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -110,7 +110,7 @@ struct ConstElemExpAopts * const_elem_exp_aopts_alloc(size_t N, double * x)
     aopts->node_alloc = 0;
     aopts->nodes = x;
     aopts->lb = x[0];
-    aopts->lb = x[N-1];
+    aopts->ub = x[N-1];
         
     aopts->adapt = 0;
     aopts->delta = DBL_MAX;
-- 
2.43.0


From baf7aefec31634e387a8ed9dbbe01a0568a93068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:44 +0000
Subject: [PATCH 17/68] fix: provide enough default starting nodes for
 heterogeneous ranks

---
 c3/lib_interface/approximate.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c3/lib_interface/approximate.c b/c3/lib_interface/approximate.c
index 825ce9a..7ca8d83 100644
--- a/c3/lib_interface/approximate.c
+++ b/c3/lib_interface/approximate.c
@@ -317,12 +317,12 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
         for (size_t ii = 0; ii < c3a->dim; ii++){
             double lb = multi_approx_opts_get_dim_lb(c3a->fapp, ii);
             double ub = multi_approx_opts_get_dim_ub(c3a->fapp, ii);
-			if (ii == 0) {
-				start[ii] = linspace(lb, ub, init_ranks[1]);
-			}
-			else {
-				start[ii] = linspace(lb, ub, init_ranks[ii]);
-			}
+            // the left and right index sets use the ranks on both sides
+            size_t nstart = init_ranks[ii];
+            if (init_ranks[ii+1] > nstart){
+                nstart = init_ranks[ii+1];
+            }
+            start[ii] = linspace(lb, ub, nstart);
         }
     }
     
-- 
2.43.0


From 36d46a720870310ee2f84462ea13b48b900e9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 18/68] fix: release the previous index sets when cross
 approximation is set up again

---
 c3/lib_interface/approximate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_interface/approximate.c b/c3/lib_interface/approximate.c
index 7ca8d83..36daec0 100644
--- a/c3/lib_interface/approximate.c
+++ b/c3/lib_interface/approximate.c
@@ -249,6 +249,10 @@ void c3approx_init_cross(struct C3Approx * c3a, size_t init_rank, int verbose,
         fprintf(stdout,"Initializing cross approximation and\n");
         fprintf(stdout," destroying previous options\n");
         ft_cross_args_free(c3a->fca); c3a->fca = NULL;
+        for (size_t ii = 0; ii < c3a->dim; ii++){
+            cross_index_free(c3a->isl[ii]); c3a->isl[ii] = NULL;
+            cross_index_free(c3a->isr[ii]); c3a->isr[ii] = NULL;
+        }
     }
 
     double ** start = NULL;
@@ -306,6 +310,10 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
         fprintf(stdout,"Initializing cross approximation and\n");
         fprintf(stdout," destroying previous options\n");
         ft_cross_args_free(c3a->fca); c3a->fca = NULL;
+        for (size_t ii = 0; ii < c3a->dim; ii++){
+            cross_index_free(c3a->isl[ii]); c3a->isl[ii] = NULL;
+            cross_index_free(c3a->isr[ii]); c3a->isr[ii] = NULL;
+        }
     }
 
     double ** start = NULL;
-- 
2.43.0


From 9761f7fa385d9de8ff4b206821b4f8e7a1538556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:01 +0000
Subject: [PATCH 19/68] fix: evaluate the gradient of a one-dimensional
 function train

---
 c3/lib_clinalg/ft.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b693bf6..03dbe29 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4297,6 +4297,16 @@ void function_train_gradient_eval(const struct FunctionTrain * ft,
         onuni++;
     }
     
+    if (dim == 1){
+        out[0] = grads_lr[0];
+        free(evals_lr); evals_lr = NULL;
+        free(evals_rl); evals_rl = NULL;
+        free(grads_lr); grads_lr = NULL;
+        free(evals);    evals = NULL;
+        free(grads);    grads = NULL;
+        return;
+    }
+
     for (kk = 1; kk < dim; kk++){
         for (size_t col = 0; col < ranks[kk+1]; col++){
             evals_lr[indmem+ranks[kk]+col] = 0.0;
-- 
2.43.0


From 78eb724bee5a184bf8a34c6ce125db9df25105c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:01 +0000
Subject: [PATCH 20/68] fix: perturbed evaluation of a one-dimensional function
 train

---
 c3/lib_clinalg/ft.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 03dbe29..6478476 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1347,7 +1347,11 @@ double function_train_eval_co_perturb(struct FunctionTrain * ft,
         generic_function_1darray_eval2(
             ft->cores[ii]->nrows * ft->cores[ii]->ncols,
             ft->cores[ii]->funcs, pert[2*ii+1], t2);
-        if (ii == 0){
+        if (dim == 1){
+            vals[0] = t1[0];
+            vals[1] = t2[0];
+        }
+        else if (ii == 0){
             vals[ii] = cblas_ddot(ft->ranks[1],t1,1,bprod[1],1);
             vals[ii+1] = cblas_ddot(ft->ranks[1],t2,1,bprod[1],1);
         }
@@ -1501,7 +1505,11 @@ double function_train_eval_co_perturb_ind(struct FunctionTrain * ft,
         generic_function_1darray_eval2_ind(
             ft->cores[ii]->nrows * ft->cores[ii]->ncols,
             ft->cores[ii]->funcs, pert[2*ii+1], t2);
-        if (ii == 0){
+        if (dim == 1){
+            vals[0] = t1[0];
+            vals[1] = t2[0];
+        }
+        else if (ii == 0){
             vals[ii] = cblas_ddot(ft->ranks[1],t1,1,bprod[1],1);
             vals[ii+1] = cblas_ddot(ft->ranks[1],t2,1,bprod[1],1);
         }
-- 
2.43.0


From 9b5a68f81b7491aedd20174335ead0b0403d6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:27 +0000
Subject: [PATCH 21/68] fix: add one-dimensional function trains

---
 c3/lib_clinalg/ft.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 6478476..7c18fc7 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2868,6 +2868,15 @@ function_train_sum(const struct FunctionTrain * a,
                    const struct FunctionTrain * b)
 {
     struct FunctionTrain * ft = function_train_alloc(a->dim);
+
+    if (a->dim == 1){
+        ft->cores[0] = qmarray_alloc(1,1);
+        ft->cores[0]->funcs[0] = generic_function_daxpby(1.0,a->cores[0]->funcs[0],
+                                                         1.0,b->cores[0]->funcs[0]);
+        ft->ranks[0] = 1;
+        ft->ranks[1] = 1;
+        return ft;
+    }
     
     // first core
     ft->cores[0] = qmarray_stackh(a->cores[0], b->cores[0]);
-- 
2.43.0


From 30537f02cf260b5228dc2b02e21e26aa988e8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:27 +0000
Subject: [PATCH 22/68] fix: orthogonalize and round one-dimensional function
 trains

---
 c3/lib_clinalg/ft.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 7c18fc7..23a1bdd 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2548,6 +2548,10 @@ struct FunctionTrain *
 function_train_orthor(struct FunctionTrain * a, 
                       struct MultiApproxOpts * aopts)
 {
+    if (a->dim == 1){ // no interior cores to orthogonalize
+        return function_train_copy(a);
+    }
+
     struct OneApproxOpts * o = NULL;
     //printf("orthor\n");
     //right left sweep
@@ -2605,6 +2609,9 @@ function_train_round(struct FunctionTrain * ain, double epsilon,
     if (normain < ZEROTHRESH){
         return function_train_constant(0.0, aopts);
     }
+    if (ain->dim == 1){ // no ranks to reduce
+        return function_train_copy(ain);
+    }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
 //    size_t ii;
@@ -2706,6 +2713,9 @@ function_train_round_maxrank_all(struct FunctionTrain * ain, double epsilon,
     if (normain < ZEROTHRESH){
         return function_train_constant(0.0, aopts);
     }
+    if (ain->dim == 1){ // no ranks to reduce
+        return function_train_copy(ain);
+    }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
 //    size_t ii;
-- 
2.43.0


From dd603d3de0c3bc3282700840ee493266b9648eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:27 +0000
Subject: [PATCH 23/68] fix: set the trailing rank of one-dimensional linear
 and aligned quadratic function trains

---
 c3/lib_clinalg/ft.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 23a1bdd..fecf6f5 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1791,6 +1791,7 @@ function_train_linear(const double * c, size_t ldc,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
@@ -2071,6 +2072,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
-- 
2.43.0


From 8e9d1b3fad0ba3746a0cb13cc6ef6159dbd1f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:27 +0000
Subject: [PATCH 24/68] fix: use the last dimension's options in aligned
 quadratic function trains

---
 c3/lib_clinalg/ft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index fecf6f5..d9bcf86 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2109,6 +2109,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
 
         onDim = dim-1;
 
+        o = multi_approx_opts_get_aopts(aopts,onDim);
         ft->ranks[onDim] = 2;
         ft->ranks[onDim+1] = 1;
         ft->cores[onDim] = qmarray_alloc(2,1);
-- 
2.43.0


From 052403f9b7c063c3fbb0b2a57dde82047ba2e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:43 +0000
Subject: [PATCH 25/68] fix: keep a one-dimensional sum function train within
 its single core

---
 c3/lib_clinalg/ft.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index d9bcf86..b270082 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1638,6 +1638,7 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
@@ -1645,10 +1646,10 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
 
     ft->cores[onDim]->funcs[0] = 
         generic_function_approximate1d(aopt->fc,aopt->aopts,fw);
-    ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
-                                                           aopt->aopts);
 
     if (dim > 1){
+        ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
+                                                               aopt->aopts);
         for (onDim = 1; onDim < dim-1; onDim++){
 
             fwrap_set_which_eval(fw,onDim);
-- 
2.43.0


From 681cbb20997171942138a8e940178af6700460f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:43 +0000
Subject: [PATCH 26/68] fix: apply beta once in c3vgemv_arr

---
 c3/lib_clinalg/ft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b270082..a3a3c5d 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4842,8 +4842,8 @@ void c3vgemv_arr(int trans, size_t m, size_t n, double alpha, double * A,
 {
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
-        
+
+    // c3vaxpy_arr scales y by beta
     if (trans == 0){
         for (ii = 0; ii < m; ii++){
             c3vaxpy_arr(n,alpha,B,incb,A+ii,lda,beta,&((*y)->ft[ii*incy]),epsilon, opts);
-- 
2.43.0


From 2e3a818ceb66dd808afbf34eb8848e3852fbc737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:43 +0000
Subject: [PATCH 27/68] fix: accumulate c3vgemv into its output

---
 c3/lib_clinalg/ft.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index a3a3c5d..3008470 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4812,17 +4812,12 @@ void c3vgemv(size_t m, size_t n, double alpha, struct FT1DArray * A, size_t lda,
 
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
-    
-    struct FT1DArray * run = ft1d_array_alloc(m);
+
     for (ii = 0; ii < m; ii++){
         struct FT1DArray ftatemp;
         ftatemp.ft = A->ft+ii;
-        c3vprodsum(n,1.0,&ftatemp,lda,x,incx,0.0,&(run->ft[ii*incy]),epsilon, opts);
+        c3vprodsum(n,alpha,&ftatemp,lda,x,incx,beta,&((*y)->ft[ii*incy]),epsilon, opts);
     }
-    c3vaxpy(m,alpha,run,1,y,incy,epsilon, opts);
-
-    ft1d_array_free(run); run = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From bf5d36e7bd53eaf20d91b04e3ec4ec42204112c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:43 +0000
Subject: [PATCH 28/68] fix: check the number of contracted dimensions before
 reading the next one

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 3008470..f408e41 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2293,7 +2293,7 @@ function_train_integrate_weighted_subset(
     size_t on_contract = 0;
     size_t ii = 0;
     
-    while ((dims_contract[on_contract] == ii ) && (on_contract < ndim_contract)){
+    while ((on_contract < ndim_contract) && (dims_contract[on_contract] == ii )){
         double * mat = qmarray_integrate_weighted(ft->cores[ii]);
 
         if (left_mult == NULL){
-- 
2.43.0


From a3643e2b469a19e077b6ee82d1dffef0ea937a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:56 +0000
Subject: [PATCH 29/68] fix: return the result of c3gemv to the caller

---
 c3/lib_clinalg/ft.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index f408e41..4307419 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4675,8 +4675,8 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
 
     size_t ii;
     assert (y != NULL);
-    function_train_scale(y,beta);
-    
+    struct FunctionTrain * ynew = function_train_copy(y);
+    function_train_scale(ynew,beta);
 
     if (epsilon > 0){
         struct FunctionTrain * runinit = function_train_product(A->ft[0],x);
@@ -4689,7 +4689,7 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             function_train_free(temp); temp = NULL;
             function_train_free(tempround); tempround = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&ynew,epsilon,opts);
         function_train_free(run); run = NULL;
         function_train_free(runinit); runinit = NULL;
     }
@@ -4701,10 +4701,15 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             c3axpy(1.0,temp,&run,epsilon,opts);
             function_train_free(temp); temp = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&ynew,epsilon,opts);
         function_train_free(run); run = NULL;
     }
-       
+
+    // hand the result back in the caller's function train
+    struct FunctionTrain old = *y;
+    *y = *ynew;
+    *ynew = old;
+    function_train_free(ynew); ynew = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From 630094353c36ddb6185ee6ae656473f92f67b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 30/68] fix: evaluate arrays of more than 1000 polynomials
 without overrunning the stack

---
 c3/lib_funcs/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index 5a73e3a..f63d103 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -1533,7 +1533,7 @@ generic_function_1darray_eval2(size_t n,
     int allpoly = 1;
     struct OrthPolyExpansion * parr[1000];
     for (size_t ii = 0; ii < n; ii++){
-        if (f[ii]->fc != POLYNOMIAL){
+        if ((ii >= 1000) || (f[ii]->fc != POLYNOMIAL)){
             allpoly = 0;
             break;
         }
@@ -1580,7 +1580,7 @@ generic_function_1darray_eval2N(size_t n,
     int allpoly = 1;
     struct OrthPolyExpansion * parr[1000];
     for (size_t ii = 0; ii < n; ii++){
-        if (f[ii]->fc != POLYNOMIAL){
+        if ((ii >= 1000) || (f[ii]->fc != POLYNOMIAL)){
             allpoly = 0;
             break;
         }
-- 
2.43.0


From 19783ae73aae941aa714439fc644a46830200f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:57 +0000
Subject: [PATCH 31/68] fix: gradient of a one-dimensional function train with
 respect to its parameters

---
 c3/lib_superlearn/parameterization.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index 9b9cff7..aeb09a3 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -996,7 +996,8 @@ double ft_param_gradeval_lin(struct FTparam * ftp, const double * grad_evals,
     onparam = onparam - ftp->nparams_per_core[backind];
 
     for (size_t ii = 0; ii < r2; ii++){
-        double right_mult = mem[indmem + r1 + ii];
+        // with a single core there is nothing to its right
+        double right_mult = (ftp->dim > 1) ? mem[indmem + r1 + ii] : 1.0;
         for (size_t ll = 0; ll < ftp->nparams_per_uni[onuni]; ll++){
             grad[onparam] =  grad_evals[onparam]*right_mult;
             onparam++;
@@ -1154,7 +1155,8 @@ double ft_param_gradeval(struct FTparam * ftp, const double * x,
     onparam = onparam - ftp->nparams_per_core[backind];
 
     for (size_t ii = 0; ii < r2; ii++){
-        double right_mult = mem[indmem + r1 + ii];
+        // with a single core there is nothing to its right
+        double right_mult = (ftp->dim > 1) ? mem[indmem + r1 + ii] : 1.0;
         for (size_t ll = 0; ll < ftp->nparams_per_uni[onuni]; ll++){
             grad[onparam] =  grad_evals[onparam]*right_mult;
             onparam++;
-- 
2.43.0


From e5456e724d580cfad2bcb3430667f90f57cb3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 32/68] fix: parameter gradient of piecewise constant functions

---
 c3/lib_funcs/constelm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 1ccf1fe..df9ec31 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -753,7 +753,7 @@ int const_elem_exp_param_grad_eval(
             grad[ii*nparam+jj] = 0.0;
         }
 
-        for (size_t jj = indmin+2; jj < nparam; jj++)
+        for (size_t jj = indmin+1; jj < nparam; jj++)
         {
             grad[ii*nparam+jj] = 0.0;
         }
@@ -787,14 +787,14 @@ double const_elem_exp_param_grad_eval2(
         grad[jj] = 0.0;
     }
 
-    for (size_t jj = indmin+2; jj < nparam; jj++)
+    for (size_t jj = indmin+1; jj < nparam; jj++)
     {
         grad[jj] = 0.0;
     }
 
     grad[indmin] = 1.0;
 
-    return f->nodes[indmin];
+    return f->coeff[indmin];
 }
 
 /********************************************************//**
-- 
2.43.0


From 1890c49fed849dcf4ecc7ca7d2b9782d024f61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:07 +0000
Subject: [PATCH 33/68] fix: parameter gradient of the squared norm of
 piecewise linear functions

---
 c3/lib_funcs/linelm.c | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index eab3e3c..7b4d4bb 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1085,27 +1085,13 @@ lin_elem_exp_squared_norm_param_grad(const struct LinElemExp * f,
         return 0;
     }
 
-    double dx = f->nodes[1]-f->nodes[0];
-    double term1 = ((f->coeff[0]-1.0)/3.0 + f->coeff[1]/2.0) * dx;
-    grad[0] += 2.0 * scale * term1;
-    double dx2,df;
-    for (size_t ii = 1; ii < f->num_nodes-1; ii++){
-        // left side of ii
-        df = f->coeff[ii] - f->coeff[ii-1];
-        grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
-        // right side
-        dx2 = dx * dx;
-        term1 = ((f->coeff[ii]-1.0)/3.0 + f->coeff[ii+1]/2.0) * dx;
-        grad[ii] += 2.0 * scale * term1;
-        
-        dx = dx2;
+    // derivative of the nodal quadrature lin_elem_exp_inner uses for the norm
+    size_t n = f->num_nodes;
+    grad[0] += scale * f->coeff[0] * (f->nodes[1] - f->nodes[0]);
+    for (size_t ii = 1; ii < n-1; ii++){
+        grad[ii] += scale * f->coeff[ii] * (f->nodes[ii+1] - f->nodes[ii-1]);
     }
-
-    // left side of last node node
-    size_t ii = f->num_nodes-1;
-    df = f->coeff[ii] - f->coeff[ii-1];
-    grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
+    grad[n-1] += scale * f->coeff[n-1] * (f->nodes[n-1] - f->nodes[n-2]);
 
     return 0;
 }
-- 
2.43.0


From 4cd4ef005efd96e7441f8e2c6704bfad4ae6ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:33 +0000
Subject: [PATCH 34/68] fix: alternating regression overran the array of stored
 objective values

---
 c3/lib_superlearn/regress.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 6c547d8..2a86e0a 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -507,6 +507,23 @@ c3_regression_run_aio(struct FTparam * ftp, struct RegressOpts * ropts,
 }
 
 
+// Append the objective values stored by the optimizer, whose number need not be
+// bounded by its maximum number of iterations
+static double * append_stored_fvals(double * fvals, size_t * n, struct c3Opt * optimizer)
+{
+    size_t niters = c3opt_get_niters(optimizer);
+    double * out = realloc(fvals, (*n + niters + 1) * sizeof(double));
+    if (out == NULL){
+        fprintf(stderr,"Failure to allocate memory for stored objective values\n");
+        exit(1);
+    }
+    for (size_t zz = 0; zz < niters; zz++){
+        out[*n] = c3opt_get_stored_function(optimizer, zz);
+        *n = *n + 1;
+    }
+    return out;
+}
+
 /***********************************************************//**
     Run als regression and return the result
 
@@ -547,7 +564,7 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
     double * stored_fvals = NULL;
     size_t nepochs = 0;
     if (c3opt_get_store_func(optimizer) == 1){
-        stored_fvals = calloc_double(2 * ropts->max_als_sweeps * ftp->dim * c3opt_get_maxiter(optimizer));
+        stored_fvals = calloc_double(1); // grows with every core optimization
     }
     
     size_t maxrank = function_train_get_maxrank(ftp->ft);
@@ -608,10 +625,7 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
             /* assert (res == 0); */
             double val = slp_get_minimum(&slp);
             if (stored_fvals != NULL){
-                for (size_t zz = 0; zz < c3opt_get_niters(optimizer); zz++){
-                    stored_fvals[nepochs] = c3opt_get_stored_function(optimizer, zz);
-                    nepochs++;
-                }
+                stored_fvals = append_stored_fvals(stored_fvals, &nepochs, optimizer);
             }
             
             if (ropts->verbose > 0){
@@ -687,10 +701,7 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
             /* assert (res == 0); */
             double val = slp_get_minimum(&slp);
             if (stored_fvals != NULL){
-                for (size_t zz = 0; zz < c3opt_get_niters(optimizer); zz++){
-                    stored_fvals[nepochs] = c3opt_get_stored_function(optimizer, zz);
-                    nepochs++;
-                }
+                stored_fvals = append_stored_fvals(stored_fvals, &nepochs, optimizer);
             }
 
 
-- 
2.43.0


From 633f26b0bf8de91336b7c1cd6f265d0ae79a43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:09 +0000
Subject: [PATCH 35/68] fix: release stored objective values of an earlier
 regression

---
 c3/lib_superlearn/learning_options.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_superlearn/learning_options.c b/c3/lib_superlearn/learning_options.c
index b8d91b6..50abbfe 100644
--- a/c3/lib_superlearn/learning_options.c
+++ b/c3/lib_superlearn/learning_options.c
@@ -256,6 +256,7 @@ void regress_opts_set_restrict_rank(struct RegressOpts * opts, size_t ind, size_
 void regress_opts_add_stored_vals(struct RegressOpts * opts, size_t nepochs, double * fvals)
 {
     assert (opts != NULL);
+    free(opts->stored_fvals);
     opts->nepochs = nepochs;
     opts->stored_fvals = fvals;
 }
-- 
2.43.0


From 8e9b639b969dbe1cc7a56778bf509ad606965164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:45 +0000
Subject: [PATCH 36/68] fix: cross validation uses the weights of the points in
 each training set

---
 c3/lib_superlearn/regress.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 2a86e0a..0f7f800 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -1639,6 +1639,14 @@ double cross_validate_run(struct CrossValidate * cv,
     double * xtest = calloc_double(cv->N * cv->dim);
     double * ytest = calloc_double(cv->N);
 
+    // weights belong to data points, so each fold needs those of its training points
+    const double * weights = reg->regopts->sample_weights;
+    double * wtrain = NULL;
+    if (weights != NULL){
+        wtrain = calloc_double(cv->N);
+        regress_opts_set_sample_weights(reg->regopts,wtrain);
+    }
+
     double erri = 0.0;
     double norm = 0.0;
 
@@ -1658,6 +1666,11 @@ double cross_validate_run(struct CrossValidate * cv,
         
         extract_data(cv, start_num, batch, &xtest, &ytest,
                      &xtrain, &ytrain);
+        if (weights != NULL){
+            memmove(wtrain, weights, start_num * sizeof(double));
+            memmove(wtrain + start_num, weights + start_num + batch,
+                    (cv->N - start_num - batch) * sizeof(double));
+        }
 
         // train with all but *ii*th batch
         /* printf("ytrain = ");dprint(cv->N-batch,ytrain); */
@@ -1704,6 +1717,8 @@ double cross_validate_run(struct CrossValidate * cv,
     }
     err = erri/norm;
     // do last back
+    regress_opts_set_sample_weights(reg->regopts,weights);
+    free(wtrain); wtrain = NULL;
 
     free(xtrain); xtrain = NULL;
     free(ytrain); ytrain = NULL;
-- 
2.43.0


From ae78f57f9a51df1494458c81f8877c7633bd6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 37/68] fix: rank adaptation read past the parameters of
 rounded polynomials

---
 c3/lib_superlearn/regress.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 0f7f800..bb1283c 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -1295,6 +1295,30 @@ ft_regress_run(struct FTRegress * ftr, struct c3Opt * optimizer,
     return ft;
 }
 
+// Set the parameters to those of a function train with the same ranks, whose
+// univariate functions need not have the same number of parameters
+// (rounding shortens polynomial expansions)
+static void ft_param_update_from_ft(struct FTparam * ftp, const struct FunctionTrain * ft)
+{
+    double * params = calloc_double(ftp->nparams);
+    size_t onparam = 0;
+    size_t onuni = 0;
+    for (size_t ii = 0; ii < ftp->dim; ii++){
+        for (size_t jj = 0; jj < ft->ranks[ii] * ft->ranks[ii+1]; jj++){
+            size_t nuni = ftp->nparams_per_uni[onuni];
+            size_t nold = generic_function_get_num_params(ft->cores[ii]->funcs[jj]);
+            double * old = calloc_double(nold);
+            generic_function_get_params(ft->cores[ii]->funcs[jj],old);
+            memmove(params + onparam,old,(nold < nuni ? nold : nuni) * sizeof(double));
+            free(old); old = NULL;
+            onparam += nuni;
+            onuni++;
+        }
+    }
+    ft_param_update_params(ftp,params);
+    free(params); params = NULL;
+}
+
 /***********************************************************//**
     Run regression with rank adaptation and return the result
 
@@ -1446,7 +1470,7 @@ ft_regress_run_rankadapt(struct FTRegress * ftr,
                 iprint_sz(ftr->dim+1,ftr_ranks);
             }
             ft_regress_reset_param(ftr,ftr->ftp->approx_opts,ftr_ranks);
-            ft_param_update_params(ftr->ftp,rounded_params);
+            ft_param_update_from_ft(ftr->ftp,ftround);
             ft = function_train_copy(ftr->ftp->ft);
             function_train_free(ftround); ftround = NULL;
             break;
-- 
2.43.0


From 3e9f25fa2d1616aabd33ace3d39d2a9cda9b98b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 38/68] fix: the standard normal density could not be
 constructed

It asked for a function wrapper type that does not exist and never assigned
its approximation options to the dimensions.
---
 c3/lib_probability/probability.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 92a146c..48e2748 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1065,6 +1065,7 @@ struct ProbabilityDensity * probability_density_standard_normal(size_t dim)
     struct LinElemExpAopts * opts = lin_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,delta,hmin);
     struct OneApproxOpts * qmopts = one_approx_opts_alloc(LINELM,opts);
     struct MultiApproxOpts * fopts = multi_approx_opts_alloc(dim);
+    multi_approx_opts_set_all_same(fopts,qmopts);
     
     /* size_t init_rank = 3; */
     /* double round_tol = 1e-3; */
@@ -1076,7 +1077,7 @@ struct ProbabilityDensity * probability_density_standard_normal(size_t dim)
     /* struct FtApproxArgs * fapp = c3approx_get_approx_args(c3a); */
     
     struct ProbabilityDensity * pdf = probability_density_alloc();
-    struct Fwrap * fw = fwrap_create(1,"MOVEC");
+    struct Fwrap * fw = fwrap_create(1,"mo-vec");
     fwrap_set_mofvec(fw,pdf_stdmvn_helper,&dim);
     
     pdf->pdf = function_train_rankone(fopts,fw);
-- 
2.43.0


From d1e69e3ea0f6095dc4b4dfaabc0b42c31924b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 39/68] fix: Poisson draws had a far too large mean

The remaining exponent was applied repeatedly instead of once.
---
 c3/lib_array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 467d710..a7b69df 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -895,7 +895,7 @@ size_t poisson(double mean)
             }
             else{
                 p = p * exp(lleft);
-                lleft -= 1;
+                lleft = -1;
             }
         }
 
-- 
2.43.0


From 150d5af2c7c441e58f94ec1de8310be52ef919c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 40/68] fix: normal draws after a reseed depended on draws
 before it

---
 c3/lib_array/array.c | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index a7b69df..56089d3 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -842,27 +842,12 @@ double randu(void)
 
 // standard normal
 //kbox-mueller
-static int generate = -1;
+// (no value is kept for the next call so that the draws only depend on
+// the random number stream, in particular after a call to srand)
 double randn(void)
 {
     const double epsilon = pow(2,-32);
     const double two_pi = 2.0*3.14159265358979323846;
-         
-    static double z0, z1;
-    if (generate == 0){
-        generate = 1;
-    }
-    else if (generate == 1){
-        generate = 0;
-    }
-    else if (generate == -1){
-        generate = 1;
-    }
-    //generate = !generate;
-                     
-    if (!generate) {
-        return z1;
-    }
                         
     double u1, u2;
     do
@@ -871,9 +856,7 @@ double randn(void)
         u2 = rand() * (1.0 / RAND_MAX);
     } while ( u1 <= epsilon );
              
-    z0 = sqrt(-2.0 * log(u1)) * cos(two_pi * u2);
-    z1 = sqrt(-2.0 * log(u1)) * sin(two_pi * u2);
-    return z0;
+    return sqrt(-2.0 * log(u1)) * cos(two_pi * u2);
 }
 
 // poisson
-- 
2.43.0


From 2975b602425bee52af829c91a678679c9c7b5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 41/68] fix: a density without a transform could not be saved

---
 c3/lib_probability/probability.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 48e2748..050c03e 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -891,7 +891,10 @@ probability_density_serialize(unsigned char * ser,
     if (totSizeIn != NULL){
         size_t size_pdf, size_lt;
         function_train_serialize(NULL,pdf->pdf,&size_pdf);
-        linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        size_lt = 0;
+        if (pdf->transform != 0){
+            linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        }
         totSize = size_pdf + size_lt + sizeof(int) + sizeof(enum pdf_type);
         *totSizeIn = totSize;
         return ser;
@@ -901,7 +904,9 @@ probability_density_serialize(unsigned char * ser,
     ptr = serialize_int(ptr,pdf->transform);
     ptr = serialize_int(ptr,pdf->type);
     ptr = function_train_serialize(ptr,pdf->pdf,NULL);
-    ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    if (pdf->transform != 0){
+        ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    }
     return ptr;
 }
 
@@ -924,7 +929,9 @@ probability_density_deserialize(unsigned char * ser,
     ptr = deserialize_int(ptr,&ptype);
     (*pdf)->type = (enum pdf_type) ptype;
     ptr = function_train_deserialize(ptr,&((*pdf)->pdf));
-    ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    if ((*pdf)->transform != 0){
+        ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    }
     
     return ptr;
 }
-- 
2.43.0


From 13ce23678dd90b7ca61ff69891568fc355339a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 42/68] fix: copying a linear transform forgot its matrix type

---
 c3/lib_probability/probability.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 050c03e..bceaae9 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -645,8 +645,10 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
 {
     struct LinearTransform * newlt = 
         linear_transform_alloc(lt->dimin, lt->dimout, lt->A, lt->b, lt->det);
+    newlt->mt = lt->mt;
 
     if (lt->Ainv != NULL){
+        newlt->mti = lt->mti;
         newlt->Ainv = calloc_double(lt->dimin*lt->dimout);
         memmove(newlt->Ainv, lt->Ainv, lt->dimin * lt->dimout * sizeof(double));
         newlt->binv = calloc_double(lt->dimin);
-- 
2.43.0


From 645ca5f2bf317d7b5864cdacd9ac516a28f68979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 43/68] fix: sampling a Gaussian without a transform crashed

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index bceaae9..e490ed2 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1165,6 +1165,9 @@ double * probability_density_sample(struct ProbabilityDensity * pdf)
         for (ii = 0; ii < dim; ii++){
             norm[ii] = randn();
         }
+        if (pdf->transform == 0){
+            return norm;
+        }
         out = linear_transform_apply(dim,dim,pdf->lt->A,
                             norm,pdf->lt->b);
         free(norm); norm = NULL;
-- 
2.43.0


From d3c668468f7d8ed21d1e02617eee137c67e1f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 44/68] fix: the Laplace approximation leaked its optimiser and
 bounds

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index e490ed2..47d5e02 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1211,6 +1211,9 @@ probability_density_laplace(double (*f)(size_t,const double *,double*,void *),
     c3opt_set_verbose(opt,0);
     double val;
     int res = c3opt_minimize(opt,mean,&val);
+    c3opt_free(opt); opt = NULL;
+    free(lb); lb = NULL;
+    free(ub); ub = NULL;
     /* printf("res = %d\n",res); */
     if (res <= -1){
         fprintf(stderr, "Failure to Optimize in probability_density_laplace\n");
-- 
2.43.0


From 627243d8e7204a4380198e44559fb7e35e6a1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 45/68] fix: periodic second derivative on grids with an odd
 number of nodes

The wave numbers were half integers when the number of nodes was odd, so that
even a constant had a nonzero second derivative.
---
 c3/lib_clinalg/diffusion.c | 2 +-
 c3/lib_funcs/linelm.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index b38f5d4..fe182f0 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -776,7 +776,7 @@ static double * compute_Lp(size_t nx, const double * nodes)
     }
 
     for (size_t ii = 0; ii < nx; ii++){
-        p[ii] = dp * ii - dp * nx / 2.0;
+        p[ii] = dp * ii - dp * (nx / 2);
     }
 
     for (size_t ll=0; ll<nx; ll++){
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 7b4d4bb..fd8b196 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -888,7 +888,7 @@ void lin_elem_exp_dderiv_initialize_fourier(struct LinElemExp * f)
     }
 
     for (size_t ii = 0; ii < nx; ii++){
-        p[ii] = dp * ii - dp * nx / 2.0;
+        p[ii] = dp * ii - dp * (nx / 2);
     }
 
     for (size_t ll=0; ll<nx; ll++){
-- 
2.43.0


From 4486e879435f070caa62da293110e533130df940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 46/68] fix: free every part of a Laplace operator

destroy_operator_for_laplace lost its arrays after the first dimension and then
used a null pointer.
---
 c3/lib_clinalg/diffusion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index fe182f0..4ee7fff 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -829,8 +829,8 @@ void destroy_operator_for_laplace(struct OperatorForLaplace * op)
 {
     if (op != NULL) {
         for (size_t ii = 0; ii < op->dim; ii++){
-            free(op->op[ii]); op->op = NULL;
-            free(op->opLP[ii]); op->opLP = NULL;
+            free(op->op[ii]); op->op[ii] = NULL;
+            free(op->opLP[ii]); op->opLP[ii] = NULL;
         } 
         free(op->op); op->op = NULL;
         free(op->opLP); op->opLP = NULL;
-- 
2.43.0


From 8303a6ac903d80e33daebdd6644e3b917cf1b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:30 +0000
Subject: [PATCH 47/68] fix: weight of the initial right interface in DMRG
 sweeps

The triangular factor of the previous core was left out when the guess was
projected from the right, so that even an exact guess could be lost.
---
 c3/lib_clinalg/dmrg.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/dmrg.c b/c3/lib_clinalg/dmrg.c
index 6d51366..7ff7ea3 100644
--- a/c3/lib_clinalg/dmrg.c
+++ b/c3/lib_clinalg/dmrg.c
@@ -167,7 +167,11 @@ struct QR * dmrg_super_rprod(struct Qmarray * a, struct Qmarray * b,
                              struct OneApproxOpts * o)
 {
 
-    double * val = qmaqmat_integrate(prev->Q,z);
+    double * qz = qmaqmat_integrate(prev->Q,z);
+    double * val = calloc_double(prev->mr * z->nrows);
+    cblas_dgemm(CblasColMajor,CblasNoTrans,CblasNoTrans,prev->mr,z->nrows,
+                prev->mc,1.0,prev->mat,prev->mr,qz,prev->mc,0.0,val,prev->mr);
+    free(qz); qz = NULL;
     struct Qmarray * temp = qmarray_kron_mat(z->nrows,val,a,b);
     //struct Qmarray * temp = qmam(nextleft,val,z->nrows);
     struct QR * lq = qr_reduced(temp,0,o);
@@ -194,7 +198,11 @@ dmrg_super_r(size_t dim,
              void * args, struct QR * prev, struct Qmarray * z,struct OneApproxOpts *o)
 {
 
-    double * val = qmaqmat_integrate(prev->Q,z);
+    double * qz = qmaqmat_integrate(prev->Q,z);
+    double * val = calloc_double(prev->mr * z->nrows);
+    cblas_dgemm(CblasColMajor,CblasNoTrans,CblasNoTrans,prev->mr,z->nrows,
+                prev->mc,1.0,prev->mat,prev->mr,qz,prev->mc,0.0,val,prev->mr);
+    free(qz); qz = NULL;
 
     struct Qmarray * temp = NULL;
     f('R',dim,z->nrows,val,&temp,args);
-- 
2.43.0


From 303a7a8ef3eda774a790744ac659c22f2fae38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:22 +0000
Subject: [PATCH 48/68] fix: derivative of a piecewise constant at its last
 node uses the function's values

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index df9ec31..3328cf4 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -697,7 +697,7 @@ struct ConstElemExp * const_elem_exp_deriv(const struct ConstElemExp * f)
     for (size_t ii = 1; ii < le->num_nodes-1; ii++){
         le->coeff[ii] = (le->coeff[ii+1] - le->coeff[ii]) / (le->nodes[ii+1] - le->nodes[ii]);
     }
-    le->coeff[le->num_nodes-1] = (le->coeff[le->num_nodes-1] - le->coeff[le->num_nodes-2]) /
+    le->coeff[le->num_nodes-1] = (f->coeff[le->num_nodes-1] - f->coeff[le->num_nodes-2]) /
         (le->nodes[le->num_nodes-1] - le->nodes[le->num_nodes-2]);
 
     return le;
-- 
2.43.0


From 081c176d9ae5d8595647ee977190993b47e53e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:00 +0000
Subject: [PATCH 49/68] fix: gradient of the squared norm of a Chebyshev
 expansion uses its coefficients

---
 c3/lib_funcs/polynomials.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 831d6a3..de49d0d 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3288,10 +3288,10 @@ orth_poly_expansion_squared_norm_param_grad(const struct OrthPolyExpansion * pol
                     n2 = jj-ii;
                 }
                 if (n1 % 2 == 0){
-                    grad[ii] += 2.0*scale*temp[n1/2] * dtransform_dx;
+                    grad[ii] += scale*poly->coeff[jj]*temp[n1/2] / dtransform_dx;
                 }
                 if (n2 % 2 == 0){
-                    grad[ii] += 2.0*scale*temp[n2/2] * dtransform_dx;
+                    grad[ii] += scale*poly->coeff[jj]*temp[n2/2] / dtransform_dx;
                 }
             }
         }
-- 
2.43.0


From 7945abcae68afb0edb81bb5df8161e8efd45739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:41 +0000
Subject: [PATCH 50/68] fix: adaptive linear elements with prescribed zeros
 live on their domain and keep every zero

---
 c3/lib_funcs/linelm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index fd8b196..74b84cf 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -2389,6 +2389,8 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct LinElemExp * le = lin_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -2408,7 +2410,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -2448,7 +2450,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -2473,6 +2475,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
             else{
                 assert (1 == 0);
             }
+            free(sorted_arr); sorted_arr = NULL;
             /* print_lin_elem_exp(le,3,NULL,stdout); */
             return le;
         }
-- 
2.43.0


From 796ae78e2a3281a2b4a4e733391c7bbc236ef03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:24 +0000
Subject: [PATCH 51/68] fix: product of transposed arrays of functions stores
 its entries where they belong

---
 c3/lib_clinalg/qmarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index b6b2d4a..42ec11f 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -958,7 +958,7 @@ qmatqmat(const struct Qmarray * a, const struct Qmarray * b)
     for (jj = 0; jj < b->nrows; jj++){
         for (ii = 0; ii < a->ncols; ii++){
             // c[jj*a->ncols+ii] = a[:,ii]^T b[jj,:]
-            c->funcs[ii*c->nrows+jj] =  generic_function_sum_prod(b->ncols, 1, 
+            c->funcs[jj*c->nrows+ii] =  generic_function_sum_prod(b->ncols, 1, 
                     a->funcs + ii*a->nrows, b->nrows, b->funcs + jj);
         }
     }
@@ -1219,7 +1219,7 @@ qmarray_vec_kron(const double * a,const struct Qmarray * b,const struct Qmarray
     struct Qmarray * temp = qmatm(b,a,c->nrows); // b->ncols * c->ncols
     //printf("got qmatm\n");
     //d = qmaqma(temp,c);
-    d = qmatqmat(c,temp);
+    d = qmaqma(temp,c);
     qmarray_free(temp); temp = NULL;
     return d;
 }
-- 
2.43.0


From e97386a229eb26fc4a9a88571c07723feca8fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:54 +0000
Subject: [PATCH 52/68] fix: rank and LU of a quasimatrix work in the class of
 its functions

---
 c3/lib_clinalg/quasimatrix.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/quasimatrix.c b/c3/lib_clinalg/quasimatrix.c
index 640a7e4..6b4beac 100644
--- a/c3/lib_clinalg/quasimatrix.c
+++ b/c3/lib_clinalg/quasimatrix.c
@@ -736,7 +736,8 @@ int quasimatrix_lu1d(struct Quasimatrix * A,
         
         if (fabs(val) < 2.0 * ZEROTHRESH){
             L->funcs[kk] = 
-                generic_function_constant(1.0,POLYNOMIAL,approxargs);
+                generic_function_constant(1.0,generic_function_get_fc(A->funcs[kk]),
+                                          approxargs);
         }
         else{
             L->funcs[kk] =
@@ -888,7 +889,8 @@ size_t quasimatrix_rank(const struct Quasimatrix * A, void * opts)
     /* double lb = generic_function_get_lower_bound(A->funcs[0]); */
     /* double ub = generic_function_get_upper_bound(A->funcs[0]); */
     
-    struct Quasimatrix * Q = quasimatrix_orth1d(ncols,POLYNOMIAL, opts);
+    enum function_class fc = generic_function_get_fc(A->funcs[0]);
+    struct Quasimatrix * Q = quasimatrix_orth1d(ncols,fc, opts);
 
     struct Quasimatrix * V = quasimatrix_alloc(ncols);
     double * R = calloc_double(rank * rank);
-- 
2.43.0


From 662a89c1531adc3b6aa724aa5aa51554f64ab989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:54 +0000
Subject: [PATCH 53/68] fix: maximum volume of a quasimatrix searches the
 points it was given

---
 c3/lib_clinalg/quasimatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/quasimatrix.c b/c3/lib_clinalg/quasimatrix.c
index 6b4beac..b958996 100644
--- a/c3/lib_clinalg/quasimatrix.c
+++ b/c3/lib_clinalg/quasimatrix.c
@@ -840,7 +840,7 @@ int quasimatrix_maxvol1d(struct Quasimatrix * A,
     struct Quasimatrix * B = qmm(A,Asinv,r);
     size_t maxcol;
     double maxloc, maxval;
-    maxcol = quasimatrix_absmax(B,&maxloc,&maxval,NULL);
+    maxcol = quasimatrix_absmax(B,&maxloc,&maxval,optargs);
 
     while (maxval > (1.0 + delta)){
         //printf("maxval = %3.4f\n", maxval);
@@ -857,7 +857,7 @@ int quasimatrix_maxvol1d(struct Quasimatrix * A,
         dgetri_((int*)&r, Asinv, (int*)&r, ipiv2, work, (int*)&lwork, &info2); 
         quasimatrix_free(B);
         B = qmm(A,Asinv,r);
-        maxcol = quasimatrix_absmax(B,&maxloc,&maxval,NULL);
+        maxcol = quasimatrix_absmax(B,&maxloc,&maxval,optargs);
     }
     //printf("maxval = %3.4f\n", maxval);
 
-- 
2.43.0


From 542d3d95a7b8080535dc66e98a104763b6f9e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 54/68] fix: adaptive constant elements with prescribed zeros
 live on their domain and keep every zero

---
 c3/lib_funcs/constelm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 3328cf4..931ee2b 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -1611,6 +1611,8 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct ConstElemExp * le = const_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -1630,7 +1632,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -1670,7 +1672,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -1695,6 +1697,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
             else{
                 assert (1 == 0);
             }
+            free(sorted_arr); sorted_arr = NULL;
             /* print_const_elem_exp(le,3,NULL,stdout); */
             return le;
         }
-- 
2.43.0


From 931570f4aa352f868590963408f0908355fb8a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:01 +0000
Subject: [PATCH 55/68] fix: new nodes of piecewise linear and constant options
 also set the domain

---
 c3/lib_funcs/constelm.c | 2 ++
 c3/lib_funcs/linelm.c   | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 931ee2b..11931fb 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -239,6 +239,8 @@ void const_elem_exp_aopts_set_nodes(struct ConstElemExpAopts * aopts,
     aopts->node_alloc = 0;
     if (N > 0){
         aopts->nodes = nodes;
+        aopts->lb = nodes[0];
+        aopts->ub = nodes[N-1];
     }
 }
 
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 74b84cf..33d91b9 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -242,6 +242,8 @@ void lin_elem_exp_aopts_set_nodes(struct LinElemExpAopts * aopts,
     aopts->node_alloc = 0;
     if (N > 0){
         aopts->nodes = nodes;
+        aopts->lb = nodes[0];
+        aopts->ub = nodes[N-1];
     }
 }
 
@@ -269,7 +271,10 @@ void lin_elem_exp_aopts_set_nodes_copy(struct LinElemExpAopts * aopts,
     aopts->node_alloc = 1;
     aopts->nodes = calloc_double(N);
     memmove(aopts->nodes,nodes,N*sizeof(double));
-
+    if (N > 0){
+        aopts->lb = nodes[0];
+        aopts->ub = nodes[N-1];
+    }
 }
 
 /********************************************************//**
-- 
2.43.0


From a5d2fd386c3f88a86c4c997a13ea6e71b76f2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:17 +0000
Subject: [PATCH 56/68] fix: restricted updates of a parameterised train read
 dim-1 rank limits, not dim

---
 c3/lib_superlearn/parameterization.c | 52 +++++++++++-----------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index aeb09a3..8b3f4cd 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -383,6 +383,19 @@ void ft_param_self_update_params(struct FTparam * ftp)
     function_train_update_params(ftp->ft,ftp->params);
 }
 
+// whether function (row,col) of a core lies within the first ranks; the outer ranks are not restricted
+static int inside_ranks(const struct FTparam * ftp, const size_t * rank_start,
+                        size_t core, size_t row, size_t col)
+{
+    if ((core > 0) && (row >= rank_start[core-1])){
+        return 0;
+    }
+    if ((core + 1 < ftp->dim) && (col >= rank_start[core])){
+        return 0;
+    }
+    return 1;
+}
+
 /***********************************************************//**
     Get the number of parameters of an FT for univariate functions
     >= ranks_start
@@ -397,15 +410,8 @@ size_t ft_param_get_nparams_restrict(const struct FTparam * ftp, const size_t *
     for (size_t kk = 0; kk < ftp->dim; kk++){
         for (size_t jj = 0; jj < ftp->ft->ranks[kk+1]; jj++){
             for (size_t ii = 0; ii < ftp->ft->ranks[kk]; ii++){
-                if (kk > 0){
-                    if ( (ii >= rank_start[kk-1]) || (jj >= rank_start[kk]) ){
-                        nparams += ftp->nparams_per_uni[ind];
-                    }
-                }
-                else{ // kk == 0
-                    if (jj >= rank_start[kk]){
-                        nparams += ftp->nparams_per_uni[ind];
-                    }
+                if (inside_ranks(ftp,rank_start,kk,ii,jj) == 0){
+                    nparams += ftp->nparams_per_uni[ind];
                 }
                 ind++;
             }
@@ -436,17 +442,9 @@ void ft_param_update_restricted_ranks(struct FTparam * ftp,
         for (size_t jj = 0; jj < ftp->ft->ranks[kk+1]; jj++){
             for (size_t ii = 0; ii < ftp->ft->ranks[kk]; ii++){
                 for (size_t ll = 0; ll < ftp->nparams_per_uni[ind]; ll++){
-                    if (kk > 0){
-                        if ( (ii >= rank_start[kk-1]) || (jj >= rank_start[kk]) ){
-                            ftp->params[onparam_general] = params[onparam_new];
-                            onparam_new++;
-                        }
-                    }
-                    else{ // kk == 0
-                        if (jj >= rank_start[kk]){
-                            ftp->params[onparam_general] = params[onparam_new];
-                            onparam_new++;
-                        }
+                    if (inside_ranks(ftp,rank_start,kk,ii,jj) == 0){
+                        ftp->params[onparam_general] = params[onparam_new];
+                        onparam_new++;
                     }
 
                     onparam_general++;
@@ -481,17 +479,9 @@ void ft_param_update_inside_restricted_ranks(struct FTparam * ftp,
         for (size_t jj = 0; jj < ftp->ft->ranks[kk+1]; jj++){
             for (size_t ii = 0; ii < ftp->ft->ranks[kk]; ii++){
                 for (size_t ll = 0; ll < ftp->nparams_per_uni[ind]; ll++){
-                    if (kk > 0){
-                        if ( (ii < rank_start[kk-1]) && (jj < rank_start[kk]) ){
-                            ftp->params[onparam_general] = params[onparam_new];
-                            onparam_new++;
-                        }
-                    }
-                    else{ // kk == 0
-                        if (jj < rank_start[kk]){
-                            ftp->params[onparam_general] = params[onparam_new];
-                            onparam_new++;
-                        }
+                    if (inside_ranks(ftp,rank_start,kk,ii,jj) == 1){
+                        ftp->params[onparam_general] = params[onparam_new];
+                        onparam_new++;
                     }
 
                     onparam_general++;
-- 
2.43.0


From 25d94f3a6b370462f5f8c96fbcc5ef0603bcc788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:17 +0000
Subject: [PATCH 57/68] fix: Hessian-vector product of a parameterised train
 returns the evaluation it documents

---
 c3/lib_superlearn/parameterization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index 8b3f4cd..db71700 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -1664,7 +1664,7 @@ double ft_param_hessvec(struct FTparam * ftp, const double * x,
     /* double * d2_evals = calloc_double(maxrank*maxrank*ftp->nparams); */
 
 
-    double eval = 0.0;
+    double eval = function_train_eval(ft,x);
 
     // Precompute all relavent info
     for (size_t ii = 0; ii < ftp->dim; ii++){
-- 
2.43.0


From 93a7d848a252aebd156d375dfe575119e80a25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:46 +0000
Subject: [PATCH 58/68] fix: parameter gradient of an inner product of Legendre
 expansions uses the measure of the inner product

---
 c3/lib_funcs/polynomials.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index de49d0d..a4db07d 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3219,8 +3219,13 @@ orth_poly_expansion_param_grad_inner(const struct OrthPolyExpansion * a,
    if (a->num_poly > b->num_poly)
        n = b->num_poly;
    
+   // same measure as orth_poly_expansion_inner
+   double scale = 1.0;
+   if (a->p->ptype == LEGENDRE){
+       scale = a->upper_bound - a->lower_bound;
+   }
    for (size_t ii = 0; ii < n; ii++){
-       inner_vals[ii] = b->coeff[ii];
+       inner_vals[ii] = scale * b->coeff[ii];
    }
 
    /* in case polynomial b had fewer coefficients */
-- 
2.43.0


From 06619a43539b6cd9eccf1106fbb7e6d40887ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:46 +0000
Subject: [PATCH 59/68] fix: a parameterised train allocated without values
 starts with the parameters of its train

---
 c3/lib_superlearn/parameterization.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index db71700..3e5ca7c 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -134,6 +134,9 @@ ft_param_alloc(size_t dim,
         memmove(ftr->params,params,ftr->nparams*sizeof(double));
         function_train_update_params(ftr->ft,ftr->params);
     }
+    else{ // not all parameters of a zero function are zero, e.g. centers of kernels
+        function_train_get_params(ftr->ft,ftr->params);
+    }
     return ftr;
 }
 
-- 
2.43.0


From aa3c734f0487ce5a62e2ebbe32a5a258bd460d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 60/68] fix: element of a tensor train whose dimensions differ
 in size

---
 c3/lib_tensdecomp/tensortrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 4cd62f2..c862eb6 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -196,7 +196,7 @@ double ttelem(struct tt * ttc, size_t * elem)
         cblas_dgemv(CblasColMajor, CblasTrans, ttc->ranks[ii+1], 
                 ttc->ranks[ii+2], 1.0, 
                 ttc->cores[ii+1]->vals + elem[ii+1] * ttc->ranks[ii+1],
-                ttc->ranks[ii+1] * ttc->nvals[1],
+                ttc->ranks[ii+1] * ttc->nvals[ii+1],
                 vec, 1, 0.0, temp, 1);
 
         free(vec);
-- 
2.43.0


From 43c774c6b8e234700f21e4d20171511c681e9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 61/68] fix: shape of the constant cores of tt_x

---
 c3/lib_tensdecomp/tensortrain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index c862eb6..c276c87 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -162,7 +162,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // before dimx
     for (ii = 0; ii < dimx; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     // dim x
     new->ranks[dimx] = 1;
@@ -171,7 +171,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // after dimx
     for (ii = dimx+1; ii < dim; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     new->ranks[dim] = 1;
     return new;
-- 
2.43.0


From 520667229e020a09d161611b29d4241c969b27ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 62/68] fix: sizes of a transposed copy of a tensor

---
 c3/lib_tensor/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index f39b60d..56f5830 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -470,7 +470,7 @@ struct tensor * tensor_copy_3d(const struct tensor * t, int transpose){
         nvals[0] = t->nvals[2];
         nvals[1] = t->nvals[1];
         nvals[2] = t->nvals[0];
-        init_tensor(&out, 3, t->nvals);
+        init_tensor(&out, 3, nvals);
         size_t ii,jj,kk;
         for (ii = 0; ii < nvals[0]; ii++){
             for (jj = 0; jj < nvals[1]; jj++){
-- 
2.43.0


From ee081ee5ef0f6e39c1165e47443fdad6fb7eaca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 63/68] fix: initial cross indices stay within the tensor

---
 c3/lib_tensdecomp/cross.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 402db8a..be8ab65 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -314,15 +314,15 @@ init_cross_opts(size_t dim, size_t *ranks, size_t *nvals)
 
 void create_naive_index_set(struct index_set * r, size_t * nvals)
 {   
-    size_t ii;
-    size_t onDim = 0;
+    size_t ii, jj;
     for ( ii = 0; ii < r->N; ii++)
     {
-        if (nvals[onDim] < (ii+1)){
-            onDim += 1;
-        }
         if( r->indices[ii] != NULL){
-            r->indices[ii][onDim] =  ii;
+            size_t rem = ii;
+            for (jj = 0; jj < r->dim; jj++){
+                r->indices[ii][jj] = rem % nvals[jj];
+                rem = rem / nvals[jj];
+            }
         }
     }   
 }
@@ -333,7 +333,7 @@ init_cross_opts_with_naive_set(size_t dim, size_t * ranks, size_t * nvals)
     struct tt_cross_opts * opt = init_cross_opts(dim, ranks, nvals);
     size_t ii;
     for (ii = 0; ii < opt->dim-1; ii++){
-        create_naive_index_set(opt->right[ii], nvals + ii);
+        create_naive_index_set(opt->right[ii], nvals + ii + 1);
         create_naive_index_set(opt->left[ii], nvals);
     }
     return opt;
@@ -873,7 +873,7 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
         }
 
         for (ii = 0; ii < opts->dim-1; ii++){
-            create_naive_index_set(opts->right[ii], opts->nvals + ii);
+            create_naive_index_set(opts->right[ii], opts->nvals + ii + 1);
             create_naive_index_set(opts->left[ii], opts->nvals);
         }
         iter += 1;
-- 
2.43.0


From 21e56df5937b007c0b6fdc3d535cd3f6f5076705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 64/68] fix: row indices of the right to left sweep of tt_cross

---
 c3/lib_tensdecomp/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index be8ab65..7248bb2 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -634,7 +634,7 @@ process_cores_rl(struct tt * a, size_t kk,
     }
     free(Atemp);
     
-    nValsMulti[0] = opts->ranks[kk];
+    nValsMulti[0] = opts->ranks[kk+1];
     nValsMulti[1] = opts->nvals[kk];
     size_t jj;
     //printf("core = %zu \n",kk);
-- 
2.43.0


From b527939c82d787ae422f3f6fe1f91d7cbfb9135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 65/68] fix: read all values of a tensor from a file

---
 c3/lib_tensor/tensor.c | 39 ++++++++-------------------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index 56f5830..3789173 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -117,46 +117,23 @@ struct tensor * read_tensor_3d(FILE * fp)
     struct tensor * a;
 
     size_t nvals[3];
-    nvals[0] = (size_t)( fgetc(fp)-'0');
-    fgetc(fp); 
-    nvals[1] = (size_t) ( fgetc(fp)-'0');
-    fgetc(fp); 
-    nvals[2] = (size_t) ( fgetc(fp)-'0');
-    //iprint(3, nvals);
-    init_tensor(&a, 3, nvals);
-    fgetc(fp);
-    char * buffer= malloc(2*nvals[2] * sizeof(double)/sizeof(char) * sizeof(char));
-    char * pch;    
-
-    buffer = fgets(buffer, sizeof(buffer), fp);
-    if (buffer == NULL){
+    if (fscanf(fp, "%zu %zu %zu", nvals, nvals+1, nvals+2) != 3){
         fprintf(stderr, "failed to read in the 3d tensor file.\n");
         exit(1);
     }
-    pch = strtok(buffer, " \n");
+    init_tensor(&a, 3, nvals);
 
     for (ii = 0; ii < nvals[1]; ii++){
         for (jj = 0; jj < nvals[0]; jj++){
-            kk = 0;
-            while (pch != NULL)
-            {
-                sscanf(pch, "%lf",
-                    &(a->vals[jj + ii * nvals[0] + kk * nvals[0] * nvals[1]]));
-                //printf("%f ",(a->vals[jj + ii * nvals[0] + kk * nvals[0] * nvals[1]]));
-                //printf("%s ", pch);
-                pch = strtok(NULL, " \n");
-                kk++;
-            }
-            buffer = fgets(buffer, sizeof(buffer), fp);
-            if (buffer == NULL){
-                fprintf(stderr, "failed to read in the 3d tensor file.\n");
-                exit(1);
+            for (kk = 0; kk < nvals[2]; kk++){
+                if (fscanf(fp, "%lf",
+                    &(a->vals[jj + ii * nvals[0] + kk * nvals[0] * nvals[1]])) != 1){
+                    fprintf(stderr, "failed to read in the 3d tensor file.\n");
+                    exit(1);
+                }
             }
-            //printf("\n");
         }
     }
-    free(buffer);
-    //printf("%s ", buffer);
 
     return a;
 }
-- 
2.43.0


From b90404dd90c0350ea3db501c1705c5a80a4c7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:31 +0000
Subject: [PATCH 66/68] fix: orthogonalize tensor train cores with more rows
 than columns

---
 c3/lib_tensdecomp/tensortrain.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index c276c87..7388fe1 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -335,6 +335,28 @@ struct tt * full_to_tt(const struct tensor * a, double epsilon)
 void right_ortho_core(struct tt ** a, size_t core){
     
     size_t jj;
+    size_t ncols = (*a)->ranks[core+1] * (*a)->nvals[core];
+    if ((*a)->ranks[core] > ncols){
+        // more rows than columns: the whole core moves to its neighbor,
+        // which leaves an identity
+        size_t nprev = (*a)->ranks[core-1] * (*a)->nvals[core-1];
+        double * prev = calloc_double(nprev * ncols);
+        cblas_dgemm(CblasColMajor, CblasNoTrans, CblasNoTrans, nprev, ncols,
+                    (*a)->ranks[core], 1.0, (*a)->cores[core-1]->vals, nprev,
+                    (*a)->cores[core]->vals, (*a)->ranks[core], 0.0, prev, nprev);
+        free((*a)->cores[core-1]->vals);
+        (*a)->cores[core-1]->vals = prev;
+        (*a)->cores[core-1]->nvals[2] = ncols;
+
+        free((*a)->cores[core]->vals);
+        (*a)->cores[core]->vals = calloc_double(ncols * ncols);
+        for (jj = 0; jj < ncols; jj++){
+            (*a)->cores[core]->vals[jj * ncols + jj] = 1.0;
+        }
+        (*a)->cores[core]->nvals[0] = ncols;
+        (*a)->ranks[core] = ncols;
+        return;
+    }
     double * r = calloc_double( (*a)->ranks[core] * (*a)->ranks[core] );
     for (jj = 0; jj < (*a)->ranks[core]; jj++){
         r[jj * (*a)->ranks[core] + jj] = 1.0;
-- 
2.43.0


From bf6240cb17147c4f1c9530c87eda4bf0b05121d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:32 +0000
Subject: [PATCH 67/68] fix: maxvol_rhs takes its first rows from the pivots of
 the whole matrix

---
 c3/lib_linalg/linalg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 8404f1a..9405f27 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -1427,7 +1427,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
 
     temp2 = calloc_double(n*r);
     memmove(temp2, A, n*r*siz);
-    dgetrf_((int*)&r,(int*)&r, temp2, (int*)&r, ipiv, &info); //lu decomp
+    dgetrf_((int*)&n,(int*)&r, temp2, (int*)&n, ipiv, &info); //lu decomp
     if (info < 0) printf("Input %d of LU is not correct\n ", info);
     //if (info > 0) printf("Rank is too high, suggest lowering it\n");
 
@@ -1449,6 +1449,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
     }
 
     for (ii = 0; ii < r; ii++){
+        ipiv[ii]--; // LAPACK counts rows from one
         jj = (size_t) ipiv[ii];
         
         if (jj != ii){
-- 
2.43.0


From 4cbcd2ca197db7eb487f111b1d9c7de1b2ebcd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:32 +0000
Subject: [PATCH 68/68] fix: vec_kron keeps the rows of its result apart when
 the matrices have different numbers of columns

---
 c3/lib_linalg/linalg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 9405f27..bcefd61 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -666,7 +666,7 @@ void vec_kron(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, out, n);
+                    a, lda, temp, m, scale, out, l);
     free(temp);
 }
 
@@ -680,7 +680,7 @@ void vec_kronl(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, (double *) v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, (double *) out, n);
+                    a, lda, temp, m, scale, (double *) out, l);
     free(temp);
 }
 /*************************************************************//**
-- 
2.43.0

