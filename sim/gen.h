#ifndef GEN_H
#define GEN_H
#include "sim.h"
#include "array.h"
#include "functions.h"
#include "fapprox.h"
#include "qmarray.h"
#include "ft.h"
#include "probability.h"
#include "stringmanip.h"
#include "monitoring.h"
#include "lib_optimization.h"

enum gen_cls { G_LIN, G_CONST, G_KERNEL, G_LEG, G_CHEB, G_HERM, G_PW, G_NCLS };
extern const char *gen_cls_name[];
double gen_coeff(void);                                   /* moderate magnitude */
struct GenericFunction *gen_func(enum gen_cls c, double lb, double ub, int moderate);
struct FunctionTrain *gen_ft(size_t dim, size_t maxrank, int cls /* -1: any per dimension */, double *lb, double *ub, int moderate);
struct FT1DArray *gen_ft1d(size_t n, size_t dim, size_t maxrank, int cls, double *lb, double *ub, int moderate);
void gen_points(size_t n, size_t dim, const double *lb, const double *ub, double *out);
void gen_nodes(size_t n, double lb, double ub, double *x);
/* reference evaluation of a function train straight from its cores */
double ref_ft_eval(const struct FunctionTrain *ft, const double *x);
uint64_t ft_hash(struct FunctionTrain *ft);               /* over the serialised bytes */
unsigned char *ft_bytes(struct FunctionTrain *ft, size_t *n); /* xmalloc'ed */
#define RM 400                                            /* largest rank (product) the references handle */
double core_at(const struct FunctionTrain *ft, size_t k, size_t i, size_t j, double x);
double ft_abs(const struct FunctionTrain *ft, const double *x, double *val);   /* sum of the absolute values of all contributions */
double ft_tol(const struct FunctionTrain *ft, const double *x);                /* rounding allowance */
double poly_floor(const struct GenericFunction *f);
double uni_own(const struct GenericFunction *f, double x, double *a, double *d, double *da, int *near);   /* value from the stored numbers; see scn_uni.c */
double uni_quad(const struct GenericFunction *f, const struct GenericFunction *g, double *ab);
#define MAXD 12
extern int gen_large;                                     /* now and then a function of many nodes, kernels or terms */
#endif
