#include "gen.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
const char *gen_cls_name[] = { "linear-element", "constant-element", "kernel", "legendre", "chebyshev", "hermite", "piecewise-poly" };

double gen_coeff(void)
{
    switch (sim_choose(6)) {
    case 0: return 1.0;
    case 1: return 0.0;
    case 2: return (double)sim_choose(7) - 3.0;
    default: return sim_double(-2.0, 2.0) / 1.5;
    }
}
void gen_nodes(size_t n, double lb, double ub, double *x)
{
    if (n == 1) { x[0] = lb; return; }
    int uniform = (int)sim_choose(2) == 0;
    x[0] = lb; x[n - 1] = ub;
    for (size_t i = 1; i + 1 < n; i++) {
        double u = uniform ? 0.0 : sim_double(-0.4, 0.4);
        x[i] = lb + (ub - lb) * (((double)i + u) / (double)(n - 1));
    }
}
int gen_large;
static size_t sz(size_t lo, size_t hi, size_t big) { return gen_large && sim_flip(1, 60) ? sim_range(hi + 1, big) : sim_range(lo, hi); }
static double co(int m) { return m ? gen_coeff() : sim_value(); }

struct GenericFunction *gen_func(enum gen_cls c, double lb, double ub, int m)
{
    struct GenericFunction *gf = NULL;
    if (c == G_LIN || c == G_CONST) {
        size_t n = sz(2, 7, 70);
        double *x = xmalloc(n * 8), *y = xmalloc(n * 8);
        gen_nodes(n, lb, ub, x);
        for (size_t i = 0; i < n; i++) y[i] = co(m);
        gf = generic_function_alloc(1, c == G_LIN ? LINELM : CONSTELM);
        if (c == G_LIN) gf->f = lin_elem_exp_init(n, x, y); else gf->f = const_elem_exp_init(n, x, y);
        xfree(x); xfree(y);
    } else if (c == G_KERNEL) {
        size_t n = sz(1, 4, 20);
        gf = generic_function_alloc(1, KERNEL); double w = 0.5 + (double)sim_choose(4) / 3.0, sc = 0.2 + (double)sim_choose(8) / 5.0; struct KernelExpansion *k;
        if (sim_flip(1, 3)) {                       /* the way regression makes them, perhaps with free centres */
            double ctr[20], cf[20]; gen_nodes(n, lb, ub, ctr); struct KernelApproxOpts *ko = kernel_approx_opts_gauss(n, ctr, w, sc);
            kernel_approx_opts_set_lb(ko, lb); kernel_approx_opts_set_ub(ko, ub); kernel_approx_opts_set_center_adapt(ko, (int)sim_choose(2));
            k = kernel_expansion_init(ko); kernel_approx_opts_free(ko); for (size_t i = 0; i < n; i++) cf[i] = co(m);
            if (kernel_expansion_get_num_params(k) == n) kernel_expansion_update_params(k, n, cf);
            else { double all[40]; for (size_t i = 0; i < n; i++) { all[i] = cf[i]; all[n + i] = ctr[i]; } kernel_expansion_update_params(k, 2 * n, all); }
        } else {
            k = kernel_expansion_alloc(n); kernel_expansion_set_bounds(k, lb, ub);
            for (size_t i = 0; i < n; i++) { struct Kernel *kr = kernel_gaussian(w, sc, sim_double(lb, ub)); kernel_expansion_add_kernel(k, co(m), kr); kernel_free(kr); }
        }
        gf->f = k;
    } else if (c == G_LEG || c == G_CHEB || c == G_HERM) {
        size_t n = c == G_HERM ? sz(1, 6, 12) : sz(1, 6, 24);
        struct OrthPolyExpansion *p = orth_poly_expansion_init(c == G_LEG ? LEGENDRE : c == G_CHEB ? CHEBYSHEV : HERMITE, n, lb, ub);
        for (size_t i = 0; i < n; i++) p->coeff[i] = co(m);
        gf = generic_function_alloc(1, POLYNOMIAL); gf->f = p;
    } else {
        gf = generic_function_alloc(1, PIECEWISE);
        size_t nb = sz(1, 3, 8); struct PiecewisePoly *p = piecewise_poly_alloc();
        double e[9]; gen_nodes(nb + 1, lb, ub, e);
        if (nb == 1) {
            p->leaf = 1; size_t n = sim_range(1, 4); p->ope = orth_poly_expansion_init(LEGENDRE, n, lb, ub);
            for (size_t i = 0; i < n; i++) p->ope->coeff[i] = co(m);
        } else {
            p->leaf = 0; p->nbranches = nb; p->branches = piecewise_poly_array_alloc(nb);
            for (size_t b = 0; b < nb; b++) {
                p->branches[b] = piecewise_poly_alloc(); p->branches[b]->leaf = 1; size_t n = sim_range(1, 4);
                p->branches[b]->ope = orth_poly_expansion_init(LEGENDRE, n, e[b], e[b + 1]);
                for (size_t i = 0; i < n; i++) p->branches[b]->ope->coeff[i] = co(m);
            }
        }
        gf->f = p;
    }
    gf->fargs = NULL;
    return gf;
}
struct FunctionTrain *gen_ft(size_t dim, size_t maxrank, int cls, double *lb, double *ub, int m)
{
    struct FunctionTrain *ft = function_train_alloc(dim);
    ft->ranks[0] = ft->ranks[dim] = 1;
    for (size_t i = 1; i < dim; i++) ft->ranks[i] = sim_range(1, maxrank);
    for (size_t i = 0; i < dim; i++) {
        enum gen_cls c = cls < 0 ? (enum gen_cls)sim_choose(G_NCLS) : (enum gen_cls)cls;
        ft->cores[i] = qmarray_alloc(ft->ranks[i], ft->ranks[i + 1]);
        for (size_t j = 0; j < ft->ranks[i] * ft->ranks[i + 1]; j++) ft->cores[i]->funcs[j] = gen_func(c, lb[i], ub[i], m);
    }
    return ft;
}
struct FT1DArray *gen_ft1d(size_t n, size_t dim, size_t maxrank, int cls, double *lb, double *ub, int m)
{
    struct FT1DArray *a = ft1d_array_alloc(n);
    for (size_t i = 0; i < n; i++) a->ft[i] = gen_ft(dim, maxrank, cls, lb, ub, m);
    return a;
}
void gen_points(size_t n, size_t dim, const double *lb, const double *ub, double *out)
{
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < dim; j++) out[i * dim + j] = sim_double(lb[j], ub[j]);
}
double ref_ft_eval(const struct FunctionTrain *ft, const double *x)
{
    double v[64], w[64]; v[0] = 1.0; size_t r = 1;
    for (size_t k = 0; k < ft->dim; k++) {
        struct Qmarray *q = ft->cores[k];
        for (size_t j = 0; j < q->ncols; j++) {
            w[j] = 0;
            for (size_t i = 0; i < r; i++) w[j] += v[i] * generic_function_1d_eval(q->funcs[i + j * q->nrows], x[k]);
        }
        r = q->ncols; memcpy(v, w, r * sizeof *v);
    }
    return v[0];
}
unsigned char *ft_bytes(struct FunctionTrain *ft, size_t *n)
{
    function_train_serialize(NULL, ft, n);
    unsigned char *b = xcalloc(1, *n + 1);
    function_train_serialize(b, ft, NULL);
    return b;
}
uint64_t ft_hash(struct FunctionTrain *ft)
{
    size_t n; unsigned char *b = ft_bytes(ft, &n); uint64_t h = 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
    xfree(b); return h;
}

/* ---- references that use nothing but 1-D evaluations ------------------------ */
double core_at(const struct FunctionTrain *ft, size_t k, size_t i, size_t j, double x) { return generic_function_1d_eval(ft->cores[k]->funcs[i + j * ft->cores[k]->nrows], x); }
/* value and the sum of the absolute values of all contributions */
double ft_abs(const struct FunctionTrain *ft, const double *x, double *val)
{
    double *v = xcalloc(4 * RM, 8), *w = v + RM, *a = w + RM, *b = a + RM; v[0] = a[0] = 1; size_t r = 1;
    for (size_t k = 0; k < ft->dim; k++) {
        size_t nc = ft->cores[k]->ncols;
        for (size_t j = 0; j < nc; j++) { w[j] = b[j] = 0; for (size_t i = 0; i < r; i++) { double f = core_at(ft, k, i, j, x[k]); w[j] += v[i] * f; b[j] += a[i] * fabs(f); } }
        r = nc; memcpy(v, w, r * 8); memcpy(a, b, r * 8);
    }
    double r0 = a[0]; if (val) *val = v[0];
    xfree(v); return r0;
}
double poly_floor(const struct GenericFunction *f)
{
    if (f->fc != POLYNOMIAL) return 0;
    const struct OrthPolyExpansion *p = f->f; double s = 1e-12; for (size_t i = 0; i < p->num_poly; i++) s += 1e-11 * fabs(p->coeff[i]) * sqrt(2.0 * (double)i + 1);
    return s;
}
/* rounding allowance: relative, plus the absolute size (machine epsilon) below which polynomials drop coefficients */
double ft_tol(const struct FunctionTrain *ft, const double *x)
{
    double v, r = ft_abs(ft, x, &v), *a = xcalloc(2 * RM, 8), *b = a + RM, s; size_t n = 1; a[0] = 1;
    for (size_t k = 0; k < ft->dim; k++) {
        size_t nc = ft->cores[k]->ncols;
        for (size_t j = 0; j < nc; j++) { b[j] = 0; for (size_t i = 0; i < n; i++) b[j] += a[i] * (fabs(core_at(ft, k, i, j, x[k])) + poly_floor(ft->cores[k]->funcs[i + j * n])); }
        n = nc; memcpy(a, b, n * 8);
    }
    s = a[0]; xfree(a); return 1e-10 * r + 1.01 * (s - r) + 1e-15 * r;
}
