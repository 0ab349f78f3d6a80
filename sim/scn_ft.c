/* Function-train algebra as a long-lived session (C13) and evaluators on much-used trains (C14). */
#include "gen.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>

static const double GX[12] = { -.9815606342467192, -.9041172563704749, -.7699026741943047, -.5873179542866175, -.3678314989981802, -.1252334085114689, .1252334085114689, .3678314989981802, .5873179542866175, .7699026741943047, .9041172563704749, .9815606342467192 };
static const double GW[12] = { .0471753363865118, .1069393259953184, .1600783285433462, .2031674267230659, .2334925365383548, .2491470458134028, .2491470458134028, .2334925365383548, .2031674267230659, .1600783285433462, .1069393259953184, .0471753363865118 };
#define FD 7
#define FN 8
#define FK 6
#define FS 5
#define MAXR 9
struct slot { int used, saved, deg; double v[FK], err[FK]; size_t r[FD + 1]; };
struct sess {
    int started; size_t d, N[FD]; enum gen_cls cls[FD]; double nodes[FD][FN], lb[FD], ub[FD], x[FK][FD]; struct slot s[FS]; int lin, quad; size_t op, ops;
};
static struct FunctionTrain *T[FS]; static uint64_t H[FS]; static struct MultiApproxOpts *M; static struct OneApproxOpts *O[FD]; static double *ND[FD];

/* breakpoints of dimension k */
static size_t pieces(const struct sess *z, size_t k, double *b)
{
    size_t n = 0;
    if (z->cls[k] == G_LIN) { memcpy(b, z->nodes[k], z->N[k] * 8); return z->N[k]; }
    b[n++] = z->lb[k];
    if (z->cls[k] == G_CONST) for (size_t i = 1; i < z->N[k]; i++) b[n++] = 0.5 * (z->nodes[k][i - 1] + z->nodes[k][i]);
    else for (size_t i = 1; i < 4; i++) b[n++] = z->lb[k] + (z->ub[k] - z->lb[k]) * (double)i / 4;
    b[n++] = z->ub[k]; return n;
}
static double int1(const struct sess *z, size_t k, struct GenericFunction *f, struct GenericFunction *g, double *ab)
{
    double b[FN + 2], s = 0, a = 0; size_t n = pieces(z, k, b);
    if (g && z->cls[k] == G_LIN) {          /* the library defines the inner product of piecewise linear functions by the trapezoidal rule on their nodes */
        for (size_t i = 0; i < n; i++) { double v = generic_function_1d_eval(f, b[i]) * generic_function_1d_eval(g, b[i]), h = 0.5 * (b[i + 1 < n ? i + 1 : i] - b[i ? i - 1 : 0]); s += h * v; a += h * fabs(v); }
        *ab = a; return s;
    }
    for (size_t i = 0; i + 1 < n; i++) for (int q = 0; q < 12; q++) {
        double h = 0.5 * (b[i + 1] - b[i]), x = 0.5 * (b[i + 1] + b[i]) + h * GX[q], v = generic_function_1d_eval(f, x); if (g) v *= generic_function_1d_eval(g, x);
        s += h * GW[q] * v; a += h * GW[q] * fabs(v);
    }
    *ab = a; return s;
}
/* integral of f (or f*g) over the box, or with the uniform weight over the dimensions in `mask` and at x elsewhere */
static double ref_int(const struct sess *z, const struct FunctionTrain *f, const struct FunctionTrain *g, unsigned mask, int weighted, const double *x, double *ab)
{
    double *v = xcalloc(RM, 8), *w = xcalloc(RM, 8), *a = xcalloc(RM, 8), *b = xcalloc(RM, 8); v[0] = a[0] = 1; size_t rf = 1, rg = 1;
    for (size_t k = 0; k < f->dim; k++) {
        size_t cf = f->cores[k]->ncols, cg = g ? g->cores[k]->ncols : 1; memset(w, 0, RM * 8); memset(b, 0, RM * 8);
        for (size_t j = 0; j < cf; j++) for (size_t q = 0; q < cg; q++) for (size_t i = 0; i < rf; i++) for (size_t p = 0; p < rg; p++) {
            struct GenericFunction *ff = f->cores[k]->funcs[i + j * rf], *gg = g ? g->cores[k]->funcs[p + q * rg] : NULL; double e, t;
            if (mask >> k & 1) { t = int1(z, k, ff, gg, &e); if (weighted) { t /= z->ub[k] - z->lb[k]; e /= z->ub[k] - z->lb[k]; } } else { t = generic_function_1d_eval(ff, x[k]); e = fabs(t) + 1e11 * poly_floor(ff); }
            w[j + q * cf] += v[i + p * rf] * t; b[j + q * cf] += a[i + p * rf] * e;
        }
        rf = cf; rg = cg; double *s = v; v = w; w = s; s = a; a = b; b = s;
    }
    double r = v[0]; *ab = a[0]; xfree(v); xfree(w); xfree(a); xfree(b); return r;
}
/* ---- session ------------------------------------------------------------------ */
static void mkM(struct sess *z)
{
    M = multi_approx_opts_alloc(z->d);
    for (size_t k = 0; k < z->d; k++) {
        ND[k] = NULL;
        if (z->cls[k] == G_LEG) { struct OpeOpts *o = ope_opts_alloc(LEGENDRE); ope_opts_set_lb(o, z->lb[k]); ope_opts_set_ub(o, z->ub[k]); ope_opts_set_start(o, 5); ope_opts_set_maxnum(o, 30); ope_opts_set_tol(o, 1e-14); ope_opts_set_coeffs_check(o, 2); O[k] = one_approx_opts_alloc(POLYNOMIAL, o); }
        else { ND[k] = calloc_double(z->N[k]); memcpy(ND[k], z->nodes[k], z->N[k] * 8); O[k] = z->cls[k] == G_LIN ? one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(z->N[k], ND[k])) : one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(z->N[k], ND[k])); }
        multi_approx_opts_set_dim(M, k, O[k]);
    }
}
static void freeM(struct sess *z) { for (size_t k = 0; k < z->d; k++) { one_approx_opts_free_deep(&O[k]); free(ND[k]); } multi_approx_opts_free(M); }
static struct GenericFunction *func1(struct sess *z, size_t k)
{
    if (z->cls[k] == G_LEG) {
        size_t n = sim_range(1, 4); struct OrthPolyExpansion *p = orth_poly_expansion_init(LEGENDRE, n, z->lb[k], z->ub[k]); for (size_t i = 0; i < n; i++) p->coeff[i] = gen_coeff();
        struct GenericFunction *g = generic_function_alloc(1, POLYNOMIAL); g->f = p; g->fargs = NULL; return g;
    }
    double y[FN]; for (size_t i = 0; i < z->N[k]; i++) y[i] = gen_coeff();
    struct GenericFunction *g = generic_function_alloc(1, z->cls[k] == G_LIN ? LINELM : CONSTELM); g->fargs = NULL;
    if (z->cls[k] == G_LIN) g->f = lin_elem_exp_init(z->N[k], z->nodes[k], y); else g->f = const_elem_exp_init(z->N[k], z->nodes[k], y);
    return g;
}
static struct FunctionTrain *newft(struct sess *z)
{
    struct FunctionTrain *ft = function_train_alloc(z->d); for (size_t k = 0; k <= z->d; k++) ft->ranks[k] = k == 0 || k == z->d ? 1 : sim_range(1, 3);
    for (size_t k = 0; k < z->d; k++) { ft->cores[k] = qmarray_alloc(ft->ranks[k], ft->ranks[k + 1]); for (size_t j = 0; j < ft->ranks[k] * ft->ranks[k + 1]; j++) ft->cores[k]->funcs[j] = func1(z, k); }
    return ft;
}
/* the train must be well formed and have these values */
static void want(struct sess *z, struct FunctionTrain *ft, const double *v, const double *err, const char *what)
{
    SIM_CHECK(ft != NULL && ft->dim == z->d, "ft-form", "%s: no result of dimension %zu", what, z->d);
    size_t *r = function_train_get_ranks(ft);
    for (size_t k = 0; k < z->d; k++) SIM_CHECK(ft->cores[k] && ft->cores[k]->nrows == r[k] && ft->cores[k]->ncols == r[k + 1], "ft-form", "%s: ranks and cores disagree at dimension %zu", what, k);
    SIM_CHECK(r[0] == 1 && r[z->d] == 1, "ft-form", "%s: outer ranks %zu %zu", what, r[0], r[z->d]);
    for (size_t p = 0; p < FK; p++) {
        double got = function_train_eval(ft, z->x[p]), mine, a = ft_abs(ft, z->x[p], &mine), tol = ft_tol(ft, z->x[p]) + 1e-10 * fabs(v[p]) + (err ? err[p] : 0) + 1e-14;
        SIM_CHECK(fabs(mine - v[p]) <= tol, "ft-value", "%s: value at point %zu is %.17g instead of %.17g (allowed error %.3g)", what, p, mine, v[p], tol);
        SIM_CHECK(fabs(got - mine) <= 1e-11 * (a + 1e-300) + 1e-300, "ft-eval", "%s: function_train_eval gives %.17g where the cores give %.17g", what, got, mine);
    }
}
static void put(struct sess *z, int i, struct FunctionTrain *ft, const double *v, const double *err, int deg, const char *what)
{
    want(z, ft, v, err, what);
    if (T[i]) function_train_free(T[i]);
    T[i] = ft; H[i] = ft_hash(ft); struct slot *s = &z->s[i]; s->used = 1; s->deg = deg; double t[FK]; memcpy(t, v, sizeof t);
    for (size_t p = 0; p < FK; p++) { s->err[p] = err ? err[p] : 0; s->err[p] += ft_tol(ft, z->x[p]); s->v[p] = t[p]; }
    memset(s->r, 0, sizeof s->r); memcpy(s->r, ft->ranks, (z->d + 1) * sizeof(size_t));
}
static double nrm(struct FunctionTrain *ft) { return function_train_norm2(ft); }
static int anyslot(struct sess *z) { int c[FS], n = 0; for (int i = 0; i < FS; i++) if (z->s[i].used) c[n++] = i; return n ? c[sim_choose((uint64_t)n)] : -1; }
static size_t maxr(const struct slot *s) { size_t m = 0; for (size_t k = 0; k <= FD; k++) if (s->r[k] > m) m = s->r[k]; return m; }
/* the one-dimensional spaces are large enough for orthogonalisation */
static int room(const struct sess *z, const size_t *r) { for (size_t k = 0; k < z->d; k++) if (z->cls[k] != G_LEG && (r[k] >= r[k + 1] * z->N[k] || r[k + 1] >= r[k] * z->N[k] || r[k] >= z->N[k] || r[k + 1] >= z->N[k])) return 0; return 1; }
/* the product of polynomials is offered only above the size at which the library treats a polynomial as zero */
static int sized(const struct FunctionTrain *ft)
{
    for (size_t k = 0; k < ft->dim; k++) for (size_t j = 0; j < ft->ranks[k] * ft->ranks[k + 1]; j++) if (ft->cores[k]->funcs[j]->fc == POLYNOMIAL) {
        double s = 0; const struct OrthPolyExpansion *p = ft->cores[k]->funcs[j]->f; for (size_t i = 0; i < p->num_poly; i++) s += p->coeff[i] * p->coeff[i];
        if (s > 0 && s < 1e-10) return 0;
    }
    return 1;
}
/* not the small remainder of large contributions that cancel: its norm and its directions would be rounding noise */
static int solid(struct sess *z, const struct FunctionTrain *ft) { double v, m = 0, a = 0; for (size_t p = 0; p < FK; p++) { a = fmax(a, ft_abs(ft, z->x[p], &v)); m = fmax(m, fabs(v)); } return m >= 1e-2 * a; }
static double round_err(double norm, double eps) { return 3000 * sqrt(norm * eps) + 1e-8 * norm; }
struct f1 { struct sess *z; double a[FD], b[FD], c[FD]; };
static double f1v(const struct f1 *f, size_t k, double x) { return f->a[k] + f->b[k] * x + f->c[k] * x * x; }
static int f1cb(size_t n, size_t which, const double *x, double *out, void *a) { struct f1 *f = a; for (size_t i = 0; i < n; i++) out[i] = f1v(f, which, x[i]); return 0; }

/* what rounding may change in norm: in each of the d-1 steps the squares of the dropped singular values sum to at most norm*eps/sqrt(d-1) */
static double round_norm(size_t d, double n, double eps) { return sqrt(sqrt((double)d - 1) * n * eps); }
static void round_check(struct sess *z, struct FunctionTrain *f, double eps, double floor, const char *what)
{
    double n = nrm(f); int k = (int)sim_choose(2); struct FunctionTrain *g = k ? function_train_round_maxrank_all(f, eps, M, 200) : function_train_round(f, eps, M); double e = function_train_norm2diff(f, g), allow = round_norm(z->d, n, eps) * (1 + 1e-4) + floor;
    SIM_CHECK(e <= allow, "ft-round", "%s: rounding a train of norm %.10g to %g changes it by %.10g, allowed %.10g", what, n, eps, e, allow); for (size_t q = 0; q <= z->d; q++) SIM_CHECK(g->ranks[q] <= f->ranks[q], "ft-rank", "rounding raised rank %zu from %zu to %zu", q, f->ranks[q], g->ranks[q]); function_train_free(g);
}
/* a product of functions plus, for every pair of neighbours, a small term that only the singular values between these two know; its size lies just above what rounding may drop there */
static void round_edge(struct sess *z)
{
    size_t d = z->d; struct GenericFunction *g[FD][3]; if (d < 2) return;
    for (size_t k = 0; k < d; k++) for (int i = 0; i < 3; i++) {
        size_t n = z->N[k]; double c[FN]; for (size_t j = 0; j < n; j++) c[j] = z->cls[k] == G_LEG ? j == (size_t)i : i == 0 ? 1 : sim_double(-1, 1); struct GenericFunction *h = generic_function_alloc(1, z->cls[k] == G_LEG ? POLYNOMIAL : z->cls[k] == G_LIN ? LINELM : CONSTELM);
        if (z->cls[k] == G_LEG) { struct OrthPolyExpansion *p = orth_poly_expansion_init(LEGENDRE, 3, z->lb[k], z->ub[k]); memcpy(p->coeff, c, 24); h->f = p; } else if (z->cls[k] == G_LIN) h->f = lin_elem_exp_init(n, z->nodes[k], c); else h->f = const_elem_exp_init(n, z->nodes[k], c);
        for (int r = 0; r < 2; r++) { for (int j = 0; j < i; j++) generic_function_axpy(-generic_function_inner(g[k][j], h), g[k][j], h); double m = generic_function_inner(h, h); if (!(m > 1e-6)) { for (size_t q = 0; q <= k; q++) for (int j = 0; j < (q == k ? i : 3); j++) generic_function_free(g[q][j]); generic_function_free(h); return; } generic_function_scale(1 / sqrt(m), h); }
        g[k][i] = h;
    }
    int sc = -(int)sim_choose(6) + 2; double S = pow(10, sc), eps = pow(10, -2 - (double)sim_choose(9)); while (eps / S > 1e-3) eps /= 10; double margin = sim_choose(4) ? 1 + pow(10, sim_double(-1.7, -0.2)) : sim_double(0.3, 0.99), c = sqrt(margin * eps * S / sqrt((double)d - 1)); struct FunctionTrain *f = NULL; if (c < 3e-6) { eps *= pow(3e-6 / c, 2); c = 3e-6; } if (sim_flip(1, 4)) { S = pow(10, -sim_double(2, 4.7)); c = 0.3 * S; eps = 1e-12; }
    for (size_t t = 0; t < d; t++) {       /* t == 0: the product; otherwise the term between t - 1 and t */
        struct FunctionTrain *h = function_train_alloc(d); for (size_t k = 0; k <= d; k++) h->ranks[k] = 1; for (size_t k = 0; k < d; k++) { h->cores[k] = qmarray_alloc(1, 1); h->cores[k]->funcs[0] = generic_function_copy(g[k][t && k == t - 1 ? 1 : t && k == t ? 2 : 0]); } function_train_scale(h, t ? c : S);
        if (!f) f = h; else { struct FunctionTrain *n = function_train_sum(f, h); function_train_free(f); function_train_free(h); f = n; }
    }
    sim_log("edge of rounding: scale %g eps %g margin %g", S, eps, margin); round_check(z, f, eps, 1e-7 * S + 3e-7, "edge"); function_train_free(f); for (size_t k = 0; k < d; k++) for (int i = 0; i < 3; i++) generic_function_free(g[k][i]); sim_probe("ft.round_edge");
}
static void op1(struct sess *z)
{
    size_t d = z->d; unsigned op = (unsigned)sim_choose(24); int a = anyslot(z), b = anyslot(z), t = (int)sim_choose(FS); double v[FK], e[FK]; memset(e, 0, sizeof e); if (a < 0) op = 0;
    struct slot *A = a >= 0 ? &z->s[a] : NULL, *B = b >= 0 ? &z->s[b] : NULL; struct FunctionTrain *ft = NULL; char w[64]; double eps = (double[]){ 1e-20, 1e-16, 1e-10 }[sim_choose(3)];
    switch (op) {
    case 0: { ft = newft(z); for (size_t p = 0; p < FK; p++) v[p] = ref_ft_eval(ft, z->x[p]); sim_log("s%d = new", t); put(z, t, ft, v, NULL, 3, "new"); break; }
    case 1: {
        double c = sim_choose(3) ? gen_coeff() : 0; unsigned k = (unsigned)sim_choose(2); sim_log("s%d = constant %g", t, c);
        if (k) ft = function_train_constant(c, M); else { size_t r[FD + 1]; for (size_t i = 0; i <= d; i++) r[i] = i == 0 || i == d ? 1 : sim_range(1, 3); ft = function_train_zeros(M, r); c = 0; for (size_t i = 0; i <= d; i++) SIM_CHECK(ft->ranks[i] == r[i], "ft-form", "zeros: rank %zu", i); }
        for (size_t p = 0; p < FK; p++) v[p] = c; put(z, t, ft, v, NULL, 1, "constant"); break; }
    case 2: case 3: {
        struct f1 f = { .z = z }; int lin = (int)sim_choose(2), ldc = (int)sim_range(1, 3), lda = (int)sim_range(1, 3); double c[FD * 3], o[FD * 3], Q[FD * FD], mm[FD]; unsigned k = (unsigned)sim_choose(6);
        for (size_t i = 0; i < FD * 3; i++) { c[i] = 1e30; o[i] = 1e30; }
        for (size_t i = 0; i < d; i++) { f.a[i] = gen_coeff(); f.b[i] = gen_coeff(); f.c[i] = lin ? 0 : gen_coeff(); c[i * (size_t)ldc] = f.b[i]; o[i * (size_t)lda] = f.a[i]; mm[i] = gen_coeff(); for (size_t j = 0; j < d; j++) Q[i * d + j] = gen_coeff(); }
        if (k < 2) {
            struct Fwrap *fw = fwrap_create(1, "mo-vec"); fwrap_set_mofvec(fw, f1cb, &f); ft = k ? function_train_initsum(M, fw) : function_train_rankone(M, fw); fwrap_destroy(fw);
            for (size_t p = 0; p < FK; p++) { v[p] = k ? 0 : 1; double s = 1; for (size_t i = 0; i < d; i++) { double q = f1v(&f, i, z->x[p][i]); if (k) v[p] += q; else v[p] *= q; s *= 10 + fabs(q); } e[p] = 1e-9 * s; }
            sprintf(w, k ? "initsum" : "rankone"); sim_probe("ft.from_1d");
        } else if (k == 2 && z->lin) {
            ft = function_train_linear(c, (size_t)ldc, o, (size_t)lda, M); sprintf(w, "linear");
            if (z->quad && sim_choose(2)) { for (size_t i = 0; i < d; i++) { f.a[i] = gen_coeff(); f.b[i] = gen_coeff(); c[i * (size_t)ldc] = f.b[i]; o[i * (size_t)lda] = f.a[i]; } function_train_linear_update(ft, c, (size_t)ldc, o, (size_t)lda); sprintf(w, "linear_update"); }
            for (size_t p = 0; p < FK; p++) { v[p] = 0; for (size_t i = 0; i < d; i++) v[p] += f.a[i] + f.b[i] * z->x[p][i]; }
        } else if (k == 3 && z->lin && d > 1) {
            ft = function_train_rankone_prod(f.b, M); sprintf(w, "rankone_prod"); for (size_t p = 0; p < FK; p++) { v[p] = 1; for (size_t i = 0; i < d; i++) v[p] *= f.b[i] * z->x[p][i]; e[p] = 1e-9; }
        } else if (k == 4 && z->quad && d > 1) {
            ft = function_train_quadratic(Q, mm, M); sprintf(w, "quadratic"); for (size_t p = 0; p < FK; p++) { v[p] = 0; for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) v[p] += Q[i * d + j] * (z->x[p][i] - mm[i]) * (z->x[p][j] - mm[j]); e[p] = 1e-9; }
        } else if (k == 5 && z->quad) {
            ft = function_train_quadratic_aligned(f.b, mm, M); sprintf(w, "quadratic_aligned"); for (size_t p = 0; p < FK; p++) { v[p] = 0; for (size_t i = 0; i < d; i++) v[p] += f.b[i] * (z->x[p][i] - mm[i]) * (z->x[p][i] - mm[i]); e[p] = 1e-9; }
        } else break;
        sim_log("s%d = %s", t, w); sim_probe("ft.closed_form"); put(z, t, ft, v, e, 3, w); break; }
    case 4: if (t == a) break; sim_log("s%d = copy s%d", t, a); ft = function_train_copy(T[a]); SIM_CHECK(ft_hash(ft) == H[a], "ft-copy", "a copy differs from its original"); put(z, t, ft, A->v, A->err, A->deg, "copy"); break;
    case 5: case 6: {
        for (size_t k = 1; k < d; k++) if (A->r[k] + B->r[k] > MAXR) return;
        sim_log("s%d = s%d + s%d", t, a, b); ft = function_train_sum(T[a], T[b]); for (size_t p = 0; p < FK; p++) { v[p] = A->v[p] + B->v[p]; e[p] = A->err[p] + B->err[p]; }
        put(z, t, ft, v, e, A->deg > B->deg ? A->deg : B->deg, "sum"); sim_probe("ft.sum"); break; }
    case 7: case 8: {
        for (size_t k = 1; k < d; k++) if (A->r[k] * B->r[k] > MAXR) return;
        if (A->deg + B->deg > 12 || !sized(T[a]) || !sized(T[b])) return;
        sim_log("s%d = s%d * s%d", t, a, b); ft = function_train_product(T[a], T[b]);
        for (size_t p = 0; p < FK; p++) { v[p] = A->v[p] * B->v[p]; e[p] = fabs(A->v[p]) * B->err[p] + fabs(B->v[p]) * A->err[p] + A->err[p] * B->err[p]; if (e[p] > 1e10) { function_train_free(ft); return; } }
        put(z, t, ft, v, e, A->deg + B->deg, "product"); sim_probe("ft.product"); break; }
    case 9: { double c = gen_coeff(); sim_log("s%d *= %g", a, c); function_train_scale(T[a], c); for (size_t p = 0; p < FK; p++) { v[p] = c * A->v[p]; e[p] = fabs(c) * A->err[p]; } ft = T[a]; T[a] = NULL; put(z, a, ft, v, e, A->deg, "scale"); break; }
    case 10: case 11: {
        if (a == b) return;
        for (size_t k = 1; k < d; k++) if (A->r[k] + B->r[k] > MAXR) return;
        double c = gen_coeff(), E = sim_choose(2) ? 0 : eps; size_t r[FD + 1]; for (size_t k = 0; k <= d; k++) r[k] = k == 0 || k == d ? 1 : A->r[k] + B->r[k];
        if (E > 0 && !room(z, r)) E = 0;
        double n = nrm(T[a]) * fabs(c) + nrm(T[b]); sim_log("s%d += %g s%d (round %g)", b, c, a, E); ft = T[b]; T[b] = NULL; c3axpy(c, T[a], &ft, E, M);
        for (size_t p = 0; p < FK; p++) { v[p] = c * A->v[p] + B->v[p]; e[p] = fabs(c) * A->err[p] + B->err[p] + (E > 0 ? round_err(n, E) : 0); }
        put(z, b, ft, v, e, A->deg > B->deg ? A->deg : B->deg, "axpy"); break; }
    case 22: if (!room(z, A->r) || d < 2 || !solid(z, T[a])) return; { double E = pow(10, -2 - (double)sim_choose(8)), n = nrm(T[a]); if (n < 1e-8 || n > 1e6) return; sim_log("round s%d to %g", a, E); round_check(z, T[a], E, 1e-6 * n + 1e-6, "train"); SIM_CHECK(ft_hash(T[a]) == H[a], "ft-argument", "rounding changed its argument"); sim_probe("ft.round_coarse"); } break;
    case 23: round_edge(z); break;
    case 12: case 13: case 14: {
        if (!room(z, A->r)) return;
        double n = nrm(T[a]); unsigned k = (unsigned)sim_choose(4); size_t mr = k == 1 ? maxr(A) + sim_choose(2) : 100; for (size_t p = 0; p < FK; p++) { v[p] = A->v[p]; e[p] = A->err[p] + round_err(n, k == 3 ? 0 : eps); }
        sim_log("s%d = round%u s%d %g", t, k, a, eps); if (k == 1) ft = function_train_round_maxrank_all(T[a], eps, M, mr); else if (k == 3) { struct FunctionTrain *c = function_train_copy(T[a]); ft = function_train_orthor(c, M); function_train_free(c); } else ft = function_train_round(T[a], eps, M);
        SIM_CHECK(ft_hash(T[a]) == H[a], "ft-argument", "rounding changed its argument");
        for (size_t q = 0; q <= d; q++) SIM_CHECK(ft->ranks[q] <= A->r[q], "ft-rank", "rounding raised rank %zu from %zu to %zu", q, A->r[q], ft->ranks[q]);
        if (k == 2 && n > 1e-4 && n < 1e4 && eps > 1e-18) {      /* adding a train to itself adds nothing to its rank */
            size_t r[FD + 1]; for (size_t q = 0; q <= d; q++) r[q] = q == 0 || q == d ? 1 : 2 * ft->ranks[q];
            if (room(z, r)) {
                struct FunctionTrain *s2 = function_train_sum(ft, ft), *r2 = function_train_round(s2, eps, M);
                for (size_t q = 0; q <= d; q++) SIM_CHECK(r2->ranks[q] <= ft->ranks[q], "ft-rank", "rounding f+f leaves rank %zu at %zu, f has %zu", q, r2->ranks[q], ft->ranks[q]);
                double v2[FK], e2[FK]; for (size_t p = 0; p < FK; p++) { v2[p] = 2 * v[p]; e2[p] = 2 * e[p] + round_err(2 * n, eps); } want(z, r2, v2, e2, "rounded f+f"); function_train_free(s2); function_train_free(r2); sim_probe("ft.rank_reduced");
            }
        }
        put(z, t, ft, v, e, A->deg, "round"); sim_probe("ft.round"); break; }
    case 15: {
        size_t mr = sim_range(1, maxr(A)); if (!room(z, A->r)) return; sim_log("cap rank of s%d at %zu", a, mr); ft = function_train_round_maxrank_all(T[a], 1e-16, M, mr);
        for (size_t q = 0; q <= d; q++) SIM_CHECK(ft->ranks[q] <= mr, "ft-rank", "rank %zu is %zu although %zu was the maximum", q, ft->ranks[q], mr);
        double n0 = nrm(T[a]); double n1 = nrm(ft), nd = function_train_norm2diff(T[a], ft); int ok = solid(z, T[a]); if (ok) SIM_CHECK(n1 <= n0 * (1 + 1e-6) + round_err(n0, 1e-16), "ft-rank", "truncation enlarged the norm");
        if (ok) SIM_CHECK(fabs(n0 * n0 - n1 * n1 - nd * nd) <= 1e-5 * n0 * n0 + n0 * round_err(n0, 1e-16), "ft-rank", "truncation is no projection: norms %g before, %g after, %g between", n0, n1, nd);
        size_t rs[FD + 1]; int fit = a != b && d > 1 && ok && solid(z, T[b]); for (size_t k = 0; k <= d; k++) { rs[k] = k == 0 || k == d ? 1 : A->r[k] + B->r[k]; if (rs[k] > MAXR) fit = 0; }
        if (fit && room(z, rs)) {                 /* a function close to one of low rank is cut to nearly that distance */
            double nb = nrm(T[b]), c = 1e-3 * (n0 + 1e-12) / (nb + 1e-12); if (nb > 1e-9 && nb < 1e9 && n0 > 1e-9) {
                struct FunctionTrain *sc = function_train_copy(T[b]); function_train_scale(sc, c); struct FunctionTrain *sm = function_train_sum(T[a], sc), *cut = function_train_round_maxrank_all(sm, 1e-16, M, maxr(A)); double e2 = function_train_norm2diff(sm, cut);
                SIM_CHECK(e2 <= 1.01 * sqrt((double)d - 1) * c * nb + round_err(n0, 1e-16), "ft-rank", "cut to rank %zu a function is changed by %g although one of that rank lies within %g", maxr(A), e2, c * nb);
                function_train_free(sc); function_train_free(sm); function_train_free(cut); sim_probe("ft.rank_near");
            }
        }
        for (size_t p = 0; p < FK; p++) v[p] = ref_ft_eval(ft, z->x[p]); want(z, ft, v, NULL, "cap"); function_train_free(ft); SIM_CHECK(ft_hash(T[a]) == H[a], "ft-argument", "rounding changed its argument"); sim_probe("ft.rank_capped"); break; }
    case 16: case 17: {
        double ab, r, g; unsigned k = (unsigned)sim_choose(6); if (maxr(A) * maxr(B) > 36) return;
        if (k == 0) { r = ref_int(z, T[a], NULL, ~0u, 0, NULL, &ab); g = function_train_integrate(T[a]); }
        else if (k < 4) { r = ref_int(z, T[a], T[b], ~0u, 0, NULL, &ab); g = k == 1 ? (sim_choose(2) ? c3dot(T[a], T[b]) : function_train_inner(T[a], T[b])) : k == 2 ? function_train_inner2(T[a], T[b]) : function_train_inner_rl(T[a], T[b]); }
        else {
            double xx, yy, xy, c1, c2, c3; xx = ref_int(z, T[a], T[a], ~0u, 0, NULL, &c1); yy = ref_int(z, T[b], T[b], ~0u, 0, NULL, &c2); xy = ref_int(z, T[a], T[b], ~0u, 0, NULL, &c3);
            ab = c1 + c2 + 2 * c3; r = xx - 2 * xy + yy; g = k == 4 ? function_train_norm2diff(T[a], T[b]) : function_train_relnorm2diff(T[a], T[b]); if (k == 5) { if (yy < 1e-6 * (1 + c2)) return; g *= sqrt(yy); } g *= g;
        }
        sim_log("integral%u s%d s%d", k, a, b); SIM_CHECK(fabs(g - r) <= 1e-9 * ab + 1e-13, "ft-integral", "integral kind %u is %.17g, the reference is %.17g (scale %.3g)", k, g, r, ab); sim_probe("ft.integral"); break; }
    case 18: {
        if (!z->quad || d < 2) return;
        unsigned mask = 0; size_t dims[FD], n = 0; for (size_t k = 0; k < d; k++) if (sim_choose(2) && n + 1 < d) { mask |= 1u << k; dims[n++] = k; }
        if (!n) return;
        size_t *dc = calloc(n, sizeof *dc); memcpy(dc, dims, n * sizeof *dc); sim_log("integrate s%d over mask %x", a, mask); ft = function_train_integrate_weighted_subset(T[a], n, dc); free(dc); SIM_CHECK(ft->dim == d - n, "ft-marginal", "%zu dimensions left", ft->dim);
        for (size_t k = 0; k < ft->dim; k++) SIM_CHECK(ft->cores[k] && ft->ranks[k] == ft->cores[k]->nrows && ft->ranks[k + 1] == ft->cores[k]->ncols, "ft-form", "marginal: ranks and cores disagree");
        for (size_t p = 0; p < FK; p++) { double y[FD], ab; size_t q = 0; for (size_t k = 0; k < d; k++) if (!(mask >> k & 1)) y[q++] = z->x[p][k]; double r = ref_int(z, T[a], NULL, mask, 1, z->x[p], &ab), g = function_train_eval(ft, y); SIM_CHECK(fabs(g - r) <= 1e-9 * ab + 1e-13, "ft-marginal", "marginal over mask %x is %.17g, the reference is %.17g", mask, g, r); }
        function_train_free(ft); sim_probe("ft.marginal"); break; }
    case 19: {
        for (size_t k = 0; k < d; k++) if (z->cls[k] == G_LEG) return;      /* offered for node-based classes only */
        size_t N[FD]; double *xx[FD]; for (size_t k = 0; k < d; k++) { N[k] = z->cls[k] == G_LEG ? FK + 2 : z->N[k]; xx[k] = calloc_double(N[k]); if (z->cls[k] == G_LEG) { xx[k][0] = z->lb[k]; xx[k][N[k] - 1] = z->ub[k]; for (size_t p = 0; p < FK; p++) xx[k][p + 1] = z->x[p][k]; for (size_t i = 1; i < N[k]; i++) for (size_t j = i; j && xx[k][j] < xx[k][j - 1]; j--) { double s = xx[k][j]; xx[k][j] = xx[k][j - 1]; xx[k][j - 1] = s; } size_t m = 1; for (size_t i = 1; i < N[k]; i++) if (xx[k][i] - xx[k][m - 1] > 1e-9) xx[k][m++] = xx[k][i]; N[k] = m; } else memcpy(xx[k], z->nodes[k], N[k] * 8); }
        sim_log("nodal s%d", a); ft = function_train_create_nodal(T[a], N, xx); for (size_t k = 0; k < d; k++) free(xx[k]);
        for (size_t p = 0; p < FK; p++) { double q, ab = ft_abs(T[a], z->x[p], &q), g = function_train_eval(ft, z->x[p]); SIM_CHECK(fabs(g - q) <= 1e-7 * ab + 1e-13, "ft-nodal", "nodal form gives %.17g at a node where the original gives %.17g", g, q); }
        function_train_free(ft); sim_probe("ft.nodal"); break; }
    case 20: {
        char nm[8]; sprintf(nm, "s%d", a); sim_log("save s%d, load as s%d", a, t); SIM_CHECK(function_train_save(T[a], nm) == 1, "ft-save", "save failed"); ft = function_train_load(nm); SIM_CHECK(ft && ft_hash(ft) == H[a], "ft-save", "the loaded train differs"); double er[FK]; memcpy(er, A->err, sizeof er); memcpy(v, A->v, sizeof v); put(z, t, ft, v, er, A->deg, "load"); break; }
    default: sim_log("free s%d", a); function_train_free(T[a]); T[a] = NULL; z->s[a].used = 0; break;
    }
}
/* one operation on arrays of trains made from copies of the pool */
static void op2(struct sess *z)
{
    int src[3], ys[3], zi = anyslot(z); size_t n = sim_range(1, 3), d = z->d; if (zi < 0) return;
    size_t incx = sim_range(1, 2), incy = sim_range(1, 2), m = sim_range(1, 2); unsigned op = (unsigned)sim_choose(8); double al = gen_coeff(), be = sim_choose(3) ? gen_coeff() : 1.0, A[9], eps = sim_choose(3) ? 0 : 1e-16;
    for (size_t i = 0; i < 3; i++) { src[i] = anyslot(z); ys[i] = anyslot(z); }
    for (int i = 0; i < 9; i++) A[i] = gen_coeff();
    for (size_t k = 0; k <= d; k++) { size_t s = z->s[zi].r[k], q = 0; for (size_t i = 0; i < n; i++) { s += op == 4 || op == 6 || op == 5 ? z->s[src[i]].r[k] * z->s[ys[i]].r[k] : z->s[src[i]].r[k]; q = z->s[ys[i]].r[k] > q ? z->s[ys[i]].r[k] : q; } if (k && k < d && s + q > 12) return; }
    for (size_t i = 0; i < 3; i++) if (z->s[src[i]].deg + z->s[ys[i]].deg > 12 || !sized(T[src[i]]) || !sized(T[ys[i]])) return;
    if (eps > 0) { size_t r[FD + 1]; for (size_t k = 0; k <= d; k++) r[k] = k == 0 || k == d ? 1 : 12; if (!room(z, r)) eps = 0; }
    struct FT1DArray *x = ft1d_array_alloc(n * incx), *y = ft1d_array_alloc(4 * incy); double nx = 0, v[FK], e[FK];
    for (size_t i = 0; i < n * incx; i++) { int s = i % incx ? zi : src[i / incx]; x->ft[i] = function_train_copy(T[s]); nx += nrm(T[s]); }
    for (size_t i = 0; i < 4 * incy; i++) { size_t q = i / incy; int s = i % incy ? zi : q < 3 ? ys[q] : zi; y->ft[i] = function_train_copy(T[s]); nx += nrm(T[s]); }
    uint64_t hx[8], hy[8]; for (size_t i = 0; i < x->size; i++) hx[i] = ft_hash(x->ft[i]);
    for (size_t i = 0; i < y->size; i++) hy[i] = ft_hash(y->ft[i]);
    unsigned touched = 0; double R = eps > 0 ? 8 * round_err((1 + nx) * (1 + nx) * 10, eps) : 0; sim_log("array op %u n %zu incx %zu incy %zu eps %g", op, n, incx, incy, eps);
    #define XV(i) z->s[src[i]].v[p]
    #define YV(i) z->s[ys[i]].v[p]
    #define XE(i) z->s[src[i]].err[p]
    #define YE(i) z->s[ys[i]].err[p]
    switch (op) {
    case 0: { ft1d_array_scale(y, n, incy, al); for (size_t i = 0; i < n; i++) { touched |= 1u << (i * incy); for (size_t p = 0; p < FK; p++) { v[p] = al * YV(i); e[p] = fabs(al) * YE(i); } want(z, y->ft[i * incy], v, e, "array scale"); } break; }
    case 1: { c3vaxpy(n, al, x, incx, &y, incy, eps, M); for (size_t i = 0; i < n; i++) { touched |= 1u << (i * incy); for (size_t p = 0; p < FK; p++) { v[p] = al * XV(i) + YV(i); e[p] = fabs(al) * XE(i) + YE(i) + R; } want(z, y->ft[i * incy], v, e, "vaxpy"); } break; }
    case 2: case 3: { size_t inc = sim_range(1, 3); double Y[9]; for (int i = 0; i < 9; i++) Y[i] = (size_t)i % inc ? 1e30 : A[(size_t)i / inc]; struct FunctionTrain *r = function_train_copy(T[zi]); c3vaxpy_arr(n, al, x, incx, Y, inc, be, &r, eps, M); for (size_t p = 0; p < FK; p++) { v[p] = be * z->s[zi].v[p]; e[p] = fabs(be) * z->s[zi].err[p] + R; for (size_t i = 0; i < n; i++) { v[p] += al * A[i] * XV(i); e[p] += fabs(al * A[i]) * XE(i); } } want(z, r, v, e, "vaxpy_arr"); function_train_free(r); break; }
    case 4: { struct FunctionTrain *r = function_train_copy(T[zi]); c3vprodsum(n, al, x, incx, y, incy, be, &r, eps, M); for (size_t p = 0; p < FK; p++) { v[p] = be * z->s[zi].v[p]; e[p] = fabs(be) * z->s[zi].err[p] + R; for (size_t i = 0; i < n; i++) { v[p] += al * XV(i) * YV(i); e[p] += fabs(al) * (XE(i) * fabs(YV(i)) + YE(i) * fabs(XV(i)) + XE(i) * YE(i)); } } want(z, r, v, e, "vprodsum"); function_train_free(r); break; }
    case 5: { struct FunctionTrain *r = function_train_copy(T[zi]); c3gemv(al, n, x, incx, y->ft[0], be, r, eps, M); for (size_t p = 0; p < FK; p++) { v[p] = be * z->s[zi].v[p]; e[p] = fabs(be) * z->s[zi].err[p] + R; for (size_t i = 0; i < n; i++) { v[p] += al * XV(i) * YV(0); e[p] += fabs(al) * (XE(i) * fabs(YV(0)) + YE(0) * fabs(XV(i)) + XE(i) * YE(0)); } } want(z, r, v, e, "gemv"); function_train_free(r); break; }
    case 6: {   /* matrix of trains, column-major with leading dimension 2: element (i,j) is source (i+2j) mod 3 */
        struct FT1DArray *Am = ft1d_array_alloc(2 * n); for (size_t i = 0; i < 2 * n; i++) Am->ft[i] = function_train_copy(T[src[i % n]]);
        c3vgemv(m, n, al, Am, 2, x, incx, be, &y, incy, eps, M);
        for (size_t i = 0; i < m; i++) { touched |= 1u << (i * incy); for (size_t p = 0; p < FK; p++) { v[p] = be * YV(i); e[p] = fabs(be) * YE(i) + R; for (size_t j = 0; j < n; j++) { size_t q = (i + 2 * j) % n; v[p] += al * XV(q) * XV(j); e[p] += fabs(al) * (XE(q) * fabs(XV(j)) + XE(j) * fabs(XV(q)) + XE(q) * XE(j)); } } want(z, y->ft[i * incy], v, e, "vgemv"); }
        ft1d_array_free(Am); break; }
    default: { int tr = (int)sim_choose(2); size_t ld = 3; c3vgemv_arr(tr, m, n, al, A, ld, x, incx, be, &y, incy, eps, M);
        for (size_t i = 0; i < m; i++) { touched |= 1u << (i * incy); for (size_t p = 0; p < FK; p++) { v[p] = be * YV(i); e[p] = fabs(be) * YE(i) + R; for (size_t j = 0; j < n; j++) { double q = al * (tr ? A[j + i * ld] : A[i + j * ld]); v[p] += q * XV(j); e[p] += fabs(q) * XE(j); } } want(z, y->ft[i * incy], v, e, "vgemv_arr"); } break; }
    }
    for (size_t i = 0; i < x->size; i++) SIM_CHECK(ft_hash(x->ft[i]) == hx[i], "ft-argument", "array operation %u changed its argument", op);
    for (size_t i = 0; i < y->size; i++) if (!(touched >> i & 1)) SIM_CHECK(ft_hash(y->ft[i]) == hy[i], "ft-argument", "array operation %u changed element %zu, which it does not address", op, i);
    double *ev = ft1d_array_eval(y, z->x[0]); double ev2[8]; ft1d_array_eval2(y, z->x[0], ev2); for (size_t i = 0; i < y->size; i++) SIM_CHECK(same_bits(ev[i], function_train_eval(y->ft[i], z->x[0])) && same_bits(ev[i], ev2[i]), "ft-eval", "array evaluation differs from the element's"); free(ev);
    struct FT1DArray *c = ft1d_array_copy(y); SIM_CHECK(c->size == y->size, "ft-copy", "array copy has another size"); ft1d_array_free(y); ft1d_array_free(x); for (size_t i = 0; i < c->size; i++) if (!(touched >> i & 1)) SIM_CHECK(ft_hash(c->ft[i]) == hy[i], "ft-copy", "array copy differs"); ft1d_array_free(c); sim_probe("ft.array_op");
    if (z->quad && sim_choose(2)) {           /* derivatives of polynomial trains */
        struct FunctionTrain *f = T[zi]; struct FT1DArray *g = function_train_gradient(f), *h = function_train_hessian(f), *hd = function_train_hessian_diag(f); SIM_CHECK(g->size == d && h->size == d * d && hd->size == d, "ft-derivative", "sizes");
        for (size_t p = 0; p < FK; p++) {
            double y0[FD], gr[FD], ab; memcpy(y0, z->x[p], sizeof y0); for (size_t k = 0; k < d; k++) { double hh = 1e-3 * (z->ub[k] - z->lb[k]); if (y0[k] < z->lb[k] + 2 * hh) y0[k] += 2 * hh; if (y0[k] > z->ub[k] - 2 * hh) y0[k] -= 2 * hh; }
            function_train_gradient_eval(f, y0, gr); ab = ft_abs(f, y0, NULL); for (size_t k = 0; k < d; k++) { double yy[FD]; memcpy(yy, y0, sizeof yy); yy[k] = z->ub[k]; ab = fmax(ab, ft_abs(f, yy, NULL)); yy[k] = z->lb[k]; ab = fmax(ab, ft_abs(f, yy, NULL)); }
            for (size_t k = 0; k < d; k++) {
                double hh = 1e-3 * (z->ub[k] - z->lb[k]), yy[FD], f2, f1, m1, m2, f0 = ref_ft_eval(f, y0); memcpy(yy, y0, sizeof yy); yy[k] = y0[k] + hh; f1 = ref_ft_eval(f, yy); yy[k] = y0[k] + 2 * hh; f2 = ref_ft_eval(f, yy); yy[k] = y0[k] - hh; m1 = ref_ft_eval(f, yy); yy[k] = y0[k] - 2 * hh; m2 = ref_ft_eval(f, yy);
                double fd = (8 * (f1 - m1) - (f2 - m2)) / (12 * hh), fdd = (16 * (f1 + m1) - (f2 + m2) - 30 * f0) / (12 * hh * hh), L = z->ub[k] - z->lb[k], tol = 1e-4 * ab / L + 1e-9, tol2 = 3e-2 * ab / (L * L) + 1e-6, gg = function_train_eval(g->ft[k], y0), d2 = function_train_eval(hd->ft[k], y0), hh2 = function_train_eval(h->ft[k * d + k], y0);
                SIM_CHECK(fabs(gg - fd) <= tol && fabs(gr[k] - fd) <= tol, "ft-derivative", "derivative %zu is %.12g (train) and %.12g (evaluated), differences give %.12g", k, gg, gr[k], fd);
                SIM_CHECK(fabs(d2 - fdd) <= tol2 && fabs(hh2 - fdd) <= tol2, "ft-derivative", "second derivative %zu is %.12g and %.12g, differences give %.12g", k, d2, hh2, fdd);
                for (size_t j = 0; j < d; j++) { double u = function_train_eval(h->ft[k * d + j], y0), w = function_train_eval(h->ft[j * d + k], y0); SIM_CHECK(fabs(u - w) <= 1e-6 * (fabs(u) + ab / L / L * 1000), "ft-derivative", "mixed derivatives %zu,%zu are %.12g and %.12g", k, j, u, w); }
            }
        }
        ft1d_array_free(g); ft1d_array_free(h); ft1d_array_free(hd); sim_probe("ft.derivative");
    }
}
void scn_ftalgebra(int inc)
{
    struct sess *z = sim_state(sizeof *z); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark(); memset(T, 0, sizeof T);
    if (!z->started) {
        z->started = 1; z->d = sim_flip(1, 20) ? sim_range(5, FD) : sim_range(1, 4); if (z->d > 4) sim_probe("ft.many_variables"); z->lin = z->quad = 1;
        int same = (int)sim_choose(2), c0 = (int)sim_choose(3);
        for (size_t k = 0; k < z->d; k++) {
            z->cls[k] = ((enum gen_cls[]){ G_LEG, G_LIN, G_CONST })[same ? c0 : (int)sim_choose(3)]; z->lb[k] = sim_choose(2) ? sim_double(-3, 2) : -1.0; z->ub[k] = z->lb[k] + (sim_choose(2) ? sim_double(0.5, 3) : 2.0);
            z->N[k] = sim_range(3, FN); gen_nodes(z->N[k], z->lb[k], z->ub[k], z->nodes[k]); if (z->cls[k] == G_CONST) z->lin = 0; if (z->cls[k] != G_LEG) z->quad = 0;
            for (size_t p = 0; p < FK; p++) z->x[p][k] = z->cls[k] == G_LEG ? sim_double(z->lb[k], z->ub[k]) : z->nodes[k][sim_choose(z->N[k])];
        }
        z->ops = sim_range(3, 16);
    }
    sim_nontrivial(); mkM(z);
    if (inc) for (int i = 0; i < FS; i++) if (z->s[i].used) { char nm[8]; sprintf(nm, "p%d", i); struct FunctionTrain *ft = function_train_load(nm); SIM_CHECK(ft, "ft-save", "train s%d cannot be loaded after the restart", i); double v[FK], e[FK]; memcpy(v, z->s[i].v, sizeof v); memcpy(e, z->s[i].err, sizeof e); put(z, i, ft, v, e, z->s[i].deg, "restart"); sim_probe("ft.restart"); }
    while (z->op++ < z->ops) {
        uint64_t h0[FS]; struct FunctionTrain *t0[FS]; memcpy(h0, H, sizeof H); memcpy(t0, T, sizeof T);
        if (sim_flip(1, 20)) { for (int i = 0; i < FS; i++) if (T[i]) { char nm[8]; sprintf(nm, "p%d", i); SIM_CHECK(function_train_save(T[i], nm) == 1, "ft-save", "save failed"); } sim_log("crash"); sim_crash(); }
        if (sim_flip(1, 3)) op2(z); else op1(z);
        for (int i = 0; i < FS; i++) if (T[i] && T[i] == t0[i] && H[i] == h0[i]) SIM_CHECK(ft_hash(T[i]) == H[i], "ft-alias", "s%d was changed by an operation on other trains", i);
    }
    for (int i = 0; i < FS; i++) if (T[i]) { want(z, T[i], z->s[i].v, z->s[i].err, "end of session"); function_train_free(T[i]); T[i] = NULL; }
    freeM(z); char rep[400]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "ft-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep);
    sim_sample("%zu variables, first class %s, %zu operations", z->d, gen_cls_name[z->cls[0]], z->ops);
}

/* ---- evaluators on much-used trains ----------------------------------------------- */
#define ED 12
#define EN 60
#define EV 300
struct es { struct FunctionTrain *ft; size_t d, N[ED]; int nodal, params, deriv; enum gen_cls cls[ED]; double nodes[ED][EN], lb[ED], ub[ED]; const char *who; size_t ops; };
static void same_or_die(struct es *s, double got, double fresh, const double *x, const char *what)
{
    double v, a = ft_abs(s->ft, x, &v);
    SIM_CHECK(fabs(got - v) <= 1e-11 * a + 1e-300, "eval-value", "%s: %s gives %.17g, the cores give %.17g", s->who, what, got, v);
    SIM_CHECK(same_bits(got, fresh), "eval-history", "%s: %s gives %a, on a fresh copy %a", s->who, what, got, fresh);
}
static void at_node(struct es *s, const size_t *ind, double *x) { for (size_t k = 0; k < s->d; k++) x[k] = s->nodes[k][ind[k]]; }
static void esession(void *arg)
{
    struct es *s = arg; unsigned wide = sim_flip(1, 6) ? 1 + (unsigned)sim_choose(3) : 0; /* many variables, large ranks or many nodes */ gen_large = 1; size_t d = s->d = wide == 1 ? sim_range(5, ED) : sim_range(1, wide == 3 ? 2 : 4); s->nodal = (int)sim_choose(2); s->params = s->deriv = 1; int same = (int)sim_choose(2), c0 = (int)sim_choose(G_NCLS);
    struct FunctionTrain *ft = function_train_alloc(d); ft->ranks[0] = ft->ranks[d] = 1; for (size_t k = 1; k < d; k++) ft->ranks[k] = wide == 2 ? sim_range(5, 12) : sim_range(1, wide ? 3 : 4);
    for (size_t k = 0; k < d; k++) {
        s->lb[k] = sim_choose(2) ? -1.0 : sim_double(-3, 2); s->ub[k] = s->lb[k] + (sim_choose(2) ? 2.0 : sim_double(0.5, 3)); s->N[k] = wide == 3 ? sim_range(9, EN) : sim_range(2, wide ? 4 : 8); gen_nodes(s->N[k], s->lb[k], s->ub[k], s->nodes[k]);
        s->cls[k] = s->nodal ? (sim_choose(2) ? G_CONST : G_LIN) : (enum gen_cls)(same ? c0 : (int)sim_choose(G_NCLS)); if (s->cls[k] == G_PW) s->params = 0; if (s->cls[k] == G_PW || s->cls[k] == G_HERM || s->cls[k] == G_CHEB) s->deriv = 0;
        ft->cores[k] = qmarray_alloc(ft->ranks[k], ft->ranks[k + 1]);
        for (size_t j = 0; j < ft->ranks[k] * ft->ranks[k + 1]; j++) {
            if (!s->nodal) { ft->cores[k]->funcs[j] = gen_func(s->cls[k], s->lb[k], s->ub[k], 1); continue; }
            double y[EN]; for (size_t i = 0; i < s->N[k]; i++) y[i] = gen_coeff(); struct GenericFunction *g = generic_function_alloc(1, s->cls[k] == G_LIN ? LINELM : CONSTELM); g->fargs = NULL;
            if (s->cls[k] == G_LIN) g->f = lin_elem_exp_init(s->N[k], s->nodes[k], y); else g->f = const_elem_exp_init(s->N[k], s->nodes[k], y); ft->cores[k]->funcs[j] = g;
        }
    }
    s->ft = ft; s->ops = sim_range(2, 14); double last[ED]; sim_log("%s: %zu variables, %s", s->who, d, s->nodal ? "nodal" : gen_cls_name[s->cls[0]]);
    for (size_t op = 0; op < s->ops; op++) {
        sim_yield(); unsigned o = (unsigned)sim_choose(10); double x[8 * ED], out[2 * ED + 9 + EV], out2[2 * ED + 9 + EV]; struct FunctionTrain *c = NULL; uint64_t h = ft_hash(ft); gen_points(8, d, s->lb, s->ub, x); if (sim_flip(1, 4)) for (size_t k = 0; k < d; k++) x[k] = sim_choose(2) ? s->lb[k] : s->ub[k];
        if (op && sim_flip(1, 2)) memcpy(x, last, d * 8);     /* the point of the previous call again */
        memcpy(last, x, d * 8);
        switch (o) {
        case 0: case 1: c = function_train_copy(ft); { double g = function_train_eval(ft, x); sim_log("%s: eval %a", s->who, g); same_or_die(s, g, function_train_eval(c, x), x, "eval"); } break;
        case 2: { size_t n = sim_flip(1, 6) ? sim_range(9, EV) : sim_range(1, 8); double *xn = xcalloc(n * d, 8); memcpy(xn, x, (n < 8 ? n : 8) * d * 8); for (size_t i = 8 * d; i < n * d; i++) { double u = (double)((i * 2654435761u + n) % 4093) / 4092; xn[i] = s->lb[i % d] + u * (s->ub[i % d] - s->lb[i % d]); } c = function_train_copy(ft); out[n] = 9.25; function_train_evals(ft, n, xn, out); SIM_CHECK(out[n] == 9.25, "eval-overrun", "evals wrote behind its result"); for (size_t i = 0; i < n; i++) same_or_die(s, out[i], function_train_eval(c, xn + i * d), xn + i * d, "evals"); xfree(xn); if (n > 8) sim_probe("eval.many_points"); break; }
        case 3: {
            double pert[2 * ED], y[ED]; for (size_t k = 0; k < d; k++) { pert[2 * k] = sim_double(s->lb[k], s->ub[k]); pert[2 * k + 1] = sim_double(s->lb[k], s->ub[k]); }
            c = function_train_copy(ft); double g = function_train_eval_co_perturb(ft, x, pert, out), g2 = function_train_eval_co_perturb(c, x, pert, out2); same_or_die(s, g, g2, x, "eval_co_perturb");
            for (size_t k = 0; k < 2 * d; k++) { memcpy(y, x, d * 8); y[k / 2] = pert[k]; same_or_die(s, out[k], out2[k], y, "perturbed value"); } sim_probe("eval.perturb"); break; }
        case 4: case 5: {
            if (!s->nodal) break;
            size_t ind[ED], pert[2 * ED], alt[ED]; double y[ED]; for (size_t k = 0; k < d; k++) { ind[k] = sim_choose(s->N[k]); pert[2 * k] = sim_choose(s->N[k]); pert[2 * k + 1] = sim_choose(s->N[k]); } at_node(s, ind, y); c = function_train_copy(ft);
            if (o == 4) { same_or_die(s, function_train_eval_ind(ft, ind), function_train_eval_ind(c, ind), y, "eval_ind"); }
            else if (sim_choose(2)) { double g = function_train_eval_co_perturb_ind(ft, ind, pert, out), g2 = function_train_eval_co_perturb_ind(c, ind, pert, out2); same_or_die(s, g, g2, y, "eval_co_perturb_ind"); for (size_t k = 0; k < 2 * d; k++) { memcpy(alt, ind, sizeof alt); alt[k / 2] = pert[k]; at_node(s, alt, y); same_or_die(s, out[k], out2[k], y, "perturbed nodal value"); } }
            else { size_t v = sim_choose(d), n = sim_flip(1, 6) ? sim_range(9, EV) : sim_range(1, 8), w[EV]; for (size_t i = 0; i < n; i++) w[i] = sim_choose(s->N[v]); out[n] = 9.25; function_train_eval_fiber_ind(ft, ind, n, w, v, out); function_train_eval_fiber_ind(c, ind, n, w, v, out2); SIM_CHECK(out[n] == 9.25, "eval-overrun", "fiber evaluation wrote behind its result"); for (size_t i = 0; i < n; i++) { memcpy(alt, ind, sizeof alt); alt[v] = w[i]; at_node(s, alt, y); same_or_die(s, out[i], out2[i], y, "fiber value"); } }
            sim_probe("eval.nodal"); break; }
        case 6: {
            if (!s->deriv) break;
            function_train_gradient_eval(ft, x, out);
            for (size_t k = 0; k < d; k++) {
                double v[16], w[16], a[16], b[16]; v[0] = a[0] = 1; size_t r = 1;
                for (size_t q = 0; q < d; q++) { size_t nc = ft->cores[q]->ncols; for (size_t j = 0; j < nc; j++) { w[j] = b[j] = 0; for (size_t i = 0; i < r; i++) { struct GenericFunction *f = ft->cores[q]->funcs[i + j * r]; double t = q == k ? generic_function_deriv_eval(f, x[q]) : generic_function_1d_eval(f, x[q]); w[j] += v[i] * t; b[j] += a[i] * fabs(t); } } r = nc; memcpy(v, w, r * 8); memcpy(a, b, r * 8); }
                SIM_CHECK(fabs(out[k] - v[0]) <= 1e-11 * a[0] + 1e-300, "eval-gradient", "%s: partial derivative %zu is %.17g, the cores give %.17g", s->who, k, out[k], v[0]);
            }
            sim_probe("eval.gradient"); break; }
        default: {
            if (!s->params) break;
            size_t np = function_train_get_nparams(ft), sum = 0, mx; double *p = xcalloc(np + 1, 8), *q = xcalloc(np + 1, 8), *old = xcalloc(np + 1, 8); p[np] = q[np] = old[np] = 3.5; size_t off[ED + 1]; int kern = 0; for (size_t k = 0; k < d; k++) kern |= s->cls[k] == G_KERNEL;
            for (size_t k = 0; k < d; k++) { off[k] = sum; size_t cn = function_train_core_get_nparams(ft, k, &mx), fs = 0; for (size_t j = 0; j < ft->ranks[k + 1]; j++) for (size_t i = 0; i < ft->ranks[k]; i++) { size_t fn = function_train_func_get_nparams(ft, k, i, j); fs += fn; SIM_CHECK(fn <= mx, "eval-params", "largest function has %zu parameters, another %zu", mx, fn); } SIM_CHECK(fs == cn, "eval-params", "core %zu has %zu parameters, its functions %zu", k, cn, fs); sum += cn; } off[d] = sum;
            SIM_CHECK(sum == np, "eval-params", "%zu parameters in all, the cores have %zu", np, sum); size_t g0 = function_train_get_params(ft, old); SIM_CHECK(g0 == np && old[np] == 3.5, "eval-params", "get_params returned %zu of %zu", g0, np);
            for (size_t i = 0; i < np; i++) p[i] = kern ? (sim_choose(4) ? old[i] : sim_double(0.1, 0.9)) : gen_coeff();
            size_t lo = 0, hi = np;
            if (o == 7) { size_t u = function_train_update_params(ft, p); SIM_CHECK(u == np, "eval-params", "update_params used %zu of %zu", u, np); }
            else if (o == 8) { size_t k = sim_choose(d); lo = off[k]; hi = off[k + 1]; function_train_core_update_params(ft, k, hi - lo, p + lo); }
            else { size_t k = sim_choose(d), i = sim_choose(ft->ranks[k]), j = sim_choose(ft->ranks[k + 1]); lo = off[k]; for (size_t jj = 0; jj < ft->ranks[k + 1]; jj++) for (size_t ii = 0; ii < ft->ranks[k]; ii++) if (jj < j || (jj == j && ii < i)) lo += function_train_func_get_nparams(ft, k, ii, jj); hi = lo + function_train_func_get_nparams(ft, k, i, j); function_train_uni_update_params(ft, k, i, j, hi - lo, p + lo); }
            size_t g = function_train_get_params(ft, q); SIM_CHECK(g == np && q[np] == 3.5, "eval-params", "get_params returned %zu of %zu", g, np);
            for (size_t i = 0; i < np; i++) SIM_CHECK(same_bits(q[i], i >= lo && i < hi ? p[i] : old[i]), "eval-params", "%s: parameter %zu is %a after the update of [%zu,%zu)", s->who, i, q[i], lo, hi);
            size_t at = 0; for (size_t k = 0; k < d; k++) for (size_t j = 0; j < ft->ranks[k + 1]; j++) for (size_t i = 0; i < ft->ranks[k]; i++) { double fp[128]; size_t n = generic_function_get_params(function_train_get_gfuni(ft, k, i, j), fp); for (size_t u = 0; u < n; u++, at++) SIM_CHECK(same_bits(fp[u], q[at]), "eval-params", "parameter %zu is not where the documented order puts it", at); }
            xfree(p); xfree(q); xfree(old); sim_log("%s: parameters [%zu,%zu) of %zu", s->who, lo, hi, np); sim_probe("eval.params"); h = ft_hash(ft); same_or_die(s, function_train_eval(ft, x), (c = function_train_copy(ft), function_train_eval(c, x)), x, "eval after update"); break; }
        }
        if (c) function_train_free(c);
        SIM_CHECK(ft_hash(ft) == h, "eval-changes", "%s: an evaluation changed the function", s->who);
    }
    function_train_free(ft);
}
void scn_fteval(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark(); size_t nt = sim_flip(1, 2) ? 2 : 1; struct es *s[2]; void *a[2]; sim_task_fn fn[2] = { esession, esession };
    for (size_t i = 0; i < nt; i++) { a[i] = s[i] = xcalloc(1, sizeof **s); s[i]->who = i ? "B" : "A"; }
    sim_nontrivial(); if (nt == 2) { sim_tasks_run(2, fn, a); sim_probe("eval.two_interleaved"); } else esession(a[0]);
    SIM_CHECK(sim_heap_live_since(m0) == 0, "eval-leak", "%zu blocks left", sim_heap_live_since(m0)); sim_sample("%zu session(s), %zu variables, %zu calls", nt, s[0]->d, s[0]->ops); for (size_t i = 0; i < nt; i++) xfree(s[i]);
}
