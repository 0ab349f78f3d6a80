/* Products, diffusion and Laplace operators, exact and by DMRG sweeps (C21). */
#include "gen.h"
#include "dmrg.h"
#include "dmrgprod.h"
#include "diffusion.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#define DD 7
#define DN 7
#define DP 4
#define DT 4
struct dz { size_t d, N[DD], nops, id; int generic, fam /* 0 polynomials, 1 piecewise linear, 2 uniform periodic grid, 3 piecewise constant */; double lb[DD], ub[DD], nodes[DD][DN], x[DP][DD]; struct MultiApproxOpts *M; struct OneApproxOpts *O[DD]; double *nd[DD];
    struct FunctionTrain *t[DT]; uint64_t h[DT]; uint64_t hist; };

static double cf(struct dz *z) { return z->generic ? sim_double(0.3, 1.5) * (sim_choose(2) ? 1 : -1) : gen_coeff(); }
static struct GenericFunction *fn1(struct dz *z, size_t k, size_t deg)
{
    struct GenericFunction *g; double y[DN];
    if (z->fam == 0) {
        struct OrthPolyExpansion *p = orth_poly_expansion_init(LEGENDRE, deg + 1, z->lb[k], z->ub[k]); for (size_t i = 0; i <= deg; i++) p->coeff[i] = cf(z);
        g = generic_function_alloc(1, POLYNOMIAL); g->f = p; g->fargs = NULL; return g;
    }
    if (z->fam == 2) {       /* band limited on the periodic grid */
        double a[3], b[3], L = (double)z->N[k] * (z->nodes[k][1] - z->nodes[k][0]); size_t m = (z->N[k] - 1) / 2; for (int q = 0; q < 3; q++) { a[q] = cf(z); b[q] = cf(z); }
        for (size_t i = 0; i < z->N[k]; i++) { y[i] = a[0]; for (size_t q = 1; q < 3 && q <= m; q++) { double w = 2 * M_PI * (double)q / L * (z->nodes[k][i] - z->lb[k]); y[i] += a[q] * cos(w) + b[q] * sin(w); } }
    } else for (size_t i = 0; i < z->N[k]; i++) y[i] = cf(z);
    g = generic_function_alloc(1, z->fam == 3 ? CONSTELM : LINELM); g->fargs = NULL; if (z->fam == 3) g->f = const_elem_exp_init(z->N[k], z->nodes[k], y); else g->f = lin_elem_exp_init(z->N[k], z->nodes[k], y); return g;
}
static struct FunctionTrain *mktrain(struct dz *z, size_t mr)
{
    struct FunctionTrain *ft = function_train_alloc(z->d); for (size_t k = 0; k <= z->d; k++) ft->ranks[k] = k == 0 || k == z->d ? 1 : z->generic ? mr : sim_range(1, mr);
    for (size_t k = 0; k < z->d; k++) { size_t deg = z->generic ? 3 : sim_choose(4); ft->cores[k] = qmarray_alloc(ft->ranks[k], ft->ranks[k + 1]); for (size_t j = 0; j < ft->ranks[k] * ft->ranks[k + 1]; j++) ft->cores[k]->funcs[j] = fn1(z, k, deg); }
    return ft;
}
/* derivative of order o (0,1,2) of a one-dimensional function, exact for polynomials of degree four or trigonometric polynomials on their periodic grid; `s` bounds the terms */
static double d1(struct dz *z, size_t k, struct GenericFunction *f, double x, int o, double *s)
{
    if (o == 0) { double v = generic_function_1d_eval(f, x); *s = fabs(v); return v; }
    if (z->fam == 2) {       /* o==2 only: sum over the Fourier modes of the nodal values */
        size_t n = z->N[k]; double dx = z->nodes[k][1] - z->nodes[k][0], L = (double)n * dx, r = 0; *s = 0;
        for (size_t q = 1; 2 * q < n; q++) { double w = 2 * M_PI * (double)q / L, c = 0, e = 0; for (size_t i = 0; i < n; i++) { double v = generic_function_1d_eval(f, z->nodes[k][i]); c += v * cos(w * (z->nodes[k][i] - z->lb[k])); e += v * sin(w * (z->nodes[k][i] - z->lb[k])); *s += w * w * fabs(v) * 4; }
            r -= w * w * 2 / (double)n * (c * cos(w * (x - z->lb[k])) + e * sin(w * (x - z->lb[k]))); }
        return r;
    }
    double h = (z->ub[k] - z->lb[k]) / 16, v[5], m = 0; for (int i = 0; i < 5; i++) { v[i] = generic_function_1d_eval(f, x + (i - 2) * h); m += fabs(v[i]); }
    if (o == 1) { *s = m / h; return (v[0] - 8 * v[1] + 8 * v[3] - v[4]) / (12 * h); }
    *s = 3 * m / h / h; return (-v[0] + 16 * v[1] - 30 * v[2] + 16 * v[3] - v[4]) / (12 * h * h);
}
/* the train with dimension k differentiated o times */
static double dval(struct dz *z, const struct FunctionTrain *ft, const double *x, size_t kd, int o, double *ab)
{
    double v[16] = { 1 }, a[16] = { 1 }; size_t r = 1;
    for (size_t k = 0; k < z->d; k++) { double w[16], b[16]; size_t nc = ft->cores[k]->ncols; for (size_t j = 0; j < nc; j++) { w[j] = b[j] = 0; for (size_t i = 0; i < r; i++) { double s, f = d1(z, k, ft->cores[k]->funcs[i + j * r], x[k], k == kd ? o : 0, &s); w[j] += v[i] * f; b[j] += a[i] * (s + poly_floor(ft->cores[k]->funcs[i + j * r])); } } r = nc; memcpy(v, w, r * 8); memcpy(a, b, r * 8); }
    *ab = a[0]; return v[0];
}
static double size_of(struct dz *z, const struct FunctionTrain *ft)     /* crude bound on the size of the train and of its parts anywhere */
{
    double a = 1; for (size_t k = 0; k < z->d; k++) { double m = 0; for (size_t j = 0; j < ft->ranks[k] * ft->ranks[k + 1]; j++) { double q = 0; for (int i = 0; i <= 8; i++) { double v = fabs(generic_function_1d_eval(ft->cores[k]->funcs[j], z->lb[k] + (z->ub[k] - z->lb[k]) * i / 8)); if (v > q) q = v; } m += q; } a *= m + 1e-3; }
    return a;
}
static void form(struct dz *z, struct FunctionTrain *ft, const double *v, const double *e, const char *w)
{
    SIM_CHECK(ft && ft->dim == z->d, "ft-form", "%s: no train of dimension %zu", w, z->d);
    for (size_t k = 0; k < z->d; k++) SIM_CHECK(ft->cores[k] && ft->cores[k]->nrows == ft->ranks[k] && ft->cores[k]->ncols == ft->ranks[k + 1], "ft-form", "%s: ranks and cores disagree at dimension %zu", w, k);
    SIM_CHECK(ft->ranks[0] == 1 && ft->ranks[z->d] == 1, "ft-form", "%s: outer ranks %zu %zu", w, ft->ranks[0], ft->ranks[z->d]);
    for (size_t p = 0; p < DP; p++) {
        double m, a = ft_abs(ft, z->x[p], &m), g = function_train_eval(ft, z->x[p]);
        SIM_CHECK(fabs(m - v[p]) <= e[p] + 1e-9 * a, "operator-value", "%s of dimension %zu: value %.15g at point %zu instead of %.15g (allowed error %.3g)", w, z->d, m, p, v[p], e[p] + 1e-9 * a);
        SIM_CHECK(fabs(g - m) <= 1e-11 * a + 1e-300, "ft-eval", "%s: function_train_eval gives %.17g where the cores give %.17g", w, g, m);
    }
    uint64_t h = ft_hash(ft); z->hist = (z->hist ^ h) * 0x9E3779B97F4A7C15ull; sim_log("task %zu %s -> %016llx", z->id, w, (unsigned long long)h);
}
/* DMRG with a client's operator: here multiplication by one, so the result approximates y */
struct cl { struct FunctionTrain *y; struct dz *z; size_t nL, nR, sw; };
static void client(char type, size_t core, size_t r, double *mat, struct Qmarray **out, void *arg)
{
    struct cl *c = arg; size_t d = c->z->d; struct Qmarray *q;
    SIM_CHECK(*out == NULL && (type == 'L' || type == 'R') && core < d && r >= 1, "dmrg-request", "request %c for core %zu of %zu with rank %zu", type, core, d, r);
    SIM_CHECK((mat == NULL) == (type == 'L' ? core == 0 : core == d - 1), "dmrg-request", "request %c for core %zu of %zu %s a matrix", type, core, d, mat ? "with" : "without");
    SIM_CHECK(type == 'L' ? core < d - 1 : core > 0, "dmrg-request", "request %c for core %zu of %zu", type, core, d);
    if (type == 'L') c->nL++; else c->nR++;
    q = c->y->cores[core]; *out = !mat ? qmarray_copy(q) : type == 'L' ? mqma(mat, q, r) : qmam(q, mat, r);
}
/* squared norm, by the library (checked in C13) */
static void step(struct dz *z)
{
    unsigned op = (unsigned)sim_choose(z->fam == 0 ? 6 : z->fam == 2 ? 6 : 3), a = (unsigned)sim_choose(DT), b = (unsigned)sim_choose(DT); struct FunctionTrain *A = z->t[a], *B = z->t[b], *ft = NULL; double v[DP], e[DP]; char w[80];
    double eps = (double[]){ 1e-20, 1e-16, 1e-13 }[sim_choose(3)], del = (double[]){ 1e-10, 1e-6, 0 }[sim_choose(3)]; size_t sw = sim_range(1, 6);
    double sa = size_of(z, A), sb = size_of(z, B);
    if (op < 2) {            /* product by sweeps */
        unsigned g = (unsigned)sim_choose(4); struct FunctionTrain *guess = NULL; double np;
        struct FunctionTrain *ex = function_train_product(A, B); np = function_train_norm2(ex);
        if (g == 1) guess = mktrain(z, 2); else if (g == 2) guess = function_train_copy(ex); else if (g == 3) { guess = function_train_copy(ex); function_train_scale(guess, (double)sim_range(1, 4) - 0.5); }
        function_train_free(ex);
        ft = dmrg_product(guess, A, B, del, sw, eps, 0, z->M); sprintf(w, "sweep product s%u*s%u, guess %u, eps %g, %zu sweeps", a, b, g, eps, sw);
        int settled = g >= 2 || z->d == 2 || (z->generic && sw >= 3 && del < 1e-9); double slack = g >= 2 || z->d == 2 ? 1e-9 : 1e-7; if (guess) function_train_free(guess);
        for (size_t p = 0; p < DP; p++) { v[p] = ref_ft_eval(A, z->x[p]) * ref_ft_eval(B, z->x[p]); e[p] = slack * sa * sb + 300 * sqrt(eps * (double)z->d) + 1e-10 * np; if (!settled) e[p] = 1e300; }
        if (!settled) { double n2 = function_train_norm2(ft); SIM_CHECK(n2 <= np * (1 + 1e-6) + 100 * sqrt(eps) + 1e-9 * sa * sb, "operator-value", "%s: norm %g of a projection exceeds the norm %g of the product", w, n2, np); 
        }
        sim_probe("dmrg.product");
    } else if (op == 2) {    /* sweeps with a client's operator */
        struct cl c = { A, z, 0, 0, sw }; struct FunctionTrain *guess = sim_choose(2) ? function_train_copy(A) : mktrain(z, 2); int own = ft_hash(guess) == z->h[a]; if (own) function_train_scale(guess, (double)sim_range(1, 4) - 0.5);
        double na = function_train_norm2(A); ft = dmrg_approx(guess, client, &c, del, sw, eps, 0, z->M); function_train_free(guess); sprintf(w, "sweeps over s%u, %s guess, %zu sweeps", a, own ? "good" : "any", sw);
        SIM_CHECK(c.nR >= z->d - 1 && c.nL <= (z->d - 1) * sw + 0 && c.nR <= (z->d - 1) * (sw + 1), "dmrg-request", "%zu left and %zu right requests in %zu sweeps over %zu dimensions", c.nL, c.nR, sw, z->d);
        for (size_t p = 0; p < DP; p++) { v[p] = ref_ft_eval(A, z->x[p]); e[p] = own ? 1e-9 * sa + 300 * sqrt(eps * (double)z->d) + 1e-10 * na : 1e300; }
        sim_probe("dmrg.client");
    } else if (z->fam == 0) {
        struct FunctionTrain *f = B; int lap = op == 3, ex = op < 5;
        if (lap) { ft = sim_choose(2) ? exact_laplace(f, z->M) : exact_laplace_op(f, NULL, z->M); sprintf(w, "laplace s%u", b); sim_probe("dmrg.laplace"); }
        else if (ex) { ft = exact_diffusion(A, f, z->M); sprintf(w, "diffusion s%u s%u", a, b); sim_probe("dmrg.diffusion"); }
        else { ft = dmrg_diffusion(A, f, del, sw, eps, 0, z->M); sprintf(w, "sweep diffusion s%u s%u, eps %g, %zu sweeps", a, b, eps, sw); sim_probe("dmrg.sweep_diffusion"); }
        for (size_t p = 0; p < DP; p++) {
            v[p] = e[p] = 0; double s, t, a0, a1, f1, f2; a0 = lap ? 1 : dval(z, A, z->x[p], 0, 0, &s); if (lap) s = 1;
            double as = s; for (size_t k = 0; k < z->d; k++) { f2 = dval(z, f, z->x[p], k, 2, &t); v[p] += a0 * f2; e[p] += as * t; if (!lap) { double q; a1 = dval(z, A, z->x[p], k, 1, &s); f1 = dval(z, f, z->x[p], k, 1, &q); v[p] += a1 * f1; e[p] += s * q; } }
            e[p] *= ex ? 1e-9 : 1e-6; if (!ex) { e[p] += 1000 * sqrt(eps); if (z->d > 2 && !(z->generic && sw >= 3 && del < 1e-9)) e[p] = 1e300; else sim_probe("dmrg.settled"); }
        }
        if (!ex) { struct FunctionTrain *q = exact_diffusion(A, f, z->M); double ne = function_train_norm2(q), n2 = function_train_norm2(ft); function_train_free(q); SIM_CHECK(n2 <= ne * (1 + 1e-6) + 100 * sqrt(eps) + 1e-8 * (1 + ne), "operator-value", "%s: norm %g exceeds the norm %g of the exact result", w, n2, ne); }
    } else {                 /* periodic grids */
        if (op == 3) { ft = exact_laplace_periodic(A, z->M); sprintf(w, "periodic laplace s%u", a); }
        else { struct OperatorForLaplace *o = build_lp_operator(z->d, z->N[0], z->nodes[0]); ft = exact_laplace_op(A, operator_for_laplace_get_op(o), z->M); destroy_operator_for_laplace(o); sprintf(w, "laplace operator s%u", a); }
        for (size_t p = 0; p < DP; p++) { v[p] = e[p] = 0; for (size_t k = 0; k < z->d; k++) { double s; v[p] += dval(z, A, z->x[p], k, 2, &s); e[p] += 1e-9 * s; } }
        sim_probe("dmrg.periodic");
    }
    form(z, ft, v, e, w);
    for (unsigned i = 0; i < DT; i++) SIM_CHECK(ft_hash(z->t[i]) == z->h[i], "ft-argument-changed", "%s changes s%u", w, i);
    if (sim_choose(4) == 0) { unsigned t = (unsigned)sim_choose(DT); function_train_free(z->t[t]); z->t[t] = mktrain(z, 2); z->h[t] = ft_hash(z->t[t]); }
    function_train_free(ft);
}
static void task(void *arg) { struct dz *z = arg; for (size_t i = 0; i < z->nops; i++) { step(z); sim_yield(); } }
static void setup(struct dz *z, size_t id)
{
    memset(z, 0, sizeof *z); z->id = id; z->d = sim_flip(1, 16) ? sim_range(5, DD) : sim_range(2, 4); if (z->d > 4) sim_probe("dmrg.many_variables"); z->fam = (int)sim_choose(4); size_t n0 = sim_range(5, DN); z->nops = sim_range(1, 5); z->generic = (int)sim_choose(2);
    double l0 = -(double)sim_choose(3), h0 = (double[]){ 0.5, 0.25, 1 }[sim_choose(3)];
    for (size_t k = 0; k < z->d; k++) {
        z->N[k] = z->fam == 2 ? n0 : sim_range(5, DN); z->lb[k] = z->fam == 2 ? l0 : sim_double(-2, 0); z->ub[k] = z->fam == 2 ? l0 + h0 * (double)(n0 - 1) : z->lb[k] + sim_double(0.5, 3);
        if (z->fam == 2) for (size_t i = 0; i < n0; i++) z->nodes[k][i] = l0 + h0 * (double)i; else gen_nodes(z->N[k], z->lb[k], z->ub[k], z->nodes[k]);
        for (size_t p = 0; p < DP; p++) z->x[p][k] = z->fam == 0 ? z->lb[k] + (z->ub[k] - z->lb[k]) * sim_double(0.2, 0.8) : z->nodes[k][sim_choose(z->N[k])];
    }
    z->M = multi_approx_opts_alloc(z->d);
    for (size_t k = 0; k < z->d; k++) {
        if (z->fam == 0) { struct OpeOpts *o = ope_opts_alloc(LEGENDRE); ope_opts_set_lb(o, z->lb[k]); ope_opts_set_ub(o, z->ub[k]); ope_opts_set_start(o, 5); ope_opts_set_maxnum(o, 30); ope_opts_set_tol(o, 1e-14); ope_opts_set_coeffs_check(o, 2); z->O[k] = one_approx_opts_alloc(POLYNOMIAL, o); }
        else { z->nd[k] = calloc_double(z->N[k]); memcpy(z->nd[k], z->nodes[k], z->N[k] * 8); z->O[k] = z->fam == 3 ? one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(z->N[k], z->nd[k])) : one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(z->N[k], z->nd[k])); }
        multi_approx_opts_set_dim(z->M, k, z->O[k]);
    }
    for (int i = 0; i < DT; i++) { z->t[i] = mktrain(z, 2); z->h[i] = ft_hash(z->t[i]); }
}
static void drop(struct dz *z) { for (int i = 0; i < DT; i++) function_train_free(z->t[i]); for (size_t k = 0; k < z->d; k++) { one_approx_opts_free_deep(&z->O[k]); free(z->nd[k]); } multi_approx_opts_free(z->M); }
void scn_dmrg(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    size_t n = sim_range(1, 2); struct dz z[2]; void *arg[2] = { &z[0], &z[1] }; sim_task_fn fn[2] = { task, task };
    for (size_t i = 0; i < n; i++) setup(&z[i], i);
    sim_nontrivial();
    if (n == 1) task(&z[0]); else { sim_tasks_run(2, fn, arg); sim_probe("dmrg.two_tasks"); }
    for (size_t i = 0; i < n; i++) drop(&z[i]);
    SIM_CHECK(sim_heap_live_since(m0) == 0, "ft-leak", "%zu blocks left", sim_heap_live_since(m0));
    sim_sample("%zu task(s), dimension %zu, function family %d, %zu operations", n, z[0].d, z[0].fam, z[0].nops);
}
