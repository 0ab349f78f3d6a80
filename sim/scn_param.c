/* Parameterised function trains (C24): the vector of numbers and the function it stands for. */
#include "gen.h"
#include "parameterization.h"
#include "superlearn_util.h"
#include "superlearn.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
void ft_param_update_structure(struct FTparam **, struct MultiApproxOpts *, size_t *, double *);
#define PD 7
#define PK 5
#define PP 260
struct po { struct MultiApproxOpts *M; struct OneApproxOpts *O[PD]; double *nd[PD]; size_t n[PD], np[PD]; enum gen_cls cls[PD]; int adapt[PD]; double wd[PD]; };
struct ps { const char *who; size_t d, r[PD + 1], P, ops; double lb[PD], ub[PD]; struct po o[2]; int on; struct FTparam *f; double p[PP]; };

static void opts_make(struct ps *z, struct po *o, const enum gen_cls *cls)
{
    o->M = multi_approx_opts_alloc(z->d);
    for (size_t k = 0; k < z->d; k++) {
        size_t n = o->n[k] = o != z->o && sim_choose(2) ? z->o[0].n[k] : sim_range(2, PK); /* other options, often as many parameters */ double g[PK]; gen_nodes(n, z->lb[k], z->ub[k], g); o->nd[k] = calloc_double(n); memcpy(o->nd[k], g, n * 8); o->cls[k] = cls[k]; o->adapt[k] = 0;
        if (cls[k] == G_LEG) { struct OpeOpts *a = ope_opts_alloc(LEGENDRE); ope_opts_set_lb(a, z->lb[k]); ope_opts_set_ub(a, z->ub[k]); ope_opts_set_nparams(a, n); o->O[k] = one_approx_opts_alloc(POLYNOMIAL, a); }
        else if (cls[k] == G_KERNEL) { struct KernelApproxOpts *a = kernel_approx_opts_gauss(n, o->nd[k], 1.0, o->wd[k] = sim_double(0.2, 1.0) * (z->ub[k] - z->lb[k])); o->adapt[k] = (int)sim_flip(1, 3); kernel_approx_opts_set_center_adapt(a, o->adapt[k]); o->O[k] = one_approx_opts_alloc(KERNEL, a); }
        else o->O[k] = cls[k] == G_LIN ? one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(n, o->nd[k])) : one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(n, o->nd[k]));
        multi_approx_opts_set_dim(o->M, k, o->O[k]); o->np[k] = n * (o->adapt[k] ? 2 : 1); SIM_CHECK(multi_approx_opts_get_dim_nparams(o->M, k) == o->np[k], "par-count", "%zu parameters in dimension %zu instead of %zu", multi_approx_opts_get_dim_nparams(o->M, k), k, o->np[k]);
    }
}
static void opts_free(struct ps *z, struct po *o) { for (size_t k = 0; k < z->d; k++) { one_approx_opts_free_deep(&o->O[k]); free(o->nd[k]); } multi_approx_opts_free(o->M); }
static size_t count(const struct ps *z, const size_t *r, const struct po *o) { size_t s = 0; for (size_t k = 0; k < z->d; k++) s += r[k] * r[k + 1] * o->np[k]; return s; }
static void ranks(struct ps *z, const struct po *o, size_t *r) { r[0] = r[z->d] = 1; for (size_t k = 1; k < z->d; k++) r[k] = sim_range(1, 3); while (count(z, r, o) > PP) for (size_t k = 1; k < z->d; k++) if (r[k] > 1) r[k]--; }
/* fresh values; free centres stay near their nodes */
static void values(struct ps *z, const struct po *o, const size_t *r, double *p)
{
    size_t at = 0; int plain = (int)sim_flip(1, 4);
    for (size_t k = 0; k < z->d; k++) for (size_t f = 0; f < r[k] * r[k + 1]; f++) { for (size_t i = 0; i < o->n[k]; i++, at++) p[at] = plain ? 0.25 * (double)(1 + at % 7) : gen_coeff(); if (o->adapt[k]) for (size_t i = 0; i < o->n[k]; i++, at++) p[at] = o->nd[k][i] + sim_double(-0.1, 0.1); }
}
/* a core may well equal another */
static void twin(const struct ps *z, const struct po *o, double *p) { size_t n0 = z->r[0] * z->r[1] * o->np[0], at = n0; for (size_t k = 1; k < z->d; k++) { size_t n = z->r[k] * z->r[k + 1] * o->np[k]; if (n == n0 && o->cls[k] == o->cls[0] && !o->adapt[k] && !o->adapt[0]) memcpy(p + at, z->p, n * 8); at += n; } }
static int linear(const struct ps *z) { for (size_t k = 0; k < z->d; k++) if (z->o[z->on].adapt[k]) return 0; return 1; }
static int only(const struct ps *z, int mask) { for (size_t k = 0; k < z->d; k++) if (!(mask >> z->o[z->on].cls[k] & 1)) return 0; return 1; }
static size_t offset(const struct ps *z, size_t k) { size_t a = 0; for (size_t i = 0; i < k; i++) a += z->r[i] * z->r[i + 1] * z->o[z->on].np[i]; return a; }
static size_t coreof(const struct ps *z, size_t i) { size_t k = 0; while (k + 1 < z->d && offset(z, k + 1) <= i) k++; return k; }

/* the function is the one its options describe */
static void shape(const struct ps *z, const struct po *o, const struct GenericFunction *g, size_t k, const double *p, const char *w)
{
    size_t n = o->n[k]; int ok = 1;
    if (o->cls[k] == G_LIN) { const struct LinElemExp *e = g->f; ok = g->fc == LINELM && e->num_nodes == n && !memcmp(e->nodes, o->nd[k], n * 8); }
    else if (o->cls[k] == G_CONST) { const struct ConstElemExp *e = g->f; ok = g->fc == CONSTELM && e->num_nodes == n && !memcmp(e->nodes, o->nd[k], n * 8); }
    else if (o->cls[k] == G_LEG) { const struct OrthPolyExpansion *e = g->f; ok = g->fc == POLYNOMIAL && e->num_poly == n && e->p->ptype == LEGENDRE && e->lower_bound == z->lb[k] && e->upper_bound == z->ub[k]; }
    else { double x = 0.3 * z->lb[k] + 0.7 * z->ub[k], s = 0, a = 0; for (size_t i = 0; i < n; i++) { double c = o->adapt[k] ? p[n + i] : o->nd[k][i], t = p[i] * exp(-(x - c) * (x - c) / (o->wd[k] * o->wd[k])); s += t; a += fabs(t); } ok = g->fc == KERNEL && fabs(generic_function_1d_eval(g, x) - s) <= 1e-12 * a; }
    SIM_CHECK(ok, "par-options", "%s: %s: a function in core %zu is not the one its options describe", z->who, w, k);
}
/* the vector, the train and the model agree */
static void agree(struct ps *z, struct FTparam *f, const double *p, const char *w)
{
    const struct po *o = &z->o[z->on]; struct FunctionTrain *ft = ft_param_get_ft(f); SIM_CHECK(ft && ft->dim == z->d && ft_param_get_dim(f) == z->d, "par-form", "%s: %s: dimension", z->who, w);
    for (size_t k = 0; k <= z->d; k++) SIM_CHECK(ft->ranks[k] == z->r[k], "par-form", "%s: %s: rank %zu is %zu instead of %zu", z->who, w, k, ft->ranks[k], z->r[k]);
    SIM_CHECK(ft_param_get_nparams(f) == z->P && function_train_get_nparams(ft) == z->P, "par-count", "%s: %s: %zu and %zu parameters instead of %zu", z->who, w, ft_param_get_nparams(f), function_train_get_nparams(ft), z->P);
    double *q = xcalloc(z->P + 1, 8), *s = ft_param_get_params_ref(f); q[z->P] = 3.5; SIM_CHECK(function_train_get_params(ft, q) == z->P && q[z->P] == 3.5, "par-count", "%s: %s: the train hands out another number of parameters", z->who, w);
    for (size_t i = 0; i < z->P; i++) { SIM_CHECK(same_bits(s[i], p[i]), "par-vector", "%s: %s: parameter %zu is %.17g instead of %.17g", z->who, w, i, s[i], p[i]); SIM_CHECK(same_bits(q[i], p[i]), "par-train", "%s: %s: parameter %zu of the train is %.17g instead of %.17g", z->who, w, i, q[i], p[i]); }
    size_t at = 0; for (size_t k = 0; k < z->d; k++) { SIM_CHECK(ft_param_get_nparams_per_core(f)[k] == z->r[k] * z->r[k + 1] * o->np[k], "par-count", "%s: %s: parameters of core %zu", z->who, w, k);
        for (size_t c = 0; c < z->r[k + 1]; c++) for (size_t r = 0; r < z->r[k]; r++, at += o->np[k]) {
            struct GenericFunction *g = ft->cores[k]->funcs[r + c * z->r[k]]; const double *v = o->cls[k] == G_LIN ? ((struct LinElemExp *)g->f)->coeff : o->cls[k] == G_CONST ? ((struct ConstElemExp *)g->f)->coeff : o->cls[k] == G_LEG ? ((struct OrthPolyExpansion *)g->f)->coeff : NULL; double t[2 * PK]; if (!v) { SIM_CHECK(generic_function_get_num_params(g) == o->np[k], "par-count", "%s: kernels", z->who); generic_function_get_params(g, t); v = t; }
            for (size_t i = 0; i < o->np[k]; i++) SIM_CHECK(same_bits(v[i], p[at + i]), "par-order", "%s: %s: number %zu of function (%zu,%zu) in core %zu is %.17g instead of %.17g", z->who, w, i, r, c, k, v[i], p[at + i]);
            shape(z, o, g, k, p + at, w);
        } }
    xfree(q);
}
static void dirty(double *a, size_t n) { for (size_t i = 0; i < n; i++) a[i] = 1e3 + (double)i; }
static double near_tol(const struct FunctionTrain *ft, const double *x) { double v; return 1e-11 * ft_abs(ft, x, &v) + 1e-290; }
static void point(struct ps *z, double *x) { for (size_t k = 0; k < z->d; k++) { x[k] = sim_double(z->lb[k], z->ub[k]); if (z->o[z->on].cls[k] == G_CONST) { const struct po *o = &z->o[z->on]; /* away from the jumps */ for (size_t i = 0; i + 1 < o->n[k]; i++) { double m = 0.5 * (o->nd[k][i] + o->nd[k][i + 1]); if (fabs(x[k] - m) < 1e-3 * (z->ub[k] - z->lb[k])) x[k] = o->nd[k][i]; } } } }
/* derivative of the value at x in one parameter, from the values themselves */
static double slope(struct ps *z, struct FunctionTrain *c, double *p, size_t i, const double *x, double *tol)
{
    int lin = !z->o[z->on].adapt[coreof(z, i)]; double h = lin ? 0.5 : 1e-3, s = p[i], a1, a2, v1, v2, D[2]; *tol = 1e-300;
    for (int q = 0; q < (lin ? 1 : 2); q++, h /= 2) { p[i] = s + h; function_train_update_params(c, p); a1 = ft_abs(c, x, &v1); p[i] = s - h; function_train_update_params(c, p); a2 = ft_abs(c, x, &v2); D[q] = (v1 - v2) / (2 * h); *tol += 1e-12 * (a1 + a2) / h; }
    p[i] = s; function_train_update_params(c, p); if (lin) return D[0]; *tol += fabs(D[1] - D[0]) * 1e-2 + 1e-9 * fabs(D[1]); return D[1] + (D[1] - D[0]) / 3;
}
static void check_grad(struct ps *z, const double *x, const double *g, size_t lo, size_t n, const char *w)
{
    struct FunctionTrain *c = function_train_copy(ft_param_get_ft(z->f)); double *p = xcalloc(z->P, 8); memcpy(p, z->p, z->P * 8);
    for (size_t i = 0; i < n; i++) { double t, e = slope(z, c, p, lo + i, x, &t); SIM_CHECK(fabs(g[i] - e) <= t, "par-gradient", "%s: %s: derivative %zu is %.17g, the values give %.17g (allowed error %.3g)", z->who, w, lo + i, g[i], e, t); }
    xfree(p); function_train_free(c);
}
static void check_value(struct ps *z, const double *x, double v, const char *w) { struct FunctionTrain *ft = ft_param_get_ft(z->f); double e; ft_abs(ft, x, &e); SIM_CHECK(fabs(v - e) <= near_tol(ft, x), "par-value", "%s: %s: value %.17g, the parameters give %.17g", z->who, w, v, e); }
static size_t nuni(const struct ps *z) { size_t s = 0; for (size_t k = 0; k < z->d; k++) s += z->r[k] * z->r[k + 1]; return s; }

static void gradients(struct ps *z)
{
    size_t N = sim_range(1, 3), u = nuni(z); double x[3 * PD], *ge = malloc(z->P * 8), *m = malloc(u * 8), *e = malloc(u * 8), *g = malloc(N * z->P * 8); for (size_t i = 0; i < N; i++) point(z, x + i * z->d); dirty(ge, z->P); dirty(m, u); dirty(e, u); dirty(g, N * z->P);
    for (size_t i = 0; i < N; i++) check_value(z, x + i * z->d, ft_param_gradeval(z->f, x + i * z->d, g + i * z->P, ge, m, e), "gradeval");
    if (sim_choose(2)) { double *g2 = malloc(N * z->P * 8); dirty(g2, N * z->P); ft_param_gradevals(z->f, N, x, g2, ge, m, e); SIM_CHECK(!memcmp(g, g2, N * z->P * 8), "par-gradient", "%s: the gradients at %zu points differ from those at each", z->who, N); free(g2); }
    for (size_t i = 0; i < N; i++) check_grad(z, x + i * z->d, g + i * z->P, 0, z->P, "gradeval");
    sim_probe("par.gradient");
    if (linear(z)) {
        SIM_CHECK(ft_param_extract_structure(z->f) == LINEAR_ST, "par-structure", "%s: structure is not linear", z->who); struct SLMemManager *mm = sl_mem_manager_alloc(z->d, N, z->P, LINEAR_ST); sl_mem_manager_check_structure(mm, z->f, x); double *lv = sl_mem_manager_get_lin_structure_vals(mm), *run = sl_mem_manager_get_running_eval(mm); SIM_CHECK(sl_mem_manager_gradient_precomputedp(mm), "par-structure", "%s: nothing was precomputed", z->who);
        size_t rep = sim_range(1, 2); for (size_t t = 0; t < rep; t++) { if (t) { values(z, &z->o[z->on], z->r, z->p); ft_param_update_params(z->f, z->p); agree(z, z->f, z->p, "update"); sim_probe("par.reused_structure"); } /* what was precomputed depends on the points only */
            for (size_t i = 0; i < N; i++) { dirty(run, 2 * z->P); check_value(z, x + i * z->d, ft_param_eval_lin(z->f, lv + i * z->P, run), "eval_lin"); dirty(g, z->P); dirty(m, u); dirty(e, u); check_value(z, x + i * z->d, ft_param_gradeval_lin(z->f, lv + i * z->P, g, m, e), "gradeval_lin"); check_grad(z, x + i * z->d, g, 0, z->P, "gradeval_lin"); } }
        sl_mem_manager_free(mm); sim_probe("par.linear");
    } else SIM_CHECK(ft_param_extract_structure(z->f) == NONE_ST, "par-structure", "%s: structure is linear in spite of moving centres", z->who);
    free(ge); free(m); free(e); free(g);
}
/* one core at a time, products from the left and from the right */
static void sweeps(struct ps *z)
{
    if (z->d < 2) return;
    double x[PD], *lr[PD], *rl[PD], *ge = malloc(z->f->max_param_uni * 8), *ev, *g; int lin = linear(z) && sim_choose(2); point(z, x); size_t d = z->d; struct SLMemManager *mm = NULL; double *lv = NULL;
    if (lin) { mm = sl_mem_manager_alloc(d, 1, z->P, LINEAR_ST); sl_mem_manager_check_structure(mm, z->f, x); lv = sl_mem_manager_get_lin_structure_vals(mm); }
    for (size_t k = 0; k < d; k++) { lr[k] = malloc(z->r[k + 1] * 8); rl[k] = malloc(z->r[k] * 8); dirty(lr[k], z->r[k + 1]); dirty(rl[k], z->r[k]); }
    for (size_t k = d; k-- > 1;) { if (lin) process_sweep_right_left_lin(z->f, k, lv, k + 1 < d ? rl[k + 1] : NULL, rl[k]); else { ev = malloc(z->r[k] * z->r[k + 1] * 8); dirty(ev, z->r[k] * z->r[k + 1]); process_sweep_right_left(z->f, k, x[k], ev, k + 1 < d ? rl[k + 1] : NULL, rl[k]); free(ev); } }
    for (size_t k = 0; k < d; k++) {
        size_t n = z->r[k] * z->r[k + 1] * z->o[z->on].np[k], lo = offset(z, k); g = malloc(n * 8); double *l = k ? lr[k - 1] : NULL, *r = k + 1 < d ? rl[k + 1] : NULL, v;
        for (int rep = 0; rep < 2; rep++) {      /* the core changes between, its surroundings do not */
            dirty(g, n); dirty(ge, z->f->max_param_uni);
            if (lin) { if (sim_choose(2)) check_value(z, x, ft_param_core_eval_lin(z->f, k, l, r, lv), "core_eval_lin"); v = ft_param_core_gradeval_lin(z->f, k, g, l, r, lv); } else v = ft_param_core_gradeval(z->f, k, x[k], g, l, r, ge);
            check_value(z, x, v, "core gradeval"); check_grad(z, x, g, lo, n, lin ? "core_gradeval_lin" : "core_gradeval");
            if (rep == 0) { double *q = xcalloc(z->P, 8); values(z, &z->o[z->on], z->r, q); memcpy(z->p + lo, q + lo, n * 8); double *c = malloc(n * 8); memcpy(c, z->p + lo, n * 8); ft_param_update_core_params(z->f, k, c); free(c); xfree(q); agree(z, z->f, z->p, "update of one core"); }
        }
        free(g); if (k + 1 < d) { if (lin) process_sweep_left_right_lin(z->f, k, lv, l, lr[k]); else { ev = malloc(z->r[k] * z->r[k + 1] * 8); dirty(ev, z->r[k] * z->r[k + 1]); process_sweep_left_right(z->f, k, x[k], ev, l, lr[k]); free(ev); } }
    }
    for (size_t k = 0; k < d; k++) { free(lr[k]); free(rl[k]); } free(ge); if (mm) sl_mem_manager_free(mm); sim_probe("par.sweep");
}
static void hessian(struct ps *z)
{
    if (!linear(z) || z->P > 60 || z->d > 4) return;
    double x[PD], *v = xcalloc(z->P, 8), *h = xcalloc(z->P, 8), *p = xcalloc(z->P, 8), *gp = xcalloc(z->P, 8), *gm = xcalloc(z->P, 8), *tt = xcalloc(z->P, 8), *w = xcalloc(3 * PP, 8); point(z, x); int unit = (int)sim_choose(2); if (unit) v[sim_choose(z->P)] = 1; else for (size_t i = 0; i < z->P; i++) v[i] = gen_coeff();
    dirty(h, z->P); check_value(z, x, ft_param_hessvec(z->f, x, v, h), "hessvec"); agree(z, z->f, z->p, "hessvec");
    /* the gradient along the vector is a polynomial of degree d - 1: differences of its odd part */
    struct FTparam *c = ft_param_copy(z->f); double s = 0, tol = 0; for (size_t i = 0; i < z->P; i++) s = fmax(s, fabs(v[i])); if (s == 0) s = 1;
    double hs[2] = { 0.25 / s, 0.125 / s }; for (int q = 0; q < 2; q++) { double t = hs[q]; for (int sg = -1; sg <= 1; sg += 2) { for (size_t i = 0; i < z->P; i++) p[i] = z->p[i] + sg * t * v[i]; ft_param_update_params(c, p); ft_param_gradeval(c, x, sg > 0 ? gp : gm, w, w + PP, w + 2 * PP); } for (size_t i = 0; i < z->P; i++) { double D = (gp[i] - gm[i]) / (2 * t); tol = fmax(tol, 1e-9 * (fabs(gp[i]) + fabs(gm[i])) / t); if (q == 0) tt[i] = D; else { D += (D - tt[i]) / 3; tt[i] = D; } } }      /* d <= 4: degree three, one extrapolation is exact */
    for (size_t i = 0; i < z->P; i++) { SIM_CHECK(fabs(h[i] - tt[i]) <= tol + 1e-9, "par-hessian", "%s: component %zu of the Hessian product is %.17g, the gradients give %.17g (allowed error %.3g)", z->who, i, h[i], tt[i], tol); }
    ft_param_free(c); xfree(v); xfree(h); xfree(p); xfree(gp); xfree(gm); xfree(tt); xfree(w); sim_probe("par.hessian");
}
static void inner(struct ps *z)
{
    if (!only(z, 1 << G_LEG) || z->d < 2) return;
    struct FunctionTrain *g = gen_ft(z->d, 3, G_LEG, z->lb, z->ub, 1), *c = function_train_copy(ft_param_get_ft(z->f)); uint64_t h = ft_hash(g); double *gr = malloc(z->P * 8), *p = xcalloc(z->P, 8); memcpy(p, z->p, z->P * 8); dirty(gr, z->P); ft_param_grad_inner(z->f, g, gr); SIM_CHECK(ft_hash(g) == h, "par-changes", "%s: the gradient of an inner product changed the other function", z->who); agree(z, z->f, z->p, "gradient of an inner product");
    for (size_t i = 0; i < z->P; i++) { double s = p[i]; p[i] = s + 1; function_train_update_params(c, p); double a = function_train_inner(c, g), n = function_train_norm2(c) * function_train_norm2(g); p[i] = s - 1; function_train_update_params(c, p); double b = function_train_inner(c, g), e = (a - b) / 2; p[i] = s; SIM_CHECK(fabs(gr[i] - e) <= 1e-9 * (n + fabs(a) + fabs(b)) + 1e-11, "par-inner", "%s: derivative %zu of the inner product is %.17g, the inner products give %.17g", z->who, i, gr[i], e); }
    free(gr); xfree(p); function_train_free(g); function_train_free(c); sim_probe("par.inner");
}
static double sq(struct ps *z, struct FunctionTrain *ft, const double *w) { double s = 0; for (size_t k = 0; k < z->d; k++) for (size_t j = 0; j < z->r[k] * z->r[k + 1]; j++) { double ab; struct GenericFunction *g = ft->cores[k]->funcs[j]; s += w[k] * (g->fc == KERNEL ? generic_function_inner(g, g) : uni_quad(g, g, &ab)); } return s; }
static void sqnorm(struct ps *z)
{
    if (!linear(z) || !only(z, 1 << G_LEG | 1 << G_LIN | 1 << G_KERNEL)) return;
    double w[PD], *gr = malloc(z->P * 8), *p = xcalloc(z->P, 8); struct FunctionTrain *ft = ft_param_get_ft(z->f), *c = function_train_copy(ft); memcpy(p, z->p, z->P * 8); for (size_t k = 0; k < z->d; k++) w[k] = sim_double(0.1, 2); double base = sim_choose(2) ? 0 : 2.5; for (size_t i = 0; i < z->P; i++) gr[i] = base;
    double v = function_train_param_grad_sqnorm(ft, w, gr), e = sq(z, ft, w); SIM_CHECK(fabs(v - e) <= 1e-8 * e + 1e-11, "par-norm", "%s: sum of squared norms %.17g, the functions give %.17g", z->who, v, e); SIM_CHECK(fabs(function_train_param_grad_sqnorm(ft, w, NULL) - v) <= 1e-10 * v, "par-norm", "%s: without a gradient the sum is another", z->who);
    for (size_t i = 0; i < z->P; i++) { double s = p[i]; p[i] = s + 1; function_train_update_params(c, p); double a = sq(z, c, w); p[i] = s - 1; function_train_update_params(c, p); double b = sq(z, c, w), d = (a - b) / 2; p[i] = s; SIM_CHECK(fabs(gr[i] - base - d) <= 1e-7 * (a + b) + 1e-10, "par-norm", "%s: derivative %zu of the sum of squared norms is %.17g (added to %g), the norms give %.17g", z->who, i, gr[i], base, d); }
    free(gr); xfree(p); function_train_free(c); agree(z, z->f, z->p, "norm gradient"); sim_probe("par.norm");
}
static int inside(const struct ps *z, const size_t *rs, size_t k, size_t r, size_t c) { return !(k > 0 && r >= rs[k - 1]) && !(k + 1 < z->d && c >= rs[k]); }
static void restricted(struct ps *z)
{
    size_t d = z->d, *rs = malloc((d - 1 ? d - 1 : 1) * sizeof *rs), n = 0, at = 0, q = 0; if (d == 1) rs[0] = 0; for (size_t k = 0; k + 1 < d; k++) rs[k] = sim_choose(z->r[k + 1] + 1);
    const struct po *o = &z->o[z->on]; double *v = xcalloc(z->P, 8), *nw; values(z, o, z->r, v); int in = (int)sim_choose(2);
    for (int pass = 0; pass < 2; pass++) { at = q = 0; if (pass) nw = malloc(n ? n * 8 : 8); for (size_t k = 0; k < d; k++) for (size_t c = 0; c < z->r[k + 1]; c++) for (size_t r = 0; r < z->r[k]; r++) for (size_t i = 0; i < o->np[k]; i++, at++) if (inside(z, rs, k, r, c) == in) { if (pass) { z->p[at] = v[at]; nw[q] = v[at]; } q++; } n = q; }
    if (!in || d > 1) { size_t e = in ? z->P - n : n, g = ft_param_get_nparams_restrict(z->f, rs); SIM_CHECK(g == e, "par-restrict", "%s: %zu parameters outside the ranks instead of %zu", z->who, g, e); }
    if (in) ft_param_update_inside_restricted_ranks(z->f, nw, rs); else ft_param_update_restricted_ranks(z->f, nw, rs);
    agree(z, z->f, z->p, in ? "update inside restricted ranks" : "update outside restricted ranks"); free(nw); free(rs); xfree(v); sim_probe("par.restricted");
}
static void take(struct ps *z, const char *w) { double *s = ft_param_get_params_ref(z->f); memcpy(z->p, s, z->P * 8); agree(z, z->f, z->p, w); }
static void constant(struct ps *z)
{
    if (!linear(z)) return;
    double v = gen_coeff(), pert = sim_choose(2) ? 0 : sim_double(0.01, 1), x[PD]; ft_param_create_constant(z->f, v, 0); take(z, "constant");
    if (only(z, 1 << G_LEG | 1 << G_LIN | 1 << G_CONST)) { point(z, x); double g = function_train_eval(ft_param_get_ft(z->f), x); SIM_CHECK(fabs(g - v) <= 1e-11 * fabs(v), "par-constant", "%s: the constant %.17g has the value %.17g", z->who, v, g); }
    if (pert != 0) { double *p = xcalloc(z->P, 8); memcpy(p, z->p, z->P * 8); ft_param_create_constant(z->f, v, pert); take(z, "perturbed constant"); for (size_t i = 0; i < z->P; i++) SIM_CHECK(fabs(z->p[i] - p[i]) <= pert * (1 + 1e-12) + 1e-14 * fabs(p[i]), "par-constant", "%s: parameter %zu moved by %.17g, asked for at most %.17g", z->who, i, z->p[i] - p[i], pert); xfree(p); }
    sim_probe("par.constant");
}
static void linfit(struct ps *z)
{
    size_t d = z->d; if (!linear(z) || d < 2 || !only(z, 1 << G_LEG | 1 << G_LIN | 1 << G_KERNEL)) return; /* piecewise constants have no linear functions */
    size_t N = 3 * (d + 1) + sim_choose(6), m = d + 1; double *x = malloc(N * d * 8), *y = malloc(N * 8), G[PD + 1][PD + 1], xx[3 * (PD + 1) * PD + 6 * PD], yy[3 * (PD + 1) + 6]; for (size_t i = 0; i < N * d; i++) x[i] = sim_double(z->lb[i % d], z->ub[i % d]); int exact = (int)sim_choose(2); double w[PD + 1]; for (size_t k = 0; k <= d; k++) w[k] = gen_coeff(); for (size_t i = 0; i < N; i++) { y[i] = gen_coeff(); if (exact) { y[i] = w[d]; for (size_t k = 0; k < d; k++) y[i] += w[k] * x[i * d + k]; } }
    double ys = 0, xs = 1; for (size_t i = 0; i < N; i++) ys = fmax(ys, fabs(y[i])); for (size_t k = 0; k < d; k++) xs = fmax(xs, fmax(fabs(z->lb[k]), fabs(z->ub[k])));
    for (size_t a = 0; a < m; a++) for (size_t b = 0; b < m; b++) { G[a][b] = 0; for (size_t i = 0; i < N; i++) G[a][b] += (a < d ? x[i * d + a] : 1) * (b < d ? x[i * d + b] : 1) / (double)N; }
    int good = 1; for (size_t a = 0; a < m && good; a++) { if (G[a][a] < 1e-3) { good = 0; break; } for (size_t b = a + 1; b < m; b++) { double l = G[b][a] / G[a][a]; for (size_t c = a; c < m; c++) G[b][c] -= l * G[a][c]; } }
    if (good) {
        unsigned seed = (unsigned)sim_choose(100); memcpy(xx, x, N * d * 8); memcpy(yy, y, N * 8); ft_param_create_from_lin_ls(z->f, N, x, y, 0, sim_choose(2) ? &seed : NULL); SIM_CHECK(!memcmp(xx, x, N * d * 8) && !memcmp(yy, y, N * 8), "par-changes", "%s: the linear fit changed its data", z->who); take(z, "linear fit"); if (sim_flip(1, 3)) { double *q = xcalloc(z->P, 8), pt = sim_double(0.01, 1); memcpy(q, z->p, z->P * 8); struct FTparam *c = ft_param_copy(z->f); ft_param_create_from_lin_ls(c, N, x, y, pt, NULL); for (size_t i = 0; i < z->P; i++) { double e = ft_param_get_param(c, i) - q[i]; SIM_CHECK(fabs(e) <= pt * (1 + 1e-12) + 1e-14 * fabs(q[i]), "par-fit", "%s: a linear fit perturbed by at most %g moves parameter %zu by %g", z->who, pt, i, e); } ft_param_free(c); xfree(q); }
        int two = 1; for (size_t k = 1; k < d; k++) if (z->r[k] < 2) two = 0;
        if (two && only(z, 1 << G_LEG | 1 << G_LIN)) { double res[PD + 1] = { 0 }; for (size_t i = 0; i < N; i++) { double e = y[i] - function_train_eval(ft_param_get_ft(z->f), x + i * d); for (size_t k = 0; k <= d; k++) res[k] += e * (k < d ? x[i * d + k] : 1); if (exact) SIM_CHECK(fabs(e) <= 1e-7 * (ys + 1) * xs, "par-fit", "%s: linear data are missed by %g", z->who, e); } for (size_t k = 0; k <= d; k++) SIM_CHECK(fabs(res[k]) <= 1e-7 * (double)N * (ys + 1) * xs * xs, "par-fit", "%s: the residual of the linear fit is not orthogonal to variable %zu: %g", z->who, k, res[k]); sim_probe("par.fit"); }
    }
    free(x); free(y);
}
/* a train with shorter polynomials becomes a parameterised one */
static void adopt(struct ps *z)
{
    const struct po *o = &z->o[z->on]; size_t r[PD + 1]; ranks(z, o, r); if (!linear(z)) return; struct FunctionTrain *ft = function_train_alloc(z->d); memcpy(ft->ranks, r, (z->d + 1) * sizeof *r); double *p = xcalloc(PP, 8); size_t at = 0; int shorter = 0; double x[PD]; point(z, x);
    for (size_t k = 0; k < z->d; k++) { ft->cores[k] = qmarray_alloc(r[k], r[k + 1]); for (size_t j = 0; j < r[k] * r[k + 1]; j++, at += o->np[k]) {
        size_t n = o->n[k]; struct GenericFunction *g = generic_function_alloc(1, o->cls[k] == G_LIN ? LINELM : o->cls[k] == G_CONST ? CONSTELM : o->cls[k] == G_LEG ? POLYNOMIAL : KERNEL); g->fargs = NULL; for (size_t i = 0; i < n; i++) p[at + i] = gen_coeff();
        if (o->cls[k] == G_LEG) { size_t m = sim_range(1, n); if (m < n) shorter = 1; for (size_t i = m; i < n; i++) p[at + i] = 0; struct OrthPolyExpansion *e = orth_poly_expansion_init(LEGENDRE, m, z->lb[k], z->ub[k]); memcpy(e->coeff, p + at, m * 8); g->f = e; }
        else if (o->cls[k] == G_LIN) g->f = lin_elem_exp_init(n, o->nd[k], p + at); else if (o->cls[k] == G_CONST) g->f = const_elem_exp_init(n, o->nd[k], p + at); else { g->f = kernel_expansion_init(o->O[k]->aopts); kernel_expansion_update_params(g->f, n, p + at); }
        ft->cores[k]->funcs[j] = g; } }
    double e = ref_ft_eval(ft, x); ft_param_free(z->f); z->f = ft_param_alloc_with_ft(ft, o->M); memcpy(z->r, r, sizeof r); z->P = at; memcpy(z->p, p, at * 8); xfree(p); agree(z, z->f, z->p, "adopted train"); double g = function_train_eval(ft_param_get_ft(z->f), x); SIM_CHECK(fabs(g - e) <= near_tol(ft, x), "par-value", "%s: adopting the train changed its value from %.17g to %.17g", z->who, e, g); if (shorter) sim_probe("par.padded");
}
static void ops(struct ps *z)
{
    const struct po *o = &z->o[z->on]; unsigned op = (unsigned)sim_choose(16); sim_log("%s: operation %u, %zu parameters", z->who, op, z->P);
    switch (op) {
    case 0: { double *q = malloc(z->P * 8); values(z, o, z->r, z->p); memcpy(q, z->p, z->P * 8); ft_param_update_params(z->f, q); dirty(q, z->P); agree(z, z->f, z->p, "update"); free(q); break; }
    case 1: { size_t k = sim_choose(z->d), n = z->r[k] * z->r[k + 1] * o->np[k], lo = offset(z, k); double *q = xcalloc(z->P, 8), *c = malloc(n * 8); values(z, o, z->r, q); if (sim_choose(2)) twin(z, o, q); memcpy(c, q + lo, n * 8); memcpy(z->p + lo, c, n * 8); ft_param_update_core_params(z->f, k, c); xfree(q); agree(z, z->f, z->p, "update of one core");
        SIM_CHECK(function_train_core_get_nparams(ft_param_get_ft(z->f), k, NULL) == n, "par-count", "%s: parameters of core %zu", z->who, k); dirty(c, n); function_train_core_get_params(ft_param_get_ft(z->f), k, c); SIM_CHECK(!memcmp(c, z->p + lo, n * 8), "par-train", "%s: core %zu hands out other parameters", z->who, k); free(c); break; }
    case 2: { double *s = ft_param_get_params_ref(z->f), *q = xcalloc(z->P, 8); values(z, o, z->r, q); for (size_t i = 0; i < z->P; i++) if (sim_choose(3)) s[i] = z->p[i] = q[i]; xfree(q); ft_param_self_update_params(z->f); agree(z, z->f, z->p, "self update"); break; }
    case 3: { size_t n = sim_choose(z->P + 4), m = n < z->P ? n : z->P; double *q = malloc((n + 1) * 8); dirty(q, n + 1); SIM_CHECK(ft_param_get_params(z->f, n, q) == m, "par-count", "%s: asked for %zu parameters", z->who, n); for (size_t i = 0; i <= n; i++) SIM_CHECK(i < m ? same_bits(q[i], z->p[i]) : q[i] == 1e3 + (double)i, "par-vector", "%s: copy of %zu parameters, element %zu is %.17g", z->who, n, i, q[i]); free(q); size_t i = sim_choose(z->P); SIM_CHECK(same_bits(ft_param_get_param(z->f, i), z->p[i]), "par-vector", "%s: parameter %zu", z->who, i);
        struct FunctionTrain *ft = ft_param_get_ft(z->f); size_t mr = 0; double av = 0; for (size_t k = 0; k <= z->d; k++) { if (z->r[k] > mr) mr = z->r[k]; } for (size_t k = 1; k < z->d; k++) av += (double)z->r[k]; SIM_CHECK(function_train_get_maxrank(ft) == mr, "par-form", "%s: maximum rank", z->who); if (z->d > 1) SIM_CHECK(fabs(function_train_get_avgrank(ft) - av / (double)(z->d - 1)) < 1e-12, "par-form", "%s: average rank %g instead of %g", z->who, function_train_get_avgrank(ft), av / (double)(z->d - 1)); break; }
    case 4: { struct FTparam *c = ft_param_copy(z->f); agree(z, c, z->p, "copy"); double *q = xcalloc(z->P, 8); values(z, o, z->r, q); ft_param_update_params(c, q); agree(z, c, q, "updated copy"); agree(z, z->f, z->p, "after its copy changed"); if (sim_choose(2)) { ft_param_free(z->f); z->f = c; memcpy(z->p, q, z->P * 8); agree(z, z->f, z->p, "after the original is gone"); } else { ft_param_free(c); agree(z, z->f, z->p, "after its copy is gone"); } xfree(q); sim_probe("par.copy"); break; }
    case 5: { int b = (int)sim_choose(2), nl = (int)sim_choose(2); const struct po *n = &z->o[b]; size_t r[PD + 1]; if (sim_choose(2)) ranks(z, n, r); else { memcpy(r, z->r, sizeof r); if (count(z, r, n) > PP) ranks(z, n, r); } double *q = xcalloc(PP, 8), *c = malloc(PP * 8); values(z, n, r, q); memcpy(c, q, PP * 8); ft_param_update_structure(&z->f, n->M, r, nl ? NULL : c); free(c); z->on = b; memcpy(z->r, r, sizeof r); z->P = count(z, r, n); if (nl) take(z, "empty new structure"); else { memcpy(z->p, q, z->P * 8); agree(z, z->f, z->p, "new structure"); } if (nl) { for (size_t k = 0, at = 0; k < z->d; k++) for (size_t f = 0; f < z->r[k] * z->r[k + 1]; f++, at += n->np[k]) for (size_t i = 0; i < n->n[k]; i++) SIM_CHECK(z->p[at + i] == 0, "par-vector", "%s: a new parameterisation does not start at zero", z->who); } xfree(q); sim_probe("par.structure"); break; }
    case 6: case 7: restricted(z); break;
    case 8: constant(z); break;
    case 9: linfit(z); break;
    case 10: gradients(z); break;
    case 11: sweeps(z); break;
    case 12: hessian(z); break;
    case 13: inner(z); break;
    case 14: adopt(z); break;
    default: sqnorm(z); break;
    }
    agree(z, z->f, z->p, "afterwards");
}
static void session(void *a) { struct ps *z = a; for (size_t i = 0; i < z->ops; i++) { sim_yield(); ops(z); } }
void scn_param(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark(); size_t n = sim_flip(1, 3) ? 2 : 1; struct ps *s[2]; void *a[2]; sim_task_fn f[2] = { session, session }; sim_nontrivial();
    for (size_t i = 0; i < n; i++) {
        struct ps *z = a[i] = s[i] = xcalloc(1, sizeof *z); z->who = i ? "B" : "A"; z->d = sim_flip(1, 20) ? sim_range(5, PD) : sim_range(1, 4); if (z->d > 4) sim_probe("param.many_variables"); int same = (int)sim_choose(2), c0 = (int)sim_choose(4); enum gen_cls cls[PD]; for (size_t k = 0; k < z->d; k++) { z->lb[k] = sim_choose(2) ? sim_double(-3, 2) : -1.0; z->ub[k] = z->lb[k] + (sim_choose(2) ? sim_double(0.5, 3) : 2.0); cls[k] = ((enum gen_cls[]){ G_LEG, G_LIN, G_KERNEL, G_CONST })[same ? c0 : (int)sim_choose(4)]; }
        for (int q = 0; q < 2; q++) opts_make(z, &z->o[q], cls); ranks(z, &z->o[0], z->r); z->P = count(z, z->r, &z->o[0]); values(z, &z->o[0], z->r, z->p); z->ops = sim_range(1, 8);
        double *c = malloc(z->P * 8); memcpy(c, z->p, z->P * 8); size_t *r = malloc((z->d + 1) * sizeof *r); memcpy(r, z->r, (z->d + 1) * sizeof *r); z->f = ft_param_alloc(z->d, z->o[0].M, c, r); free(c); free(r); agree(z, z->f, z->p, "start"); sim_log("%s: %zu variables, %zu parameters, %zu operations", z->who, z->d, z->P, z->ops);
    }
    if (n == 2) { sim_tasks_run(2, f, a); sim_probe("par.two_tasks"); } else session(s[0]);
    sim_sample("%zu parameterised train(s), %zu variables, %zu parameters, %zu operations", n, s[0]->d, s[0]->P, s[0]->ops);
    for (size_t i = 0; i < n; i++) { ft_param_free(s[i]->f); for (int q = 0; q < 2; q++) opts_free(s[i], &s[i]->o[q]); xfree(s[i]); }
    char rep[300]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "par-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep);
}
