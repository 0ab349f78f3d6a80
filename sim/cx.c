#include "cx.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
const char *fk_name[] = { "low-rank", "smooth", "rough", "constant" }, *wk_name[] = { "general", "general-vec", "python", "mo-vec", "array-vec" };

static double hashval(double s, size_t n, const double *x)
{
    uint64_t h = 88172645463325252ULL + (uint64_t)(s * 1e6);
    for (size_t i = 0; i < n; i++) { union { double d; uint64_t u; } z = { x[i] + 0.0 }; h = (h ^ z.u) * 0x9e3779b97f4a7c15ULL; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32; }
    return (double)(h % 20001) / 10000.0 - 1.0;
}
/* value of output number `which` at x */
double cx_f(const struct cx *c, size_t which, const double *x)
{
    double f = 0, w = 1.0 + 0.25 * (double)which; size_t d = c->dim;
    switch (c->fk) {
    case FK_CONST: return w * c->fscale * c->co[0][0][0];
    case FK_ROUGH: return w * c->fscale * (2.5 + hashval(c->seed + (double)which, d, x));
    case FK_SMOOTH: for (size_t k = 0; k < d; k++) f += c->co[k][0][0] * x[k] + c->co[k][1][0] * x[k] * x[k]; return c->fscale * (exp(-0.3 * w * fabs(f)) + 1.0 / (2.0 + sin(f)));
    default:
        for (size_t r = 0; r < c->R; r++) {
            double p = 1;
            for (size_t k = 0; k < d; k++) { const double *a = c->co[k][r]; double t = x[k] - c->lb[k]; p *= 0.6 + a[0] + a[1] * t + a[2] * t * t + 0.5 * sin((1.0 + (double)r) * t + a[3]); }
            f += p * (r ? 1.0 : w);
        }
        return c->fscale * f;
    }
}
static void note(struct cx *c, const double *x, double v)
{
    for (size_t k = 0; k < c->cdim; k++) {
        SIM_CHECK(x[k] >= c->lb[k] && x[k] <= c->ub[k], "cross-outside", "%s: function requested at coordinate %zu = %a outside [%a,%a], request %zu", c->who, k, x[k], c->lb[k], c->ub[k], c->calls);
        if (c->grid) {
            int on = 0; for (size_t i = 0; i < c->N[k]; i++) on |= x[k] == c->nodes[k][i];
            SIM_CHECK(on, "cross-offgrid", "%s: function requested at coordinate %zu = %a, which is no node, request %zu", c->who, k, x[k], c->calls);
        }
        union { double d; uint64_t u; } z = { x[k] }; c->qh = (c->qh ^ z.u) * 0x100000001b3ULL;
    }
    if (c->calls == c->cap) { c->cap = c->cap ? 2 * c->cap : 512; c->q = __real_realloc(c->q, c->cap * sizeof *c->q); c->v = __real_realloc(c->v, c->cap * sizeof *c->v); }
    memset(c->q[c->calls], 0, sizeof *c->q); memcpy(c->q[c->calls], x, c->cdim * sizeof(double)); c->v[c->calls] = v; c->calls++;
    if (c->limit) SIM_CHECK(c->calls <= c->limit, "cross-limit", "%s: more than %zu evaluations requested", c->who, c->limit);
}
static double cb_scalar(const double *x, void *a) { struct cx *c = a; double v = cx_f(c, 0, x); note(c, x, v); if (c->yields) sim_yield(); return v; }
static int batch(struct cx *c, size_t n, size_t which, const double *x, double *out)
{
    c->batches++; if (c->yields) sim_yield();
    if (c->fail_at && c->batches == c->fail_at) { c->failed = 1; sim_fault(F_CB_ERROR); sim_allow_failstop(1); sim_log("%s: the function reports a failure", c->who); for (size_t i = 0; i < n; i++) out[i] = (i & 1) ? 1e3 : 0.0; return 1 + (int)(c->batches % 3) * 5 - 2 * (int)(c->batches % 2 == 0); }
    for (size_t i = 0; i < n; i++) { out[i] = cx_f(c, which, x + i * c->dim); note(c, x + i * c->dim, out[i]); }
    return 0;
}
static int cb_vec(size_t n, const double *x, double *out, void *a) { struct cx *c = a; return batch(c, n, c->wk == W_VEC || c->wk == W_PYTHON ? 0 : c->which, x, out); }
static int cb_mo(size_t n, size_t w, const double *x, double *out, void *a) { struct cx *c = a; SIM_CHECK(w == c->which, "fwrap-which", "output %zu asked for instead of %zu", w, c->which); return batch(c, n, w, x, out); }
static int cb_other(size_t n, const double *x, double *out, void *a) { (void)n; (void)x; (void)out; (void)a; sim_violation("fwrap-which", "a function of the array that was not selected was evaluated"); }

void cx_make(struct cx *c, int grid_only)
{
    memset(c, 0, sizeof *c); c->who = "A"; c->dim = c->cdim = sim_range(2, 4); size_t hiN = 12, hiR = 4; int size = (int)sim_choose(24); if (size < 22) size = 0;
    if (size == 22) { c->dim = c->cdim = sim_range(5, CXD); hiN = 7; hiR = 3; sim_probe("cross.many_variables"); }
    if (size == 23) { c->dim = c->cdim = sim_range(2, 3); hiN = c->dim == 2 ? CXN : 32; hiR = c->dim == 2 ? 12 : 7; sim_probe("cross.many_nodes"); }
    c->grid = grid_only || !sim_flip(1, 4);
    for (size_t k = 0; k < c->dim; k++) {
        c->lb[k] = sim_flip(1, 2) ? -1.0 : sim_double(-3, 2); c->ub[k] = sim_flip(1, 2) ? c->lb[k] + 2.0 : c->lb[k] + sim_double(0.3, 4);
        c->N[k] = sim_range(4, hiN); gen_nodes(c->N[k], c->lb[k], c->ub[k], c->nodes[k]);
        c->cls[k] = c->grid ? (sim_choose(2) ? G_CONST : G_LIN) : (sim_choose(3) ? G_LEG : G_LIN);
        for (size_t r = 0; r < 4; r++) for (size_t i = 0; i < 4; i++) c->co[k][r][i] = sim_double(-1, 1);
    }
    c->fk = (enum fkind)sim_choose(FK_NK); c->R = sim_range(1, 3); c->fscale = (double[]){ 1, 1e-3, 1e3, 7 }[sim_choose(4)]; c->seed = (double)sim_choose(1000);
    if (c->fk == FK_CONST && sim_flip(1, 6)) c->co[0][0][0] = 0;
    c->wk = (enum wkind)sim_choose(W_NK); c->nwhich = c->wk == W_MOVEC || c->wk == W_ARRAY ? sim_range(1, 4) : 1; c->which = sim_choose(c->nwhich);
    size_t nmin = CXN; for (size_t k = 0; k < c->dim; k++) if (c->N[k] < nmin) nmin = c->N[k];
    c->rank = sim_range(1, nmin <= hiR ? nmin - 1 : hiR); c->maxiter = sim_range(1, size ? 2 : 6); c->adapt = (int)sim_choose(2); c->kick = sim_range(1, 3); c->maxrank = c->rank + sim_choose(size ? 2 : 4); if (c->maxrank >= nmin) c->maxrank = nmin - 1;
    c->ctol = (double[]){ 1e-10, 0, 1e-4, 1e-14 }[sim_choose(4)]; c->rtol = (double[]){ 1e-10, 1e-6, 1e-14 }[sim_choose(3)];
    c->startnull = (int)sim_choose(2); c->optnodes = (int)sim_choose(2); c->het = sim_flip(1, 3);
    for (size_t k = 0; k <= c->dim; k++) c->ranks[k] = k == 0 || k == c->dim ? 1 : c->het && k > 1 ? sim_range(1, c->rank) : c->rank;
    if (c->grid && c->startnull) for (size_t k = 0; k < c->dim; k++) if (c->ranks[k ? k : 1] > 2 || c->ranks[k + 1 < c->dim ? k + 1 : k] > 2) c->startnull = 0;    /* default starts are evenly spaced over the domain */
}
void cx_wrap(struct cx *c)
{
    c->fw = fwrap_create(c->dim, wk_name[c->wk]);
    if (c->wk == W_GENERAL) fwrap_set_f(c->fw, cb_scalar, c);
    else if (c->wk == W_VEC || c->wk == W_PYTHON) fwrap_set_fvec(c->fw, cb_vec, c);
    else if (c->wk == W_MOVEC) { fwrap_set_mofvec(c->fw, cb_mo, c); fwrap_set_which_eval(c->fw, c->which); }
    else { fwrap_set_num_funcs(c->fw, c->nwhich); for (size_t i = 0; i < c->nwhich; i++) fwrap_set_func_array(c->fw, i, i == c->which ? cb_vec : cb_other, c); fwrap_set_which_eval(c->fw, c->which); }
}
static struct OneApproxOpts *mkopts(struct cx *c, size_t k)
{
    if (c->cls[k] == G_LIN) { c->nd[k] = calloc_double(c->N[k]); memcpy(c->nd[k], c->nodes[k], c->N[k] * 8); return one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(c->N[k], c->nd[k])); }
    if (c->cls[k] == G_CONST) { c->nd[k] = calloc_double(c->N[k]); memcpy(c->nd[k], c->nodes[k], c->N[k] * 8); return one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(c->N[k], c->nd[k])); }
    struct OpeOpts *o = ope_opts_alloc(LEGENDRE); ope_opts_set_lb(o, c->lb[k]); ope_opts_set_ub(o, c->ub[k]); ope_opts_set_start(o, c->N[k] < 8 ? c->N[k] : 8); ope_opts_set_maxnum(o, 16); ope_opts_set_tol(o, 1e-10); ope_opts_set_coeffs_check(o, 2);
    return one_approx_opts_alloc(POLYNOMIAL, o);
}
void cx_open(struct cx *c)
{
    c->a = c3approx_create(CROSS, c->dim);
    for (size_t k = 0; k < c->dim; k++) {
        c->o[k] = mkopts(c, k); c3approx_set_approx_opts_dim(c->a, k, c->o[k]);
        if (c->optnodes && c->cls[k] != G_LEG) { c->ov[k] = c3vector_alloc(c->N[k], c->nodes[k]); c3approx_set_opt_opts_dim(c->a, k, c->ov[k]); }
        else if (c->cls[k] == G_LEG || c->cls[k] == G_CONST) { double *s = linspace(c->lb[k], c->ub[k], 21); s[20] = c->ub[k]; c->ov[k] = c->grid ? c3vector_alloc(c->N[k], c->nodes[k]) : c3vector_alloc(21, s); free(s); c3approx_set_opt_opts_dim(c->a, k, c->ov[k]); }
    }
    cx_init_cross(c);
}
void cx_init_cross(struct cx *c)
{
    double **st = NULL;
    if (!c->startnull) {
        st = malloc_dd(c->dim);
        for (size_t k = 0; k < c->dim; k++) { size_t n = c->rank > 4 ? c->rank : 4; st[k] = calloc_double(n); for (size_t j = 0; j < n; j++) st[k][j] = c->nodes[k][(j * (c->N[k] - 1)) / (n - 1)]; }
    }
    if (c->het) c3approx_init_cross_het(c->a, c->ranks, 0, st); else c3approx_init_cross(c->a, c->rank, 0, st);
    if (st) free_dd(c->dim, st);
    c3approx_set_verbose(c->a, 0); c3approx_set_cross_tol(c->a, c->ctol); c3approx_set_round_tol(c->a, c->rtol); c3approx_set_adapt_kickrank(c->a, c->kick); c3approx_set_cross_maxiter(c->a, c->maxiter); c3approx_set_adapt_maxrank_all(c->a, c->maxrank);
}
/* evaluations that sweeps with these limits can need */
size_t cx_limit(const struct cx *c)
{
    size_t rm = c->adapt ? c->maxrank : c->rank, sweep = 0, crosses = c->adapt ? 1 + (c->dim - 1) * (c->maxrank) : 1;
    for (size_t k = 0; k < c->dim; k++) sweep += (k ? rm : 1) * (k + 1 < c->dim ? rm : 1) * (c->cls[k] == G_LEG ? 200 : c->N[k]);
    return crosses * c->maxiter * 2 * sweep;
}
void cx_close(struct cx *c)
{
    c3approx_destroy(c->a); fwrap_destroy(c->fw);
    for (size_t k = 0; k < c->dim; k++) { if (c->o[k]) one_approx_opts_free_deep(&c->o[k]); c3vector_free(c->ov[k]); free(c->nd[k]); c->nd[k] = NULL; c->ov[k] = NULL; }
    xfree(c->q); xfree(c->v); c->q = NULL; c->v = NULL; c->cap = 0;
}
