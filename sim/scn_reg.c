/* Regression (C15) and cross validation (C16). */
#include "prog.h"
#include "superlearn.h"
#include "regress.h"
#include "superlearn_util.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>

#define RD 4
#define RN 90
#define RP 320
#define RK 5
struct prob {
    const char *who; size_t d, N, r[RD + 1], np[RD]; enum gen_cls cls[RD]; int adaptc[RD]; double nodes[RD][RK], lb[RD], ub[RD], width[RD], x[RN * RD], y[RN], w[RN];
    int als, sparse, weighted, zero, store, alg, ls; size_t maxiter, sweeps, P; double lam, p0[RP], alstol; unsigned seed;
    int krist, rankadapt; size_t maxrank, kick, kfold; int final; double rtol;
};
struct out { double p[RP]; size_t P, ne, r[RD + 1]; double f0, f1, fn[4096]; int nf; };
struct set { struct MultiApproxOpts *M; struct OneApproxOpts *O[RD]; double *nd[RD]; struct FTRegress *reg; struct c3Opt *opt; };

static void draw(struct prob *q, int cvmode)
{
    size_t d = q->d = sim_range(cvmode == 2 ? 2 : 1, RD); q->N = sim_range(cvmode == 2 ? 3 : cvmode ? 4 : 1, 14); if (sim_flip(1, 16)) { q->N = sim_range(15, cvmode ? 32 : RN); sim_probe("reg.many_samples"); } q->als = d > 1 && sim_choose(2); q->sparse = (int)sim_choose(2); q->weighted = (int)sim_choose(2); q->lam = (double[]){ 1e-10, 1e-3, 0.1, 1 }[sim_choose(4)];
    q->alg = ((int[]){ BFGS, LBFGS, BATCHGRAD, SGD })[sim_choose(cvmode || q->N < 2 ? 3 : 4)]; q->ls = (int)sim_choose(2); q->maxiter = sim_range(1, cvmode ? 4 : 12); q->sweeps = sim_range(1, 3); q->store = (int)sim_choose(2); q->seed = (unsigned)sim_choose(1000); q->alstol = (double[]){ 1e-5, 1e-1, 0, 1e9 }[sim_choose(4)];
    if (q->alg == SGD) q->store = 0;
    int same = (int)sim_choose(2), c0 = cvmode == 2 ? (sim_choose(2) ? 3 : 0) : (int)sim_choose(4); if (cvmode == 2) same = 1; int konst = 0; q->r[0] = q->r[d] = 1; for (size_t k = 1; k < d; k++) q->r[k] = sim_range(1, 3);
    q->P = 0;
    for (size_t k = 0; k < d; k++) {
        q->cls[k] = ((enum gen_cls[]){ G_LIN, G_KERNEL, G_CONST, G_LEG })[same ? c0 : (int)sim_choose(4)]; konst |= q->cls[k] == G_CONST; q->lb[k] = sim_choose(2) ? sim_double(-3, 2) : -1.0; q->ub[k] = q->lb[k] + (sim_choose(2) ? sim_double(0.5, 3) : 2.0);
        size_t n = sim_range(cvmode == 2 ? 4 : 2, RK); gen_nodes(n, q->lb[k], q->ub[k], q->nodes[k]); q->width[k] = sim_double(0.2, 1.0) * (q->ub[k] - q->lb[k]); q->adaptc[k] = q->cls[k] == G_KERNEL && !q->als && !q->sparse && sim_flip(1, 4); /* neither sums nor norm gradients of moving kernels exist */ q->np[k] = n; q->P += q->r[k] * q->r[k + 1] * n * (q->adaptc[k] ? 2 : 1);
    }
    q->krist = 1; for (size_t k = 0; k < d; k++) if (q->cls[k] != G_LEG) q->krist = 0; if (q->krist) q->krist = (int)sim_choose(2); if (q->krist) q->sparse = 0; /* norms of weighted polynomials are refused */
    if (konst) q->sparse = 0; /* the norm's gradient is not implemented for piecewise constants */
    q->zero = !konst && q->alg != SGD && sim_flip(1, 3);
    for (size_t k = 0; k < d; k++) if (q->zero) { if (q->adaptc[k]) q->P -= q->r[k] * q->r[k + 1] * q->np[k]; q->adaptc[k] = 0; }
    if (q->zero || cvmode == 2) for (size_t i = 0; i < q->N * d; i++) q->x[i] = sim_double(q->lb[i % d], q->ub[i % d]); /* the start is a linear fit, whose normal equations must not be singular */
    else gen_points(q->N, d, q->lb, q->ub, q->x);
    for (size_t i = 0; i < q->N; i++) { q->y[i] = gen_coeff(); q->w[i] = sim_choose(q->alg == SGD ? 3 : 8) ? sim_double(0.1, 3) : 0; }
    if (!q->zero && cvmode != 2 && sim_flip(1, 6)) for (size_t i = 1; i < q->N; i++) if (sim_choose(3) == 0) memcpy(q->x + i * d, q->x + (i - 1) * d, d * 8);
    size_t at = 0; memset(q->p0, 0, sizeof q->p0);
    if (!q->zero) for (size_t k = 0; k < d; k++) for (size_t f = 0; f < q->r[k] * q->r[k + 1]; f++) { for (size_t i = 0; i < q->np[k]; i++) q->p0[at++] = gen_coeff(); if (q->adaptc[k]) for (size_t i = 0; i < q->np[k]; i++) q->p0[at++] = q->nodes[k][i]; }
    if (!q->zero) { double s = 0; for (size_t i = 0; i < q->P; i++) s += q->p0[i] * q->p0[i]; if (s < 1e-6) q->p0[0] = 1; }
    if (q->alg == SGD) { double m = 0; for (size_t i = 0; i < q->P; i++) m = fmax(m, fabs(q->p0[i])); for (size_t i = 0; i < q->P && m > 0.3; i++) q->p0[i] *= 0.3 / m; m = 0; for (size_t i = 0; i < q->N; i++) m = fmax(m, fabs(q->y[i])); for (size_t i = 0; i < q->N && m > 10; i++) q->y[i] *= 10 / m; } /* a fixed step diverges otherwise */
    q->rankadapt = 0;
}
static void build(const struct prob *q, struct set *s)
{
    s->M = multi_approx_opts_alloc(q->d);
    for (size_t k = 0; k < q->d; k++) {
        size_t n = q->np[k]; s->nd[k] = calloc_double(n); memcpy(s->nd[k], q->nodes[k], n * 8);
        if (q->cls[k] == G_LEG) { struct OpeOpts *o = ope_opts_alloc(LEGENDRE); ope_opts_set_lb(o, q->lb[k]); ope_opts_set_ub(o, q->ub[k]); ope_opts_set_nparams(o, n); s->O[k] = one_approx_opts_alloc(POLYNOMIAL, o); }
        else if (q->cls[k] == G_KERNEL) { struct KernelApproxOpts *o = kernel_approx_opts_gauss(n, s->nd[k], 1.0, q->width[k]); kernel_approx_opts_set_center_adapt(o, q->adaptc[k]); s->O[k] = one_approx_opts_alloc(KERNEL, o); }
        else s->O[k] = q->cls[k] == G_LIN ? one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(n, s->nd[k])) : one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(n, s->nd[k]));
        multi_approx_opts_set_dim(s->M, k, s->O[k]);
    }
    size_t r[RD + 1]; memcpy(r, q->r, sizeof r);
    s->reg = ft_regress_alloc(q->d, s->M, r); ft_regress_set_alg_and_obj(s->reg, q->als ? ALS : AIO, q->sparse ? FTLS_SPARSEL2 : FTLS); ft_regress_set_regularization_weight(s->reg, q->lam); ft_regress_set_seed(s->reg, q->seed); ft_regress_set_max_als_sweep(s->reg, q->sweeps); ft_regress_set_als_conv_tol(s->reg, q->alstol);
    if (q->weighted) ft_regress_set_sample_weights(s->reg, q->w);
    if (q->krist) { ft_regress_set_kristoffel(s->reg, 1); sim_probe("reg.kristoffel"); }
    if (q->rankadapt) { ft_regress_set_adapt(s->reg, 1); ft_regress_set_maxrank(s->reg, q->maxrank); ft_regress_set_kickrank(s->reg, q->kick); ft_regress_set_kfold(s->reg, q->kfold); ft_regress_set_finalize(s->reg, q->final); ft_regress_set_roundtol(s->reg, q->rtol); }
    s->opt = c3opt_create((enum c3opt_alg)q->alg); c3opt_set_maxiter(s->opt, q->maxiter); c3opt_set_verbose(s->opt, 0); if (q->store) c3opt_set_storage_options(s->opt, 1, 1, 1);
    if (q->alg == SGD) { c3opt_set_sgd_nsamples(s->opt, q->N); c3opt_set_sgd_learn_rate(s->opt, 1e-6); c3opt_set_gtol(s->opt, 0); c3opt_set_relftol(s->opt, 0); c3opt_set_absxtol(s->opt, 0); }
    if (!q->zero) ft_regress_update_params(s->reg, q->p0);
}
static void destroy(const struct prob *q, struct set *s)
{
    ft_regress_free(s->reg); c3opt_free(s->opt); for (size_t k = 0; k < q->d; k++) { one_approx_opts_free_deep(&s->O[k]); free(s->nd[k]); } multi_approx_opts_free(s->M);
}
/* the size of the basis at a point, by which residuals are divided with Kristoffel weighting */
static double kw(const struct prob *q, const struct FunctionTrain *ft, const double *x)
{
    double r = 1; for (size_t k = 0; q->krist && k < q->d; k++) {
        size_t n = ((struct OrthPolyExpansion *)ft->cores[k]->funcs[0]->f)->num_poly; double t = (2 * x[k] - q->lb[k] - q->ub[k]) / (q->ub[k] - q->lb[k]), a = 1, b = t, s = 0;
        for (size_t j = 0; j < n; j++) { s += (2 * (double)j + 1) * a * a; double c = ((2 * (double)j + 3) * t * b - ((double)j + 1) * a) / ((double)j + 2); a = b; b = c; }
        r *= s / (double)n;
    }
    return r;
}
static double ls(const struct prob *q, struct FunctionTrain *ft, double *scale)
{
    double s = 0, m = 0; for (size_t i = 0; i < q->N; i++) { double v = ref_ft_eval(ft, q->x + i * q->d), e = q->y[i] - v, w = (q->weighted ? q->w[i] : 1) / kw(q, ft, q->x + i * q->d); s += w * e * e; m += w * (v * v + q->y[i] * q->y[i]); }
    if (scale) *scale = m / (double)q->N;
    return s / (double)q->N;
}
static double reg1(const struct prob *q, struct FunctionTrain *ft, size_t k) { double s = 0; struct Qmarray *c = ft->cores[k]; for (size_t j = 0; j < c->nrows * c->ncols; j++) s += 0.5 * q->lam * generic_function_inner(c->funcs[j], c->funcs[j]); return s; }
/* the documented objective; only >= 0: the part of the regularisation that belongs to that core */
static double J(const struct prob *q, struct FunctionTrain *ft, int only, double *scale)
{
    double s = ls(q, ft, scale); if (q->sparse) for (size_t k = 0; k < q->d; k++) if (only < 0 || only == (int)k) s += reg1(q, ft, k);
    if (scale) *scale += s;
    return s;
}
static void close_to(double a, double b, double scale, const char *who, const char *what) { SIM_CHECK(fabs(a - b) <= 1e-8 * fabs(b) + 1e-11 * (scale + 1), "reg-objective", "%s: %s is %.17g, the data give %.17g", who, what, a, b); }
/* the gradients the optimiser was given */
static void check_trace(const struct prob *q, struct c3Opt *opt, struct FunctionTrain *ft, size_t lo, size_t n, int only)
{
    char nm[16]; sprintf(nm, "tr%s", q->who); FILE *fp = fopen(nm, "w"); c3opt_print_stored_values(opt, fp, 3, 17); fclose(fp); size_t len = sim_disk_size(nm), row = 0; char *t = xcalloc(len + 1, 1), *p, *e; memcpy(t, sim_disk_data(nm), len); 
    double *tg = xcalloc(2 * n, 8), *tx = tg + n, *full = xcalloc(2 * RP, 8), tf; size_t P = function_train_get_params(ft, full), want = c3opt_get_niters(opt); struct FunctionTrain *c = function_train_copy(ft);
    for (p = strchr(t, '\n') + 1; *p; row++) {
        strtoul(p, &e, 10); p = e; tf = strtod(p, &e); p = e; for (size_t i = 0; i < n; i++) { tg[i] = strtod(p, &e); p = e; } for (size_t i = 0; i < n; i++) { tx[i] = strtod(p, &e); p = e; } while (*p == ' ') p++;
        SIM_CHECK(*p == '\n', "reg-trace", "%s: trace line %zu malformed", q->who, row); p++;
        memcpy(full + lo, tx, n * 8); function_train_update_params(c, full); double sc, v = J(q, c, only, &sc); close_to(tf, v, sc, q->who, "a recorded objective value");
        if (row > 2 && row + 1 < want) continue;
        double gm = 0; for (size_t i = 0; i < n; i++) gm = fmax(gm, fabs(tg[i]));
        for (size_t i = 0; i < n; i++) {
            size_t at = lo + i; int smooth = 1; size_t a = 0; for (size_t k = 0; k < q->d; k++) { size_t m = q->r[k] * q->r[k + 1] * q->np[k] * (q->adaptc[k] ? 2 : 1); if (at < a + m) { smooth = !q->adaptc[k]; break; } a += m; }
            double h = smooth ? 0.25 : 1e-4, s1, s2; full[at] = tx[i] + h; function_train_update_params(c, full); double f1 = J(q, c, only, &s1); full[at] = tx[i] - h; function_train_update_params(c, full); double f2 = J(q, c, only, &s2), fd = (f1 - f2) / (2 * h), cur = 0; if (!smooth) { double g1, g2; full[at] = tx[i] + h / 2; function_train_update_params(c, full); g1 = J(q, c, only, NULL); full[at] = tx[i] - h / 2; function_train_update_params(c, full); g2 = J(q, c, only, NULL); cur = fabs((g1 - g2) / h - fd); } full[at] = tx[i];
            SIM_CHECK(fabs(fd - tg[i]) <= 1e-6 * (fabs(fd) + gm) + (smooth ? 1e-10 : 1e-5) * (s1 + s2 + 1) + 4 * cur, "reg-gradient", "%s: recorded derivative of parameter %zu at iterate %zu is %.12g, the objective's is %.12g", q->who, at, row, tg[i], fd);
        }
    }
    SIM_CHECK(row == want && row > 0, "reg-trace", "%s: %zu lines in the trace of %zu iterates", q->who, row, want);
    xfree(t); xfree(tg); xfree(full); function_train_free(c); (void)P; sim_probe("reg.gradient");
}
/* stochastic gradient descent on the same samples, with the objective of one sample computed here */
struct sgdref { const struct prob *q; struct FunctionTrain *ft; double *full; size_t evals; };
static double sgd_one(const struct sgdref *r, size_t i) { const struct prob *q = r->q; double e = q->y[i] - ref_ft_eval(r->ft, q->x + i * q->d), s = (q->weighted ? q->w[i] : 1) / kw(q, r->ft, q->x + i * q->d) * e * e; if (q->sparse) for (size_t k = 0; k < q->d; k++) s += reg1(q, r->ft, k); return s; }
static double sgd_f(size_t n, size_t i, const double *x, double *g, void *a)
{
    struct sgdref *r = a; memcpy(r->full, x, n * 8); function_train_update_params(r->ft, r->full); double v = sgd_one(r, i); r->evals++;
    for (size_t k = 0; g && k < n; k++) { r->full[k] = x[k] + 0.25; function_train_update_params(r->ft, r->full); double f1 = sgd_one(r, i); r->full[k] = x[k] - 0.25; function_train_update_params(r->ft, r->full); double f2 = sgd_one(r, i); r->full[k] = x[k]; g[k] = (f1 - f2) / 0.5; }
    return v;
}
static void check_sgd(const struct prob *q, struct FunctionTrain *f0, const double *got)
{
    for (size_t k = 0; k < q->d; k++) if (q->adaptc[k]) return;
    if (q->als || q->zero || q->rankadapt || q->N * q->P > 600) return;
    struct sgdref r = { q, function_train_copy(f0), xcalloc(q->P, 8), 0 }; double *p = xcalloc(q->P, 8), f, m = 0, w = 0; memcpy(p, q->p0, q->P * 8); struct c3Opt *o = c3opt_create(SGD); c3opt_set_maxiter(o, q->maxiter); c3opt_set_verbose(o, 0); c3opt_set_sgd_nsamples(o, q->N); c3opt_set_sgd_learn_rate(o, 1e-6); c3opt_set_gtol(o, 0); c3opt_set_relftol(o, 0); c3opt_set_absxtol(o, 0); c3opt_set_nvars(o, q->P); c3opt_add_objective_stoch(o, sgd_f, &r); srand(q->seed); c3opt_minimize(o, p, &f);
    for (size_t i = 0; i < q->P; i++) { m = fmax(m, fabs(p[i] - q->p0[i])); w = fmax(w, fabs(p[i])); }
    for (size_t i = 0; i < q->P; i++) SIM_CHECK(fabs(p[i] - got[i]) <= 1e-3 * m + 1e-13 * (w + 1), "reg-stochastic", "%s: stochastic descent moves parameter %zu by %.12g, on the objective of the same samples by %.12g", q->who, i, got[i] - q->p0[i], p[i] - q->p0[i]);
    c3opt_free(o); function_train_free(r.ft); xfree(r.full); xfree(p); sim_probe("reg.stochastic");
}
/* rank adaptation, step by step */
static void ref_adapt(const struct prob *q, const struct out *o)
{
    struct prob *t = xcalloc(1, sizeof *t); *t = *q; t->rankadapt = 0; struct set s; build(t, &s); size_t d = q->d, rk[RD + 1]; unsigned sd = q->seed; double p[RP];
    if (q->zero) { ft_param_create_from_lin_ls(ft_regress_get_ft_param(s.reg), q->N, q->x, q->y, 1e-2, &sd); ft_regress_set_seed(s.reg, sd); }
    struct CrossValidate *cv = cross_validate_init(q->N, d, q->x, q->y, q->kfold < q->N ? q->kfold : q->N, 0); double err = cross_validate_run(cv, s.reg, s.opt); struct FunctionTrain *ft = ft_regress_run(s.reg, s.opt, q->N, q->x, q->y), *rd; memcpy(rk, ft->ranks, (d + 1) * sizeof *rk); int near = 0;
    for (int it = 0; it < 10; it++) {
        rd = function_train_round(ft, q->rtol, s.M); int allmax = 1, kick = 0; for (size_t k = 1; k < d; k++) if (rk[k] < q->maxrank) allmax = 0;
        for (size_t k = 1; k < d; k++) if (rd->ranks[k] == rk[k]) { kick = 1; rk[k] += q->kick; if (rk[k] > q->maxrank) rk[k] = q->maxrank; }
        if (!kick || allmax) { function_train_free(rd); sim_probe(kick ? "reg.ranks_at_limit" : "reg.ranks_settled"); break; }
        ft_regress_reset_param(s.reg, s.M, rk); function_train_free(ft); double e = cross_validate_run(cv, s.reg, s.opt); if (fabs(e - err) <= 1e-9 * fabs(err)) near = 1;
        if (e > err) {
            ft_regress_reset_param(s.reg, s.M, rd->ranks); struct FTparam *fp = ft_regress_get_ft_param(s.reg); double *full = xcalloc(ft_param_get_nparams(fp), 8), one[64]; size_t at = 0; struct FunctionTrain *g = ft_param_get_ft(fp);
            for (size_t k = 0; k < d; k++) for (size_t j = 0; j < rd->ranks[k] * rd->ranks[k + 1]; j++) { size_t nu = generic_function_get_num_params(g->cores[k]->funcs[j]), no = generic_function_get_params(rd->cores[k]->funcs[j], one); memcpy(full + at, one, (no < nu ? no : nu) * 8); at += nu; }
            ft_param_update_params(fp, full); xfree(full); ft = function_train_copy(g); function_train_free(rd); sim_probe("reg.kick_rejected"); break;
        }
        ft = ft_regress_run(s.reg, s.opt, q->N, q->x, q->y); err = e; function_train_free(rd); sim_probe("reg.kick_kept");
    }
    if (q->final) { function_train_free(ft); ft = ft_regress_run(s.reg, s.opt, q->N, q->x, q->y); }
    if (!near) {
        for (size_t k = 0; k <= d; k++) SIM_CHECK(ft->ranks[k] == o->r[k], "reg-adapt", "%s: rank %zu is %zu after adaptation, the documented steps give %zu", q->who, k, o->r[k], ft->ranks[k]);
        size_t n = function_train_get_params(ft, p); double m = 0; for (size_t i = 0; i < n; i++) m = fmax(m, fabs(p[i])); SIM_CHECK(n == o->P, "reg-adapt", "%s: %zu parameters instead of %zu", q->who, o->P, n); for (size_t i = 0; i < n; i++) SIM_CHECK(fabs(p[i] - o->p[i]) <= 1e-6 * m, "reg-adapt", "%s: parameter %zu is %.12g after adaptation, the documented steps give %.12g", q->who, i, o->p[i], p[i]);
    }
    function_train_free(ft); cross_validate_free(cv); destroy(t, &s); xfree(t); sim_probe("reg.adapt_steps");
}
/* one regression from scratch; everything observable goes to o */
static void one(const struct prob *q, struct out *o, int again, int check)
{
    struct set s; build(q, &s); double x[RN * RD], y[RN], w[RN]; memcpy(x, q->x, sizeof x); memcpy(y, q->y, sizeof y); memcpy(w, q->w, sizeof w);
    struct FunctionTrain *f0 = NULL; double sc, j0 = 0, j1; memset(o, 0, sizeof *o); size_t np;
    if (!q->zero && check) { f0 = function_train_copy(ft_param_get_ft(ft_regress_get_ft_param(s.reg))); j0 = J(q, f0, -1, &sc); double *p = ft_regress_get_params(s.reg, &np); SIM_CHECK(np == q->P && memcmp(p, q->p0, np * 8) == 0, "reg-params", "%s: start parameters differ", q->who); free(p); }
    for (int rep = 0; rep <= again; rep++) {
        if (q->alg == SGD) srand(q->seed);
        struct FunctionTrain *ft = ft_regress_run(s.reg, s.opt, q->N, q->x, q->y);
        SIM_CHECK(memcmp(x, q->x, sizeof x) == 0 && memcmp(y, q->y, sizeof y) == 0 && memcmp(w, q->w, sizeof w) == 0, "reg-data", "%s: regression changed its data", q->who);
        SIM_CHECK(ft && ft->dim == q->d, "reg-result", "%s: no function of dimension %zu", q->who, q->d); memcpy(o->r, ft->ranks, (q->d + 1) * sizeof(size_t));
        struct FTparam *fp = ft_regress_get_ft_param(s.reg); double *p = ft_regress_get_params(s.reg, &np); o->P = np; SIM_CHECK(np <= RP && np == function_train_get_nparams(ft) && np == ft_param_get_nparams(fp), "reg-params", "%s: %zu parameters", q->who, np);
        function_train_get_params(ft, o->p); double *pp = ft_param_get_params_ref(fp); SIM_CHECK(memcmp(p, o->p, np * 8) == 0 && memcmp(pp, o->p, np * 8) == 0, "reg-params", "%s: the returned function and the regression object have different parameters", q->who); free(p);
        if (!q->rankadapt) SIM_CHECK(np == q->P && memcmp(o->r, q->r, (q->d + 1) * sizeof(size_t)) == 0, "reg-params", "%s: the structure changed", q->who);
        if (check) {
            j1 = J(q, ft, -1, &sc); o->f1 = j1; SIM_CHECK(isfinite(j1), "reg-objective", "%s: final objective %g", q->who, j1);
            if (f0 && rep == 0 && q->alg != SGD && !q->rankadapt) { SIM_CHECK(j1 <= j0 * (1 + 1e-9) + 1e-11 * (sc + 1), "reg-worse", "%s: the objective rose from %.12g to %.12g", q->who, j0, j1); sim_probe("reg.improved"); }
            if (f0 && rep == 0 && q->alg == SGD) check_sgd(q, f0, o->p);
            if (q->store && !q->rankadapt) {
                if (!q->als) { size_t it = c3opt_get_niters(s.opt); close_to(c3opt_get_stored_function(s.opt, it - 1), j1, sc, q->who, "the last recorded objective value"); if (f0 && rep == 0) close_to(c3opt_get_stored_function(s.opt, 0), j0, sc + j0, q->who, "the first recorded objective value"); check_trace(q, s.opt, ft, 0, q->P, -1); }
                else {
                    size_t ne = ft_regress_get_nepochs(s.reg); o->ne = ne; SIM_CHECK(ne >= q->d, "reg-epochs", "%s: %zu objective values for %zu cores", q->who, ne, q->d); size_t nc = q->d + (q->d > 2 ? q->d - 2 : 0), sw = q->alstol > 1 && f0 && !q->sparse && function_train_norm2(ft) > 1e-4 * function_train_norm2(f0) ? 1 : q->sweeps; SIM_CHECK(ne <= sw * nc * (q->maxiter + 3), "reg-sweeps", "%s: %zu values of at most %zu iterations for %zu sweeps over %zu cores", q->who, ne, q->maxiter, sw, nc); if (q->alstol == 0) { SIM_CHECK(ne >= sw * nc, "reg-sweeps", "%s: %zu objective values for %zu sweeps over %zu cores that nothing stops", q->who, ne, sw, nc); sim_probe("reg.full_sweeps"); } int last = q->d > 2 ? 1 : (int)q->d - 1;
                    double jl = J(q, ft, last, &sc), prev = INFINITY; close_to(ft_regress_get_stored_fvals(s.reg, ne - 1), jl, sc, q->who, "the last recorded objective value"); if (f0 && rep == 0) close_to(ft_regress_get_stored_fvals(s.reg, 0), J(q, f0, 0, &sc), sc, q->who, "the first recorded objective value");
                    for (size_t i = 0; i < ne; i++) { double v = ft_regress_get_stored_fvals(s.reg, i); if (i < 4096) { o->fn[i] = v; o->nf = (int)i + 1; } if (!q->sparse) { SIM_CHECK(v <= prev * (1 + 1e-9) + 1e-11 * (sc + 1), "reg-worse", "%s: recorded objective value %zu rose from %.12g to %.12g", q->who, i, prev, v); prev = v; } }
                    size_t lo = 0; for (int k = 0; k < last; k++) lo += q->r[k] * q->r[k + 1] * q->np[k] * (q->adaptc[k] ? 2 : 1); check_trace(q, s.opt, ft, lo, q->r[last] * q->r[last + 1] * q->np[last] * (q->adaptc[last] ? 2 : 1), last); sim_probe("reg.als_trace");
                }
            }
        }
        function_train_free(ft); if (rep < again) sim_yield();
    }
    if (f0) function_train_free(f0);
    destroy(q, &s);
}
static void same_out(const struct out *a, const struct out *b, const char *who, const char *what)
{
    SIM_CHECK(a->P == b->P && memcmp(a->r, b->r, sizeof a->r) == 0, "reg-repeat", "%s: %s has another structure", who, what);
    for (size_t i = 0; i < a->P; i++) SIM_CHECK(same_bits(a->p[i], b->p[i]), "reg-repeat", "%s: %s gives parameter %zu = %a instead of %a", who, what, i, b->p[i], a->p[i]);
    SIM_CHECK(a->ne == b->ne && a->nf == b->nf, "reg-repeat", "%s: %s records %zu values instead of %zu", who, what, b->ne, a->ne); for (int i = 0; i < a->nf; i++) SIM_CHECK(same_bits(a->fn[i], b->fn[i]), "reg-repeat", "%s: %s records another objective value %d", who, what, i);
}
/* alternating sweeps end after the first one that changed the function, relative to its norm, by less than the tolerance */
static void check_sweeps(const struct prob *q, const struct out *o)
{
    if (!q->als || q->zero || q->rankadapt || q->sweeps < 2 || q->alstol == 0 || q->alstol > 1) return;
    struct prob *c = xcalloc(1, sizeof *c); struct out *t = xcalloc(1, sizeof *t); *c = *q; c->alstol = 0; struct FunctionTrain *prev = NULL; size_t k; int near = 0;
    for (k = 1; k <= q->sweeps; k++) {
        struct set s; c->sweeps = k; build(c, &s); if (!prev) prev = function_train_copy(ft_param_get_ft(ft_regress_get_ft_param(s.reg))); if (q->alg == SGD) srand(q->seed);
        struct FunctionTrain *ft = ft_regress_run(s.reg, s.opt, q->N, q->x, q->y); function_train_get_params(ft, t->p); double e = function_train_norm2diff(ft, prev), no = function_train_norm2(ft), rel = e / no; function_train_free(prev); prev = ft; destroy(c, &s);
        if (!isfinite(rel) || fabs(rel - q->alstol) <= 1e-3 * q->alstol || e <= 1e-6 * no) near |= !(rel < q->alstol && k < q->sweeps && e == 0); /* cancellation decides */
        if (rel < q->alstol) break;
    }
    if (!near) { if (k > q->sweeps) k = q->sweeps; else if (k < q->sweeps) sim_probe("reg.early_stop"); for (size_t i = 0; i < o->P; i++) SIM_CHECK(same_bits(t->p[i], o->p[i]), "reg-sweeps", "%s: with a tolerance of %g the sweeps do not end after number %zu of %zu (parameter %zu is %a, not %a)", q->who, q->alstol, k, q->sweeps, i, o->p[i], t->p[i]); sim_probe("reg.sweep_stop"); }
    function_train_free(prev); xfree(c); xfree(t);
}
struct job { struct prob *q; struct out *o; };
static void job(void *a) { struct job *j = a; one(j->q, j->o, 0, 1); }

void scn_regress(int inc)
{
    (void)inc; sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); struct prob *q = xcalloc(2, sizeof *q); struct out *o = xcalloc(6, sizeof *o); uint64_t m0 = sim_heap_mark();
    size_t n = sim_flip(1, 2) ? 2 : 1; int radapt = n == 1 && sim_flip(1, 3); for (size_t i = 0; i < n; i++) { q[i].who = i ? "B" : "A"; draw(&q[i], radapt ? 2 : 0); }
    if (radapt) { q->rankadapt = 1; q->maxrank = sim_range(1, 3); q->kick = sim_range(1, 2); q->kfold = sim_range(2, 5); q->final = (int)sim_choose(2); q->rtol = (double[]){ 1e-8, 1e-3, 1e-1 }[sim_choose(3)]; q->store = 0; }
    sim_nontrivial(); for (size_t i = 0; i < n; i++) { char cc[8] = ""; for (size_t k = 0; k < q[i].d; k++) cc[k] = "LKCP"[q[i].cls[k] == G_LIN ? 0 : q[i].cls[k] == G_KERNEL ? 1 : q[i].cls[k] == G_CONST ? 2 : 3]; sim_log("%s: %s d %zu N %zu P %zu %s %s alg %d maxiter %zu zero %d weighted %d krist %d store %d adapt %d", q[i].who, cc, q[i].d, q[i].N, q[i].P, q[i].als ? "ALS" : "AIO", q[i].sparse ? "sparse" : "ls", q[i].alg, q[i].maxiter, q[i].zero, q[i].weighted, q[i].krist, q[i].store, q[i].rankadapt); }
    for (size_t i = 0; i < n; i++) { one(&q[i], &o[i], 0, 1); sim_log("%s: objective %a", q[i].who, o[i].f1); check_sweeps(&q[i], &o[i]); if (q[i].rankadapt) { for (size_t k = 0; k <= q[i].d; k++) { size_t m = q[i].maxrank > q[i].r[k] ? q[i].maxrank : q[i].r[k]; SIM_CHECK(o[i].r[k] <= m, "reg-rank", "rank %zu is %zu with a maximum of %zu", k, o[i].r[k], q[i].maxrank); } ref_adapt(&q[i], &o[i]); sim_probe("reg.rankadapt"); } }
    for (size_t i = 0; i < n; i++) {                /* what was observed with weight zero does not matter */
        int zeros = 0; for (size_t j = 0; j < q[i].N; j++) zeros |= q[i].w[j] == 0; if (!q[i].weighted || !zeros || q[i].zero || q[i].rankadapt || !sim_choose(2)) continue;
        struct prob *c = xcalloc(1, sizeof *c); *c = q[i]; for (size_t j = 0; j < c->N; j++) if (c->w[j] == 0) c->y[j] += sim_double(0.5, 2);
        one(c, &o[5], 0, 0); o[5].nf = o[i].nf; o[5].ne = o[i].ne; memcpy(o[5].fn, o[i].fn, sizeof o[i].fn); same_out(&o[i], &o[5], q[i].who, "a run with other values at samples of weight zero"); xfree(c); sim_probe("reg.weight_zero");
    }
    /* elsewhere, later, after other things happened */
    sim_clock_jump((int64_t)sim_choose(1000000000)); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); for (uint64_t i = sim_choose(5); i; i--) { rand(); sim_fault(F_RAND_FOREIGN); }
    if (n == 2) {
        int r0 = q[0].zero || q[0].alg == SGD, r1 = q[1].zero || q[1].alg == SGD;      /* the process-wide random numbers are not shared between threads of control */
        if (!(r0 && r1)) { struct job j[2] = { { &q[0], &o[2] }, { &q[1], &o[3] } }; void *a[2] = { &j[0], &j[1] }; sim_task_fn f[2] = { job, job }; sim_tasks_run(2, f, a); for (size_t i = 0; i < 2; i++) same_out(&o[i], &o[2 + i], q[i].who, "an interleaved run"); sim_probe("reg.interleaved"); }
    } else {
        one(q, &o[2], 0, 0); o[2].nf = o[0].nf; o[2].ne = o[0].ne; memcpy(o[2].fn, o[0].fn, sizeof o[0].fn); same_out(&o[0], &o[2], "A", "a repeated run");
        if (!q->rankadapt && !q->zero) {       /* continuing equals starting there */
            one(q, &o[3], 1, 0); struct prob *c = xcalloc(1, sizeof *c); *c = *q; memcpy(c->p0, o[0].p, sizeof c->p0); double s = 0; for (size_t i = 0; i < c->P; i++) s += c->p0[i] * c->p0[i];
            if (s > 1e-12) { one(c, &o[4], 0, 0); same_out(&o[4], &o[3], "A", "continuing the regression"); sim_probe("reg.continued"); } xfree(c);
        }
    }
    char rep[300]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "reg-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep);
    sim_sample("%zu regression(s), %zu variables, %zu points, %zu parameters, %s", n, q->d, q->N, q->P, q->als ? "alternating" : "all at once"); xfree(q); xfree(o);
}

/* ---- as a program for the mixed scenarios ---- */
void *regprog_make(const char *who)
{
    struct prob *q = xcalloc(1, sizeof *q); q->who = who; draw(q, 0); if (q->alg == SGD) q->alg = BFGS;
    if (q->zero) { q->zero = 0; for (size_t i = 0; i < q->P; i++) q->p0[i] = 0.25 + 0.5 * (double)(i % 3); }
    if (q->maxiter > 4) q->maxiter = 4;
    q->store = 0; return q;
}
void regprog_run(void *p, struct trace *t)
{
    struct out *o = xcalloc(1, sizeof *o); one(p, o, 0, 0); tr_u(t, "parameters", o->P); for (size_t i = 0; i < o->P; i++) tr_d(t, "parameter", o->p[i]); xfree(o);
}

/* ---- cross validation ------------------------------------------------------------ */
static double ref_cv(const struct prob *q, size_t kf)
{
    size_t batch = q->N / kf, st = 0; double err = 0, nrm = 0; struct prob *t = xcalloc(1, sizeof *t);
    for (size_t f = 0; f < kf; f++) {
        if (f + 1 == kf) batch = q->N - st;
        *t = *q; t->N = 0; for (size_t i = 0; i < q->N; i++) if (i < st || i >= st + batch) { memcpy(t->x + t->N * q->d, q->x + i * q->d, q->d * 8); t->y[t->N] = q->y[i]; t->w[t->N] = q->w[i]; t->N++; }
        struct set s; build(t, &s); struct FunctionTrain *ft = ft_regress_run(s.reg, s.opt, t->N, t->x, t->y); double e = 0, m = 0;
        for (size_t i = st; i < st + batch; i++) { double v = function_train_eval(ft, (double *)q->x + i * q->d); e += (q->y[i] - v) * (q->y[i] - v); m += q->y[i] * q->y[i]; }
        err += e; nrm += m; st += batch; function_train_free(ft); destroy(t, &s);
    }
    xfree(t); return err / nrm;
}
static int close_err(double a, double b) { return same_bits(a, b) || fabs(a - b) <= 1e-9 * fabs(b); }
struct cvjob { struct prob *q; size_t kf, reps; double ref, got; };
static void cvjob(void *a)
{
    struct cvjob *j = a; const struct prob *q = j->q; struct set s; build(q, &s); double x[RN * RD], y[RN], w[RN]; memcpy(x, q->x, sizeof x); memcpy(y, q->y, sizeof y); memcpy(w, q->w, sizeof w);
    struct CrossValidate *cv = cross_validate_init(q->N, q->d, q->x, q->y, j->kf, 0);
    for (size_t r = 0; r < j->reps; r++) {
        j->got = cross_validate_run(cv, s.reg, s.opt); sim_log("%s: %zu folds, error %a", q->who, j->kf, j->got);
        SIM_CHECK(close_err(j->got, j->ref), "cv-error", "%s: cross validation over %zu folds gives %.17g, training each fold separately gives %.17g", q->who, j->kf, j->got, j->ref);
        size_t np; double *p = ft_regress_get_params(s.reg, &np); SIM_CHECK(np == q->P && memcmp(p, q->p0, np * 8) == 0 && memcmp(ft_param_get_params_ref(ft_regress_get_ft_param(s.reg)), q->p0, np * 8) == 0, "cv-params", "%s: cross validation changed the regression's parameters", q->who); free(p);
        SIM_CHECK(memcmp(x, q->x, sizeof x) == 0 && memcmp(y, q->y, sizeof y) == 0 && memcmp(w, q->w, sizeof w) == 0, "cv-data", "%s: cross validation changed its data", q->who); sim_probe("cv.run"); sim_yield();
    }
    if (!q->zero || q->alg != SGD) {           /* and the whole data set can be fitted afterwards as if nothing had happened */
        struct FunctionTrain *ft = ft_regress_run(s.reg, s.opt, q->N, q->x, q->y); double p[RP]; function_train_get_params(ft, p); function_train_free(ft);
        struct set t; build(q, &t); ft = ft_regress_run(t.reg, t.opt, q->N, q->x, q->y); double p2[RP]; size_t np = function_train_get_params(ft, p2); function_train_free(ft); destroy(q, &t);
        for (size_t i = 0; i < np; i++) SIM_CHECK(same_bits(p[i], p2[i]), "cv-after", "%s: regression after cross validation gives parameter %zu = %a instead of %a", q->who, i, p[i], p2[i]);
    }
    cross_validate_free(cv); destroy(q, &s);
}
static void cvgrid(struct prob *q, size_t kf)
{
    static char *nm[4] = { "rank", "reg_weight", "opt_maxiter", "num_param" }; int poly = 1; for (size_t k = 0; k < q->d; k++) poly &= q->cls[k] == G_LEG || (q->cls[k] == G_KERNEL && !q->adaptc[k]);
    size_t na = sim_range(1, 3), ax[3], nv[3] = { 1, 1, 1 }, perm[4] = { 0, 1, 2, 3 }, uv[3][3]; double dv[3][3]; for (size_t i = 3; i; i--) { size_t j = sim_choose(i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
    size_t m = 0; for (size_t i = 0; i < 4 && m < na; i++) { if (perm[i] == 3 && !poly) continue; if (perm[i] == 0 && q->d < 2) continue; ax[m++] = perm[i]; } na = m; if (!na) return;
    for (size_t i = 0; i < na; i++) { nv[i] = sim_range(1, 3); for (size_t j = 0; j < nv[i]; j++) { uv[i][j] = ax[i] == 3 ? 2 + (sim_choose(3) + j) % 3 : 1 + (sim_choose(3) + j) % 3; dv[i][j] = (double[]){ 1e-6, 1e-2, 1 }[sim_choose(3)]; } }
    if (q->N - q->N / kf < 4 * (q->d + 1)) sim_allow_failstop(1); /* every cell starts from a linear fit of few points, from which an iteration may diverge: an undefined objective stops the process */
    struct set s; build(q, &s); struct CrossValidate *cv = cross_validate_init(q->N, q->d, q->x, q->y, kf, 0); struct CVOptGrid *g = cv_opt_grid_init(na + sim_choose(2)); for (size_t i = 0; i < na; i++) cv_opt_grid_add_param(g, nm[ax[i]], nv[i], ax[i] == 1 ? (void *)dv[i] : (void *)uv[i]);
    cv_opt_grid_set_verbose(g, 0); cross_validate_grid_opt(cv, g, s.reg, s.opt);
    double best = INFINITY, mine = INFINITY; size_t R = ft_regress_get_ft_param(s.reg)->ft->ranks[1], MI = c3opt_get_maxiter(s.opt), NP = multi_approx_opts_get_dim_nparams(s.M, 0); double W = ft_regress_get_regularization_weight(s.reg); struct prob *t = xcalloc(1, sizeof *t);
    for (size_t a = 0; a < nv[0]; a++) for (size_t b = 0; b < nv[1]; b++) for (size_t c = 0; c < nv[2]; c++) {
        *t = *q; t->zero = 1; memset(t->p0, 0, sizeof t->p0); size_t ix[3] = { a, b, c }; int hit = 1;
        for (size_t i = 0; i < na; i++) {
            size_t u = uv[i][ix[i]]; double w = dv[i][ix[i]];
            if (ax[i] == 0) { for (size_t k = 1; k < t->d; k++) t->r[k] = u; hit &= R == u; } else if (ax[i] == 1) { t->lam = w; hit &= W == w; } else if (ax[i] == 2) { t->maxiter = u; hit &= MI == u; }
            else { for (size_t k = 0; k < t->d; k++) { t->np[k] = u; double *l = linspace(q->nodes[k][0], q->nodes[k][q->np[k] - 1], u); memcpy(t->nodes[k], l, u * 8); free(l); } hit &= NP == u; }
        }
        t->P = 0; for (size_t k = 0; k < t->d; k++) t->P += t->r[k] * t->r[k + 1] * t->np[k];
        double e = ref_cv(t, kf); sim_log("grid %zu %zu %zu error %a%s", a, b, c, e, hit ? " chosen" : ""); if (e < best) best = e; if (hit && e < mine) mine = e;
    }
    if (isfinite(best)) SIM_CHECK(mine <= best * (1 + 1e-6), "cv-grid", "the grid search settles on error %.12g, the smallest is %.12g", mine, best);
    size_t np; double *p = ft_regress_get_params(s.reg, &np); for (size_t k = 1; k < q->d; k++) SIM_CHECK(ft_regress_get_ft_param(s.reg)->ft->ranks[k] == (R ? (ax[0] == 0 || (na > 1 && ax[1] == 0) || (na > 2 && ax[2] == 0) ? R : q->r[k]) : 0), "cv-grid", "rank %zu does not belong to a configuration of the grid", k);
    free(p); xfree(t); cv_opt_grid_free(g); cross_validate_free(cv); destroy(q, &s); sim_probe("cv.grid");
}
void scn_crossval(int inc)
{
    (void)inc; sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0; struct prob *q = xcalloc(2, sizeof *q); m0 = sim_heap_mark(); size_t n = sim_flip(1, 2) ? 2 : 1; struct cvjob j[2]; void *a[2]; sim_task_fn f[2] = { cvjob, cvjob };
    for (size_t i = 0; i < n; i++) { q[i].who = i ? "B" : "A"; draw(&q[i], 1); q[i].store = 0; q[i].y[0] = 1; if (i && q[0].zero) { q[1].zero = 0; for (size_t k = 0; k < q[1].P; k++) q[1].p0[k] = 0.5; } j[i] = (struct cvjob){ &q[i], sim_choose(3) ? sim_range(2, q[i].N < 5 ? q[i].N : 5) : q[i].N, sim_range(1, 2), 0, 0 }; a[i] = &j[i]; }
    sim_nontrivial(); for (size_t i = 0; i < n; i++) { sim_log("%s: d %zu N %zu P %zu folds %zu zero %d weighted %d %s", q[i].who, q[i].d, q[i].N, q[i].P, j[i].kf, q[i].zero, q[i].weighted, q[i].als ? "ALS" : "AIO"); j[i].ref = ref_cv(&q[i], j[i].kf); }
    sim_clock_jump((int64_t)sim_choose(1000000000)); sim_heap_fill(sim_choose(1000)); for (uint64_t i = sim_choose(5); i; i--) { rand(); sim_fault(F_RAND_FOREIGN); }
    if (n == 2) { sim_tasks_run(2, f, a); sim_probe("cv.interleaved"); }
    else { int konst = 0, ad = 0; for (size_t k = 0; k < q->d; k++) { konst |= q->cls[k] == G_CONST; ad |= q->adaptc[k]; } if (!konst && !ad && sim_choose(2)) cvgrid(q, j[0].kf < 4 ? j[0].kf : 3); else cvjob(a[0]); }
    char rep[300]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "cv-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep);
    sim_sample("%zu job(s), %zu variables, %zu points, %zu folds", n, q->d, q->N, j[0].kf); xfree(q);
}
