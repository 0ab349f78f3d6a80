#include "prog.h"
#include "dmrgprod.h"
#include "diffusion.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
const char *prog_name[] = { "cross approximation", "train algebra", "optimisation", "one-dimensional functions", "monitor and files", "regression", "density" , "short-lived functions" };
const int prog_kinds = 8;
void tr_u(struct trace *t, const char *lab, uint64_t v) { if (t->n < TRMAX) { t->lab[t->n] = lab; t->v[t->n++] = v; } }
void tr_d(struct trace *t, const char *lab, double v) { union { double d; uint64_t u; } z = { v }; if (v != v) z.u = 0x7ff8000000000000ULL; tr_u(t, lab, z.u); }
static uint64_t hmix(uint64_t h, double v) { union { double d; uint64_t u; } z = { v }; h = (h ^ z.u) * 0x100000001b3ULL; return h ^ (h >> 31); }

/* ---- function-train algebra ------------------------------------------------- */
#define AD 3
#define AN 6
#define AO 10
struct alg { size_t d, N[AD]; enum gen_cls cls; double nodes[AD][AN], lb[AD], ub[AD], x[4][AD], co[AO]; size_t xi[AD]; struct FunctionTrain *t[3]; size_t nop; unsigned op[AO], a[AO], b[AO]; };
static void *alg_make(void)
{
    struct alg *s = xcalloc(1, sizeof *s); s->d = sim_range(2, AD); s->cls = ((enum gen_cls[]){ G_LEG, G_LIN, G_CONST })[sim_choose(3)];
    for (size_t k = 0; k < s->d; k++) {
        s->lb[k] = sim_choose(2) ? -1.0 : sim_double(-2, 1); s->ub[k] = s->lb[k] + 2; s->N[k] = sim_range(4, AN); gen_nodes(s->N[k], s->lb[k], s->ub[k], s->nodes[k]); s->xi[k] = sim_choose(s->N[k]);
        for (int i = 0; i < 4; i++) s->x[i][k] = sim_double(s->lb[k], s->ub[k]);
    }
    for (int i = 0; i < 3; i++) {
        struct FunctionTrain *ft = s->t[i] = function_train_alloc(s->d); for (size_t k = 0; k <= s->d; k++) ft->ranks[k] = k == 0 || k == s->d ? 1 : sim_range(1, 2);
        for (size_t k = 0; k < s->d; k++) {
            ft->cores[k] = qmarray_alloc(ft->ranks[k], ft->ranks[k + 1]);
            for (size_t j = 0; j < ft->ranks[k] * ft->ranks[k + 1]; j++) {
                struct GenericFunction *g = generic_function_alloc(1, s->cls == G_LEG ? POLYNOMIAL : s->cls == G_LIN ? LINELM : CONSTELM); double y[AN]; for (size_t q = 0; q < s->N[k]; q++) y[q] = gen_coeff() + 0.125; g->fargs = NULL;
                if (s->cls == G_LEG) { struct OrthPolyExpansion *p = orth_poly_expansion_init(LEGENDRE, 3, s->lb[k], s->ub[k]); memcpy(p->coeff, y, 24); g->f = p; } else if (s->cls == G_LIN) g->f = lin_elem_exp_init(s->N[k], s->nodes[k], y); else g->f = const_elem_exp_init(s->N[k], s->nodes[k], y);
                ft->cores[k]->funcs[j] = g;
            }
        }
    }
    s->nop = sim_range(2, AO); for (size_t i = 0; i < s->nop; i++) { s->op[i] = (unsigned)sim_choose(18); s->a[i] = (unsigned)sim_choose(3); s->b[i] = (unsigned)sim_choose(3); s->co[i] = gen_coeff() + 0.25; }
    return s;
}
static size_t amax(const struct FunctionTrain *f) { size_t m = 0; for (size_t k = 0; k <= f->dim; k++) if (f->ranks[k] > m) m = f->ranks[k]; return m; }
#define GOT(x) do { r = (x); none = !r; } while (0)
static void alg_run(struct alg *s, struct trace *t)
{
    struct FunctionTrain *T[3]; size_t d = s->d; struct MultiApproxOpts *M = multi_approx_opts_alloc(d); struct OneApproxOpts *O[AD]; double *nd[AD] = { 0 };
    for (size_t k = 0; k < d; k++) {
        if (s->cls == G_LEG) { struct OpeOpts *o = ope_opts_alloc(LEGENDRE); ope_opts_set_lb(o, s->lb[k]); ope_opts_set_ub(o, s->ub[k]); ope_opts_set_start(o, 5); ope_opts_set_maxnum(o, 12); ope_opts_set_tol(o, 1e-12); O[k] = one_approx_opts_alloc(POLYNOMIAL, o); }
        else { nd[k] = calloc_double(s->N[k]); memcpy(nd[k], s->nodes[k], s->N[k] * 8); O[k] = s->cls == G_LIN ? one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(s->N[k], nd[k])) : one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(s->N[k], nd[k])); }
        multi_approx_opts_set_dim(M, k, O[k]);
    }
    for (int i = 0; i < 3; i++) T[i] = function_train_copy(s->t[i]);
    for (size_t i = 0; i < s->nop; i++) {
        struct FunctionTrain *a = T[s->a[i]], *b = T[s->b[i]], *r = NULL; int none = 0; size_t ra = amax(a), rb = amax(b); double c = s->co[i], v[4], w[4 * AD]; tr_u(t, "operation", s->op[i]); sim_yield();
        switch (s->op[i]) {
        case 0: if (ra + rb <= 6) GOT(function_train_sum(a, b)); break;
        case 1: if (ra * rb <= 6) GOT(function_train_product(a, b)); break;
        case 2: function_train_scale(a, c); break;
        case 3: if (ra + rb <= 6 && a != b) c3axpy(c, a, &T[s->b[i]], 0, M); break;
        case 4: case 5: if (ra < 4) GOT(function_train_round(a, 1e-12, M)); break;
        case 6: tr_d(t, "integral", function_train_integrate(a)); tr_d(t, "inner", function_train_inner(a, b)); tr_d(t, "norm", function_train_norm2(a)); tr_d(t, "distance", function_train_norm2diff(a, b)); break;
        case 7: if (s->cls != G_CONST) { double g[AD]; function_train_gradient_eval(a, s->x[0], g); for (size_t k = 0; k < d; k++) tr_d(t, "gradient", g[k]); struct FT1DArray *ga = function_train_gradient(a); for (size_t k = 0; k < d; k++) tr_u(t, "gradient train", ft_hash(ga->ft[k])); ft1d_array_free(ga); } break;
        case 8: memcpy(w, s->x, sizeof w); for (size_t p = 0; p < 4; p++) for (size_t k = 0; k < d; k++) w[p * d + k] = s->x[p][k]; function_train_evals(a, 4, w, v); for (int p = 0; p < 4; p++) tr_d(t, "batch", v[p]); break;
        case 9: { double pert[2 * AD], out[2 * AD]; for (size_t k = 0; k < d; k++) { pert[2 * k] = s->x[1][k]; pert[2 * k + 1] = s->x[2][k]; } tr_d(t, "value", function_train_eval_co_perturb(a, s->x[0], pert, out)); for (size_t k = 0; k < 2 * d; k++) tr_d(t, "perturbed", out[k]); break; }
        case 10: if (s->cls != G_LEG) tr_d(t, "nodal", function_train_eval_ind(a, s->xi)); break;
        case 11: { size_t n = function_train_get_nparams(a); double *p = xmalloc(n * 8); function_train_get_params(a, p); for (size_t k = 0; k < n; k++) p[k] = c * p[k] + 0.5; function_train_update_params(a, p); xfree(p); break; }
        case 12: if (ra * rb <= 3 && ra > 0) { GOT(dmrg_product(NULL, a, b, 1e-10, 3, 1e-12, 0, M)); if (r) tr_u(t, "sweeps", ft_hash(r)); } break;
        case 13: if (s->cls == G_LEG && ra * rb <= 2) GOT(exact_diffusion(a, b, M)); else if (s->cls == G_LEG && ra <= 3) GOT(exact_laplace(a, M)); break;
        case 14: { struct FT1DArray *x = ft1d_array_alloc(2), *y = ft1d_array_alloc(2); if (ra + rb <= 6) { for (int q = 0; q < 2; q++) { x->ft[q] = function_train_copy(q ? a : b); y->ft[q] = function_train_copy(q ? b : a); } c3vaxpy(2, c, x, 1, &y, 1, 0, M); for (int q = 0; q < 2; q++) tr_u(t, "array", ft_hash(y->ft[q])); } ft1d_array_free(x); ft1d_array_free(y); break; }
        case 15: if (s->cls != G_LEG) { size_t N[AD]; double *xx[AD]; for (size_t k = 0; k < d; k++) { N[k] = s->N[k]; xx[k] = s->nodes[k]; } GOT(function_train_create_nodal(a, N, xx)); } break;
        case 16: GOT(function_train_copy(b)); break;
        default: for (int p = 0; p < 4; p++) tr_d(t, "value", function_train_eval(a, s->x[p])); break;
        }
        if (none) break;                    /* the failure was reported */
        if (r) { if (amax(r) <= 8) { function_train_free(a); T[s->a[i]] = r; } else { tr_u(t, "dropped", ft_hash(r)); function_train_free(r); } }
        tr_u(t, "train", ft_hash(T[s->a[i]])); tr_d(t, "train value", function_train_eval(T[s->a[i]], s->x[3]));
    }
    for (int i = 0; i < 3; i++) function_train_free(T[i]);
    for (size_t k = 0; k < d; k++) { one_approx_opts_free_deep(&O[k]); free(nd[k]); }
    multi_approx_opts_free(M);
}
/* ---- optimisation ------------------------------------------------------------- */
struct opt { size_t d, mi; enum c3opt_alg alg; int bnd, store; double c[4], s[4], lb[4], ub[4], x0[4], loc[4 * 6]; };
struct optrun { const struct opt *o; uint64_t h; size_t n; };
static double optcb(size_t d, const double *x, double *g, void *a)
{
    struct optrun *r = a; double f = 0; for (size_t i = 0; i < d; i++) { double t = x[i] - r->o->c[i]; r->h = hmix(r->h, x[i]); f += r->o->s[i] * t * t + 0.2 * sin(3 * t); if (g) g[i] = 2 * r->o->s[i] * t + 0.6 * cos(3 * t); }
    if (d > 1) { double t = x[1] - x[0] * x[0]; f += t * t; if (g) { g[1] += 2 * t; g[0] -= 4 * t * x[0]; } }
    r->n++; sim_yield(); return f;
}
static void *opt_make(void)
{
    struct opt *o = xcalloc(1, sizeof *o); o->d = sim_range(1, 4); o->mi = sim_range(1, 25); o->alg = ((enum c3opt_alg[]){ BFGS, LBFGS, BATCHGRAD, BRUTEFORCE })[sim_choose(4)]; o->bnd = (int)sim_choose(2); o->store = (int)sim_choose(2);
    for (size_t i = 0; i < o->d; i++) { o->c[i] = sim_double(-2, 2); o->s[i] = sim_double(0.1, 2); o->lb[i] = sim_double(-2, 0); o->ub[i] = o->lb[i] + 2; o->x0[i] = o->lb[i] + sim_double(0, 2); if (o->x0[i] > o->ub[i]) o->x0[i] = o->ub[i]; }
    for (int i = 0; i < 24; i++) o->loc[i] = sim_double(-2, 2);
    return o;
}
static void opt_run(const struct opt *o, struct trace *t)
{
    struct c3Opt *p = c3opt_alloc(o->alg, o->d); struct optrun r = { o, 1, 0 }; double x[4], f; memcpy(x, o->x0, sizeof x);
    if (o->alg == BRUTEFORCE) c3opt_set_brute_force_vals(p, 6, (double *)o->loc);
    else { if (o->bnd) { c3opt_add_lb(p, (double *)o->lb); c3opt_add_ub(p, (double *)o->ub); } c3opt_set_maxiter(p, o->mi); c3opt_ls_set_maxiter(p, 50); if (o->store) c3opt_set_storage_options(p, 1, 1, 1); }
    c3opt_add_objective(p, optcb, &r); int ret = c3opt_minimize(p, x, &f); tr_u(t, "code", (uint64_t)(int64_t)ret); tr_d(t, "minimum", f); for (size_t i = 0; i < o->d; i++) tr_d(t, "minimiser", x[i]); tr_u(t, "requests", r.h); tr_u(t, "evaluations", r.n); tr_u(t, "counted", c3opt_get_nevals(p));
    if (o->store && o->alg != BRUTEFORCE) for (size_t i = 0; i < c3opt_get_niters(p); i++) tr_d(t, "record", c3opt_get_stored_function(p, i));
    c3opt_free(p);
}
/* ---- one-dimensional functions ------------------------------------------------- */
struct one { unsigned kind; size_t N; double lb, ub, x[AN], a, b, y[5], tol; int adapt; };
struct onerun { const struct one *o; uint64_t h; size_t n; double sh; };
static int onecb(size_t n, const double *x, double *out, void *a) { struct onerun *r = a; for (size_t i = 0; i < n; i++) { r->h = hmix(r->h, x[i]); out[i] = r->o->a * sin(r->o->b * x[i] + r->sh) + x[i]; } r->n += n; sim_yield(); return 0; }
static void *one_make(void)
{
    struct one *o = xcalloc(1, sizeof *o); o->kind = (unsigned)sim_choose(5); o->N = sim_range(4, AN); o->lb = sim_double(-2, 0); o->ub = o->lb + sim_double(0.5, 3); gen_nodes(o->N, o->lb, o->ub, o->x); o->a = sim_double(-2, 2); o->b = sim_double(0.2, 4); o->tol = (double[]){ 1e-2, 1e-6, 1e-10 }[sim_choose(3)]; o->adapt = (int)sim_choose(2);
    for (int i = 0; i < 5; i++) o->y[i] = sim_double(o->lb, o->ub);
    return o;
}
static uint64_t gf_hash(struct GenericFunction *g)
{
    size_t n; serialize_generic_function(NULL, g, &n); unsigned char *b = xcalloc(1, n + 1); serialize_generic_function(b, g, NULL); uint64_t h = 0xcbf29ce484222325ULL; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
    xfree(b); return h;
}
static void one_run1d(const struct one *o, struct trace *t)
{
    struct OneApproxOpts *ao = NULL; struct GenericFunction *g[2]; double *nd = calloc_double(o->N); memcpy(nd, o->x, o->N * 8);
    switch (o->kind) {
    case 0: ao = one_approx_opts_alloc(LINELM, o->adapt ? lin_elem_exp_aopts_alloc_adapt(o->N, nd, o->lb, o->ub, 1e-1, (o->ub - o->lb) / 20) : lin_elem_exp_aopts_alloc(o->N, nd)); break;
    case 1: ao = one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(o->N, nd)); break;
    case 2: { struct PwPolyOpts *p = pw_poly_opts_alloc(LEGENDRE, o->lb, o->ub); pw_poly_opts_set_minsize(p, 0.2); pw_poly_opts_set_maxorder(p, 4); pw_poly_opts_set_tol(p, o->tol); pw_poly_opts_set_nregions(p, 2); ao = one_approx_opts_alloc(PIECEWISE, p); break; }
    default: { struct OpeOpts *p = ope_opts_alloc(o->kind == 3 ? LEGENDRE : CHEBYSHEV); ope_opts_set_lb(p, o->lb); ope_opts_set_ub(p, o->ub); ope_opts_set_start(p, 4); ope_opts_set_maxnum(p, 14); ope_opts_set_tol(p, o->tol); ope_opts_set_coeffs_check(p, 2); ao = one_approx_opts_alloc(POLYNOMIAL, p); }
    }
    struct onerun r = { o, 1, 0, 0 };
    for (int i = 0; i < 2; i++) { struct Fwrap *fw = fwrap_create(1, "general-vec"); r.sh = i; fwrap_set_fvec(fw, onecb, &r); g[i] = generic_function_approximate1d(ao->fc, ao->aopts, fw); fwrap_destroy(fw); tr_u(t, "function", gf_hash(g[i])); }
    tr_u(t, "requests", r.h); tr_u(t, "evaluations", r.n);
    for (int i = 0; i < 5; i++) { tr_d(t, "value", generic_function_1d_eval(g[0], o->y[i])); if (o->kind != 1 && o->kind != 2) tr_d(t, "slope", generic_function_deriv_eval(g[1], o->y[i])); }
    tr_d(t, "integral", generic_function_integrate(g[0])); tr_d(t, "inner", generic_function_inner(g[0], g[1])); tr_d(t, "norm", generic_function_norm(g[1]));
    sim_yield(); struct GenericFunction *s = generic_function_daxpby(2.0, g[0], -0.5, g[1]); tr_u(t, "sum", gf_hash(s)); generic_function_scale(0.3, s); generic_function_flip_sign(s); tr_u(t, "scaled", gf_hash(s));
    struct GenericFunction *p = generic_function_prod(g[0], g[1]); tr_u(t, "product", gf_hash(p)); struct GenericFunction *c = generic_function_copy(p); tr_u(t, "copy", gf_hash(c));
    if (o->kind != 1) { struct GenericFunction *dd = generic_function_deriv(g[0]); tr_u(t, "derivative", gf_hash(dd)); generic_function_free(dd); }
    double pos; tr_d(t, "largest", generic_function_absmax(g[0], &pos, NULL)); tr_d(t, "at", pos);
    generic_function_free(s); generic_function_free(p); generic_function_free(c); generic_function_free(g[0]); generic_function_free(g[1]); one_approx_opts_free_deep(&ao); free(nd);
}
/* ---- monitor and files ------------------------------------------------------------ */
struct mon { size_t d, n, m, tsize; double x[24][3]; unsigned seq[60]; struct FunctionTrain *ft; char f1[16], f2[16]; double lb[3], ub[3]; };
struct monrun { struct mon *s; size_t calls; };
static double moncb(const double *x, void *a) { struct monrun *r = a; double v = 1; for (size_t k = 0; k < r->s->d; k++) v = v * 1.25 + sin(x[k]); r->calls++; sim_yield(); return v; }
static void *mon_make(const char *who)
{
    struct mon *s = xcalloc(1, sizeof *s); s->d = sim_range(1, 3); s->n = sim_range(1, 24); s->m = sim_range(2, 60); s->tsize = sim_range(1, 20); sprintf(s->f1, "%s.c3", who); sprintf(s->f2, "%s.txt", who);
    for (size_t i = 0; i < s->n; i++) for (size_t k = 0; k < s->d; k++) s->x[i][k] = sim_value();
    for (size_t i = 0; i < s->m; i++) s->seq[i] = (unsigned)sim_choose(s->n);
    for (size_t k = 0; k < 3; k++) { s->lb[k] = -1; s->ub[k] = 1; } int cl = (int)sim_choose(G_NCLS); s->ft = gen_ft(s->d, 2, cl == G_KERNEL ? G_LIN : cl, s->lb, s->ub, 1); return s;
}
static void mon_run(struct mon *s, struct trace *t)
{
    struct monrun r = { s, 0 }; struct FunctionMonitor *fm = function_monitor_initnd(moncb, &r, s->d, s->tsize); double x[3];
    for (size_t i = 0; i < s->m; i++) { memcpy(x, s->x[s->seq[i]], sizeof x); tr_d(t, "recalled", function_monitor_eval(x, fm)); }
    tr_u(t, "calls", r.calls); FILE *fp = fopen(s->f2, "w"); if (fp) { function_monitor_print_to_file(fm, fp); fclose(fp); tr_u(t, "dump", sim_disk_hash(s->f2)); } function_monitor_free(fm);
    struct FunctionTrain *c = function_train_copy(s->ft), *l; int ok = function_train_save(c, s->f1); sim_yield();
    if (ok) { tr_u(t, "file", sim_disk_hash(s->f1)); l = function_train_load(s->f1); if (l) { tr_u(t, "loaded", ft_hash(l)); function_train_free(l); } }
    fp = fopen(s->f2, "w"); if (fp) { function_train_savetxt(c, fp, 17); fclose(fp); sim_yield(); fp = fopen(s->f2, "r"); l = function_train_loadtxt(fp); fclose(fp); if (l) { tr_u(t, "text", ft_hash(l)); function_train_free(l); } }
    size_t n; function_train_serialize(NULL, c, &n); unsigned char *b = xmalloc(n); if (b) { function_train_serialize(b, c, NULL); l = NULL; function_train_deserialize(b, &l); xfree(b); tr_u(t, "bytes", ft_hash(l)); function_train_free(l); }
    struct FT1DArray *a = ft1d_array_alloc(2), *al; for (int i = 0; i < 2; i++) a->ft[i] = function_train_copy(c); char f3[24]; snprintf(f3, sizeof f3, "%s1", s->f1);
    if (ft1d_array_save(a, f3)) { tr_u(t, "array file", sim_disk_hash(f3)); sim_yield(); al = ft1d_array_load(f3); if (al) { tr_u(t, "array size", al->size); for (size_t i = 0; i < al->size; i++) tr_u(t, "array loaded", ft_hash(al->ft[i])); ft1d_array_free(al); } }
    al = ft1d_array_copy(a); tr_u(t, "array copy", ft_hash(al->ft[1])); ft1d_array_free(al); ft1d_array_free(a); function_train_free(c);
}
/* ---- density ------------------------------------------------------------------------- */
struct den { size_t d; double A[9], b[3], x[3][3]; struct FunctionTrain *ft; double lb[3], ub[3]; char f[16]; };
static void *den_make(const char *who)
{
    struct den *s = xcalloc(1, sizeof *s); s->d = sim_range(1, 3); sprintf(s->f, "%s.pdf", who); for (size_t i = 0; i < s->d; i++) { s->lb[i] = -3; s->ub[i] = 3; for (size_t j = 0; j < s->d; j++) s->A[i + j * s->d] = i == j ? 1.5 : i > j ? 0.25 * sim_double(-1, 1) : 0; s->b[i] = sim_double(-1, 1); for (int p = 0; p < 3; p++) s->x[p][i] = sim_double(-1, 1); }
    s->ft = gen_ft(s->d, 2, (int)sim_choose(2) ? G_LIN : G_LEG, s->lb, s->ub, 1); return s;
}
static void den_run(struct den *s, struct trace *t)
{
    struct ProbabilityDensity *p = probability_density_alloc(); size_t d = s->d; p->pdf = function_train_copy(s->ft); double A[9], b[3]; memcpy(A, s->A, sizeof A); memcpy(b, s->b, sizeof b); p->transform = 1; p->type = GENERAL; p->lt = linear_transform_alloc(d, d, A, b, 1.0); p->lt->mt = LT; linear_transform_invert(p->lt); sim_yield();
    for (size_t i = 0; i < d * d; i++) tr_d(t, "inverse", p->lt->Ainv[i]);
    for (int i = 0; i < 3; i++) { double x[3]; memcpy(x, s->x[i], sizeof x); double *y = linear_transform_apply(d, d, p->lt->A, x, p->lt->b); for (size_t k = 0; k < d; k++) tr_d(t, "mapped", y[k]); free(y); tr_d(t, "density", probability_density_eval(p, x)); sim_yield(); }
    struct LinearTransform *c = linear_transform_copy(p->lt); for (size_t i = 0; i < d * d; i++) tr_d(t, "copied", c->A[i]); linear_transform_free(c);
    if (probability_density_save(p, s->f)) { tr_u(t, "file", sim_disk_hash(s->f)); struct ProbabilityDensity *q = probability_density_load(s->f); if (q) { tr_u(t, "loaded", ft_hash(q->pdf)); probability_density_free(q); } }
    double *l = probability_density_lb_base(p), *u = probability_density_ub_base(p); for (size_t k = 0; k < d; k++) { tr_d(t, "lower", l[k]); tr_d(t, "upper", u[k]); } free(l); free(u); probability_density_free(p);
}
/* ---- functions of one shape that come and go at the same places in memory ---- */
#define CR 8
#define CN 6
struct chn { enum gen_cls cls; size_t rounds, n; int op, rev; double lb, ub, g[CR][2][CN], y[CR][2][CN], c[CR], x; };
static void *chn_make(void)
{
    struct chn *s = xcalloc(1, sizeof *s); s->cls = ((enum gen_cls[]){ G_LIN, G_CONST, G_LEG, G_KERNEL, G_CHEB })[sim_choose(5)]; s->rounds = sim_range(3, CR); s->n = sim_range(3, CN); s->op = (int)sim_choose(3); s->rev = (int)sim_choose(2); s->lb = -1; s->ub = 1 + (double)sim_choose(2); s->x = sim_double(s->lb, s->ub);
    for (size_t r = 0; r < s->rounds; r++) { int same = (int)sim_choose(2); s->c[r] = gen_coeff(); for (int q = 0; q < 2; q++) { gen_nodes(s->n, s->lb, s->ub, s->g[r][q]); for (size_t i = 0; i < s->n; i++) s->y[r][q][i] = gen_coeff(); } if (same) memcpy(s->g[r][1], s->g[r][0], sizeof s->g[r][0]); else s->g[r][1][1] = 0.5 * (s->g[r][0][0] + s->g[r][0][1]); }
    return s;
}
static struct GenericFunction *chn_fn(const struct chn *s, size_t r, int q)
{
    double g[CN], y[CN]; memcpy(g, s->g[r][q], sizeof g); memcpy(y, s->y[r][q], sizeof y); struct GenericFunction *f = generic_function_alloc(1, s->cls == G_LIN ? LINELM : s->cls == G_CONST ? CONSTELM : s->cls == G_KERNEL ? KERNEL : POLYNOMIAL); if (!f) return NULL; f->fargs = NULL;
    if (s->cls == G_LIN) f->f = lin_elem_exp_init(s->n, g, y); else if (s->cls == G_CONST) f->f = const_elem_exp_init(s->n, g, y);
    else if (s->cls == G_KERNEL) { struct KernelApproxOpts *o = kernel_approx_opts_gauss(s->n, g, 1, 0.5); f->f = kernel_expansion_init(o); kernel_approx_opts_free(o); kernel_expansion_update_params(f->f, s->n, y); }
    else { struct OrthPolyExpansion *e = orth_poly_expansion_init(s->cls == G_LEG ? LEGENDRE : CHEBYSHEV, s->n, s->lb, s->ub); memcpy(e->coeff, y, s->n * 8); f->f = e; }
    return f;
}
static void chn_run(const struct chn *s, struct trace *t)
{
    for (size_t r = 0; r < s->rounds; r++) {
        struct GenericFunction *f[2]; for (int q = 0; q < 2; q++) f[q] = chn_fn(s, r, q);
        if (s->op != 1) tr_d(t, "inner product", generic_function_inner(f[0], f[1]));
        if (s->op != 0 && s->cls != G_KERNEL) { struct GenericFunction *h = generic_function_daxpby(s->c[r], f[0], 1, f[1]); tr_d(t, "sum", generic_function_1d_eval(h, s->x)); generic_function_free(h); }
        tr_d(t, "value", generic_function_1d_eval(f[1], s->x)); tr_d(t, "integral", generic_function_integrate(f[0]));
        for (int q = 0; q < 2; q++) generic_function_free(f[s->rev ? 1 - q : q]);
        sim_yield();
    }
}
/* ---- dispatch ------------------------------------------------------------------------ */
void prog_make(struct prog *p, int kind, const char *who)
{
    p->kind = kind; snprintf(p->who, sizeof p->who, "%s", who);
    switch (kind) {
    case 0: { struct cx *c = xcalloc(1, sizeof *c); cx_make(c, 0); if (c->maxiter > 3) c->maxiter = 3; c->who = p->who; c->yields = 1; p->p = c; break; }
    case 1: p->p = alg_make(); break;
    case 2: p->p = opt_make(); break;
    case 3: p->p = one_make(); break;
    case 4: p->p = mon_make(who); break;
    case 5: p->p = regprog_make(p->who); break;
    case 7: p->p = chn_make(); break;
    default: p->p = den_make(who); break;
    }
}
void prog_run(struct prog *p, struct trace *t)
{
    memset(t, 0, sizeof *t);
    switch (p->kind) {
    case 0: {
        struct cx *c = xmalloc(sizeof *c); *c = *(struct cx *)p->p; c->qh = 1; cx_wrap(c); cx_open(c); struct FunctionTrain *ft = c3approx_do_cross(c->a, c->fw, c->adapt); tr_u(t, "requests", c->qh); tr_u(t, "evaluations", c->calls);
        if (ft) { tr_u(t, "result", ft_hash(ft)); for (size_t k = 0; k <= c->dim; k++) tr_u(t, "rank", ft->ranks[k]); } else tr_u(t, "no result", 1);
        function_train_free(ft); cx_close(c); xfree(c); break; }
    case 1: alg_run(p->p, t); break;
    case 2: opt_run(p->p, t); break;
    case 3: one_run1d(p->p, t); break;
    case 4: mon_run(p->p, t); break;
    case 5: regprog_run(p->p, t); break;
    case 7: chn_run(p->p, t); break;
    default: den_run(p->p, t); break;
    }
}
void prog_free(struct prog *p)
{
    if (p->kind == 1) for (int i = 0; i < 3; i++) function_train_free(((struct alg *)p->p)->t[i]);
    if (p->kind == 4) function_train_free(((struct mon *)p->p)->ft);
    if (p->kind == 6) function_train_free(((struct den *)p->p)->ft);
    xfree(p->p); p->p = NULL;
}
