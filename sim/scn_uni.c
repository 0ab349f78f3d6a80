/* One-dimensional functions of every class against evaluators of our own (C22). */
#include "gen.h"
#include "pivoting.h"
#include <float.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#define UP 5              /* functions in a pool */
#define UK 8              /* test points */
#define UN 60             /* nodes of a base grid */
#define PQ 150            /* evaluation points, parameters */
#define UB 8192           /* bytes of one serialised function */
struct us { int cls; double lb, ub, w, sc; size_t ng[2], kmax; double grid[2][UN], x[UK]; double *gp[2]; struct GenericFunction *g[UP]; size_t ops; const char *who; uint64_t hist; };
struct udur { int live; struct us z; size_t len[UP]; unsigned char b[UP][UB]; size_t left; };
typedef struct GenericFunction GF;

/* ---- evaluators of our own: from the stored numbers straight to a value ------------ */
static unsigned char *bytes(const GF *f, size_t *n) { serialize_generic_function(NULL, f, n); unsigned char *b = xcalloc(1, *n + 1); serialize_generic_function(b, f, NULL); return b; }
static uint64_t bhash(const GF *f) { size_t n; unsigned char *b = bytes(f, &n); uint64_t h = 0xcbf29ce484222325ULL; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; } xfree(b); return h; }
struct kx { size_t n; double c[64], s[64], w2[64], m[64], lb, ub; size_t freec; };
static void kread(const GF *f, struct kx *k)
{
    size_t nb; unsigned char *b = bytes(f, &nb), *p = b + sizeof(size_t) + sizeof(int); size_t t; int ty;
    memcpy(&k->n, p, 8); p += 8; memcpy(&t, p, 8); p += 8; SIM_CHECK(k->n <= 64 && t == k->n, "uni-bytes", "kernel bytes hold %zu kernels, %zu coefficients", k->n, t); memcpy(k->c, p, 8 * t); p += 8 * t;
    for (size_t i = 0; i < k->n; i++) { memcpy(&ty, p, 4); p += 4; memcpy(&t, p, 8); p += 8; memcpy(&t, p, 8); p += 8; double q[3]; memcpy(q, p, 24); p += 24; k->s[i] = q[0]; k->w2[i] = q[1]; k->m[i] = q[2]; }
    memcpy(&k->lb, p, 8); p += 8; memcpy(&k->ub, p, 8); p += 8; memcpy(&k->freec, p, 8); p += 8;
    SIM_CHECK(p == b + nb, "uni-bytes", "kernel bytes end at %zd of %zu", p - b, nb); xfree(b);
}
/* value and derivative; *a: sum of absolute contributions to the value, *da to the derivative; *near: 1 if x sits where a one-sided rule decides */
double uni_own(const GF *f, double x, double *a, double *d, double *da, int *near)
{
    double v = 0, A = 0, D = 0, B = 0; int nr = 0;
    if (f->fc == LINELM) {
        const struct LinElemExp *l = f->f; size_t n = l->num_nodes; const double *t = l->nodes, *c = l->coeff;
        if (x >= t[0] && x <= t[n - 1]) {
            size_t i = 0; while (i + 2 < n && t[i + 1] <= x) i++;
            double h = t[i + 1] - t[i], u = (x - t[i]) / h; v = c[i] * (1 - u) + c[i + 1] * u; A = fabs(c[i]) + fabs(c[i + 1]); D = (c[i + 1] - c[i]) / h; B = A / h;
            for (size_t j = 0; j < n; j++) if (fabs(x - t[j]) <= 1e-9) { nr = 1; if (x == t[j]) { nr = 2; v = c[j]; size_t p = j ? j - 1 : 0, q = j + 1 < n ? j + 1 : n - 1; D = (c[q] - c[p]) / (t[q] - t[p]); B = (fabs(c[q]) + fabs(c[p])) / (t[q] - t[p]); } }
        }
    } else if (f->fc == CONSTELM) {
        const struct ConstElemExp *l = f->f; size_t n = l->num_nodes, m = 0; const double *t = l->nodes;
        if (x >= t[0] && x <= t[n - 1]) { for (size_t j = 1; j < n; j++) { if (fabs(x - t[j]) <= fabs(x - t[m])) m = j; } for (size_t j = 0; j + 1 < n; j++) if (fabs(x - (t[j] + t[j + 1]) / 2) <= 1e-9) nr = 1; v = l->coeff[m]; A = fabs(v); }
    } else if (f->fc == KERNEL) {
        struct kx k; kread(f, &k);
        for (size_t i = 0; i < k.n; i++) { double e = k.c[i] * k.s[i] * exp(-(x - k.m[i]) * (x - k.m[i]) / k.w2[i]); v += e; A += fabs(e); D -= 2 * (x - k.m[i]) / k.w2[i] * e; B += fabs(2 * (x - k.m[i]) / k.w2[i] * e); }
    } else {
        const struct OrthPolyExpansion *p = f->f; double t = (2 * x - p->lower_bound - p->upper_bound) / (p->upper_bound - p->lower_bound), j = 2 / (p->upper_bound - p->lower_bound), p0 = 1, p1 = t, d0 = 0, d1 = 1; int leg = p->p->ptype == LEGENDRE;
        for (size_t i = 0; i < p->num_poly; i++) {
            double s = leg ? sqrt(2.0 * (double)i + 1) : 1; v += p->coeff[i] * s * p0; D += p->coeff[i] * s * d0 * j; A += fabs(p->coeff[i] * s); B += fabs(p->coeff[i] * s) * (double)(i * i + 1) * j;
            double n = (double)i + 1, p2 = leg ? ((2 * n + 1) * t * p1 - n * p0) / (n + 1) : 2 * t * p1 - p0, d2 = leg ? ((2 * n + 1) * (p1 + t * d1) - n * d0) / (n + 1) : 2 * p1 + 2 * t * d1 - d0; p0 = p1; p1 = p2; d0 = d1; d1 = d2;
        }
    }
    if (a) *a = A; if (d) *d = D; if (da) *da = B; if (near) *near = nr; return v;
}
#define VAL(f, x) uni_own(f, x, NULL, NULL, NULL, NULL)
static double flo(const GF *f) { return poly_floor(f); }
static size_t nnod(const GF *f, const double **t, const double **c) { if (f->fc == LINELM) { const struct LinElemExp *l = f->f; *t = l->nodes; if (c) *c = l->coeff; return l->num_nodes; } const struct ConstElemExp *l = f->f; *t = l->nodes; if (c) *c = l->coeff; return l->num_nodes; }
static int nodal(const GF *f) { return f->fc == LINELM || f->fc == CONSTELM; }
static int same_grid(const GF *f, const GF *g) { if (!nodal(f)) return 1; const double *s, *t; size_t n = nnod(f, &s, NULL), m = nnod(g, &t, NULL); if (n != m) return 0; for (size_t i = 0; i < n; i++) if (fabs(s[i] - t[i]) > 1e-15) return 0; return 1; }
static int same_kern(const GF *f, const GF *g) { if (f->fc != KERNEL) return 1; struct kx a, b; kread(f, &a); kread(g, &b); if (a.n != b.n) return 0; for (size_t i = 0; i < a.n; i++) if (fabs(a.s[i] - b.s[i]) > 1e-15 || fabs(a.w2[i] - b.w2[i]) > 1e-15 || fabs(a.m[i] - b.m[i]) > 1e-15) return 0; return 1; }
static int kfree(const GF *f) { if (f->fc != KERNEL) return 0; struct kx a; kread(f, &a); return a.freec != 0; }
static double lo(const GF *f) { if (nodal(f)) { const double *t; nnod(f, &t, NULL); return t[0]; } if (f->fc == KERNEL) { struct kx k; kread(f, &k); return k.lb; } return ((struct OrthPolyExpansion *)f->f)->lower_bound; }
static double hi(const GF *f) { if (nodal(f)) { const double *t; size_t n = nnod(f, &t, NULL); return t[n - 1]; } if (f->fc == KERNEL) { struct kx k; kread(f, &k); return k.ub; } return ((struct OrthPolyExpansion *)f->f)->upper_bound; }
/* integral of f*g (g NULL: of f) by the rule of the class: nodal trapezoid / half cells on the union of the nodes, Gauss panels otherwise */
double uni_quad(const GF *f, const GF *g, double *ab)
{
    double r = 0, A = 0;
    if (nodal(f)) {
        const double *s, *t; double u[300]; size_t n = nnod(f, &s, NULL), m = g ? nnod(g, &t, NULL) : 0, k = 0, i = 0, j = 0;
        while (i < n || j < m) { double v; if (j >= m) v = s[i++]; else if (i >= n) v = t[j++]; else if (fabs(s[i] - t[j]) < 1e-15) { v = s[i++]; j++; } else v = s[i] < t[j] ? s[i++] : t[j++]; u[k++] = v; }
        for (size_t q = 0; q < k; q++) { double w = ((q + 1 < k ? u[q + 1] : u[q]) - (q ? u[q - 1] : u[q])) / 2, e = w * VAL(f, u[q]) * (g ? VAL(g, u[q]) : 1); r += e; A += fabs(e); }
    } else {
        static const double gx[5] = { 0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640 }, gw[5] = { 0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891 };
        double a = lo(f), b = hi(f); if (g) { if (lo(g) > a) a = lo(g); if (hi(g) < b) b = hi(g); } if (a < -60) a = -60; if (b > 60) b = 60; int P = b - a > 20 ? 4000 : 160; double h = (b - a) / P;
        for (int p = 0; p < P; p++) for (int q = 0; q < 5; q++) { double x = a + h * (p + 0.5 + gx[q] / 2), e, e2 = 0, v = uni_own(f, x, &e, NULL, NULL, NULL), w = g ? uni_own(g, x, &e2, NULL, NULL, NULL) : 1; r += h / 2 * gw[q] * v * w; A += h / 2 * gw[q] * e * (g ? e2 : 1); }
    }
    *ab = A; return r;
}

/* ---- what every function must satisfy ----------------------------------------------- */
static size_t points(struct us *z, const GF *f, double *x) { size_t k = 0; for (size_t i = 0; i < UK; i++) x[k++] = z->x[i]; if (nodal(f)) { const double *t; size_t n = nnod(f, &t, NULL); for (size_t i = 0; i < n && k < PQ - 2; i++) x[k++] = t[i]; } return k; }
static void sane(struct us *z, GF *f, const char *w)
{
    SIM_CHECK(f && f->f && f->dim == 1, "uni-form", "%s: no function", w); double x[PQ], y[3 * PQ]; size_t n = points(z, f, x);
    if (nodal(f)) { const double *t; size_t m = nnod(f, &t, NULL); SIM_CHECK(m >= 2, "uni-form", "%s: %zu nodes", w, m); for (size_t i = 0; i + 1 < m; i++) SIM_CHECK(t[i] < t[i + 1], "uni-form", "%s: node %zu at %.17g, the next at %.17g", w, i, t[i], t[i + 1]); }
    SIM_CHECK(generic_function_get_lb(f) == lo(f) && generic_function_get_ub(f) == hi(f), "uni-bounds", "%s: bounds %.17g %.17g, stored %.17g %.17g", w, generic_function_get_lb(f), generic_function_get_ub(f), lo(f), hi(f));
    for (size_t i = 0; i < 3 * PQ; i++) y[i] = 7.5; generic_function_1d_evalN(f, n, x, 1, y, 3);
    for (size_t i = 0; i < 3 * PQ; i++) if (i % 3 || i / 3 >= n) SIM_CHECK(y[i] == 7.5, "uni-overrun", "%s: evaluation with stride 3 wrote element %zu", w, i);
    for (size_t i = 0; i < n; i++) {
        double a, d, da; int nr; double v = uni_own(f, x[i], &a, &d, &da, &nr), g = generic_function_1d_eval(f, x[i]);
        if (!(f->fc == CONSTELM && nr)) { SIM_CHECK(fabs(g - v) <= 1e-12 * a + 1e-300, "uni-eval", "%s: value %.17g at %.17g, its numbers give %.17g", w, g, x[i], v); SIM_CHECK(fabs(y[3 * i] - v) <= 1e-12 * a + 1e-300, "uni-eval", "%s: batch value %.17g at %.17g, its numbers give %.17g", w, y[3 * i], x[i], v); }
        if (!(f->fc == LINELM && nr == 1)) { double e = generic_function_deriv_eval(f, x[i]); if (f->fc != CONSTELM) SIM_CHECK(fabs(e - d) <= 1e-10 * da + 1e-300, "uni-deriv", "%s: derivative %.17g at %.17g, its numbers give %.17g", w, e, x[i], d); else SIM_CHECK(e == 0, "uni-deriv", "%s: derivative %.17g of a piecewise constant", w, e); }
    }
    if (nodal(f)) { double o = z->lb - 0.5; SIM_CHECK(generic_function_1d_eval(f, o) == 0 && generic_function_1d_eval(f, z->ub + 0.25) == 0, "uni-eval", "%s: does not vanish outside its domain", w); }
    uint64_t h = bhash(f); z->hist = (z->hist ^ h) * 0x9E3779B97F4A7C15ull; sim_log("%s %s -> %016llx", z->who, w, (unsigned long long)h);
}
/* r = sum c[i] f[i] */
static void want(struct us *z, GF *r, size_t n, const double *c, GF **f, const char *w)
{
    sane(z, r, w); double x[PQ]; size_t m = points(z, r, x); int sg = 1; for (size_t i = 0; i < n; i++) if (!same_grid(r, f[i])) sg = 0;
    for (size_t k = 0; k < m; k++) {
        double a, v, e = 0, tol = 1e-300; int nr, skip = 0; double g = uni_own(r, x[k], &a, NULL, NULL, &nr); tol += 1e-12 * a + flo(r);
        if (r->fc == CONSTELM) { if (nr) skip = 1; if (!sg && k < UK) { const double *t; size_t q = nnod(r, &t, NULL), on = 0; for (size_t i = 0; i < q; i++) if (t[i] == x[k]) on = 1; if (!on) skip = 1; } }
        for (size_t i = 0; i < n; i++) { v = uni_own(f[i], x[k], &a, NULL, NULL, &nr); if (f[i]->fc == CONSTELM && nr) skip = 1; e += c[i] * v; tol += fabs(c[i]) * (1e-11 * a + flo(f[i])); }
        if (!skip) SIM_CHECK(fabs(g - e) <= tol, "uni-algebra", "%s: %.17g at %.17g instead of %.17g (allowed error %.3g)", w, g, x[k], e, tol);
    }
}
static void put(struct us *z, size_t i, GF *f) { if (z->g[i]) generic_function_free(z->g[i]); z->g[i] = f; }
static GF *make(struct us *z)
{
    GF *g; double y[UN];
    if (z->cls == G_LIN || z->cls == G_CONST) {
        size_t q = sim_flip(1, 4), n = z->ng[q]; for (size_t i = 0; i < n; i++) y[i] = gen_coeff(); g = generic_function_alloc(1, z->cls == G_LIN ? LINELM : CONSTELM); g->fargs = NULL;
        g->f = z->cls == G_LIN ? (void *)lin_elem_exp_init(n, z->grid[q], y) : (void *)const_elem_exp_init(n, z->grid[q], y); return g;
    }
    if (z->cls == G_KERNEL) {
        size_t q = sim_flip(1, 6), n = z->ng[q]; if (n > z->kmax) n = z->kmax; struct KernelExpansion *k; g = generic_function_alloc(1, KERNEL); g->fargs = NULL;
        if (sim_choose(2)) { k = kernel_expansion_alloc(sim_range(1, n)); for (size_t i = 0; i < n; i++) { struct Kernel *kr = kernel_gaussian(z->sc, z->w, z->grid[q][i]); kernel_expansion_add_kernel(k, gen_coeff(), kr); kernel_free(kr); } kernel_expansion_set_bounds(k, z->lb, z->ub); }
        else { struct KernelApproxOpts *o = kernel_approx_opts_gauss(n, z->grid[q], z->sc, z->w); if (sim_flip(3, 4)) { kernel_approx_opts_set_lb(o, z->lb); kernel_approx_opts_set_ub(o, z->ub); } kernel_approx_opts_set_center_adapt(o, (int)sim_flip(1, 4)); k = kernel_expansion_init(o); kernel_approx_opts_free(o); for (size_t i = 0; i < n; i++) y[i] = gen_coeff(); kernel_expansion_update_params(k, n, y); }
        g->f = k; return g;
    }
    return gen_func((enum gen_cls)z->cls, z->lb, z->ub, 1);
}
static void *opts(struct us *z, size_t q)
{
    if (z->cls == G_LIN) return lin_elem_exp_aopts_alloc(z->ng[q], z->gp[q]);
    if (z->cls == G_CONST) return const_elem_exp_aopts_alloc(z->ng[q], z->gp[q]);
    if (z->cls == G_KERNEL) { struct KernelApproxOpts *o = kernel_approx_opts_gauss(z->ng[q] > 4 ? 4 : z->ng[q], z->gp[q], z->sc, z->w); kernel_approx_opts_set_lb(o, z->lb); kernel_approx_opts_set_ub(o, z->ub); return o; }
    struct OpeOpts *o = ope_opts_alloc(z->cls == G_LEG ? LEGENDRE : CHEBYSHEV); ope_opts_set_lb(o, z->lb); ope_opts_set_ub(o, z->ub); ope_opts_set_nparams(o, 6); return o;
}
static void opts_free(struct us *z, void *o) { if (z->cls == G_LIN) lin_elem_exp_aopts_free(o); else if (z->cls == G_CONST) const_elem_exp_aopts_free(o); else if (z->cls == G_KERNEL) kernel_approx_opts_free(o); else ope_opts_free(o); }
static enum function_class fcof(struct us *z) { return z->cls == G_LIN ? LINELM : z->cls == G_CONST ? CONSTELM : z->cls == G_KERNEL ? KERNEL : POLYNOMIAL; }
/* a partner whose sums with slot i are defined */
static size_t mate(struct us *z, size_t i) { size_t j = sim_choose(UP); for (size_t k = 0; k < UP; k++, j = (j + 1) % UP) if (j != i && same_kern(z->g[i], z->g[j])) return j; return i; }
static int big(const GF *f) { if (nodal(f)) { const double *t; return nnod(f, &t, NULL) > 90; } return f->fc == POLYNOMIAL && ((struct OrthPolyExpansion *)f->f)->num_poly > 12; }
static void keep(struct us *z, GF *f) { double m = 0, a; for (size_t k = 0; k < UK; k++) { uni_own(f, z->x[k], &a, NULL, NULL, NULL); if (a > m) m = a; } if (big(f) || m > 1e6 || kfree(f)) generic_function_free(f); else put(z, sim_choose(UP), f); }
static double cc(void) { return sim_flip(1, 6) ? 0.0 : sim_flip(1, 5) ? 1.0 : sim_double(-2, 2); }

struct uf { struct us *z; int kind; double a, b, c; size_t n; double seen[3000]; };
static double uval(const struct uf *u, double x) { double t = (x - u->z->lb) / (u->z->ub - u->z->lb); switch (u->kind) { case 0: return u->a + u->b * t; case 1: return u->a + u->b * sin(4 * t + u->c); case 2: return fabs(t - 0.37) + u->a; default: return u->a * t * t + u->b * t + u->c; } }
static int ucb(size_t n, const double *x, double *out, void *arg) { struct uf *u = arg; for (size_t i = 0; i < n; i++) { if (u->n < 3000) u->seen[u->n] = x[i]; u->n++; out[i] = uval(u, x[i]); } return 0; }

static void integrals(struct us *z, size_t i, size_t j)
{
    GF *f = z->g[i], *g = z->g[j]; double a, e = uni_quad(f, NULL, &a), v = generic_function_integrate(f); if (f->fc == KERNEL) a *= 10; double fl = 1e-9 * a + 1e-11 + flo(f) * (z->ub - z->lb);
    SIM_CHECK(fabs(v - e) <= fl, "uni-integral", "integral %.17g, its numbers give %.17g", v, e);
    if (nodal(f) && !same_grid(f, g)) { const double *s, *t; if (nnod(f, &s, NULL) + nnod(g, &t, NULL) < 5) return; }
    double ab, p = uni_quad(f, g, &ab), q = generic_function_inner(f, g), a1, a2, n1 = uni_quad(f, f, &a1), n2 = uni_quad(g, g, &a2); double tol = 1e-8 * ab + 1e-9 * sqrt(a1 * a2) + 1e-11;
    SIM_CHECK(fabs(p - q) <= tol, "uni-inner", "inner product %.17g, the numbers give %.17g", q, p);
    SIM_CHECK(fabs(generic_function_inner(g, f) - q) <= tol, "uni-inner", "inner product is not symmetric");
    double m = generic_function_norm(f); SIM_CHECK(fabs(m * m - n1) <= 1e-8 * a1 + 1e-11, "uni-inner", "norm %.17g, the numbers give %.17g", m, sqrt(n1));
    GF *arr[4] = { f, g, g, f }, *brr[4] = { g, f, f, g }; double s = generic_function_inner_sum(2, 2, arr, 1, brr); SIM_CHECK(fabs(s - (p + n1 * 0 + uni_quad(g, f, &ab))) <= 2 * tol || 0, "uni-inner", "sum of inner products %.17g, the numbers give %.17g", s, 2 * p);
    s = generic_function_inner_sum(2, 3, arr, 3, arr); SIM_CHECK(fabs(s - 2 * n1) <= 1e-8 * a1 + 1e-10, "uni-inner", "sum of inner products with stride 3 is %.17g instead of %.17g", s, 2 * n1);
    double an = generic_function_array_norm(2, 1, arr); SIM_CHECK(fabs(an * an - n1 - n2) <= 1e-8 * (a1 + a2) + 1e-11, "uni-inner", "norm of two functions squared %.17g instead of %.17g", an * an, n1 + n2);
    double *ia = generic_function_integral_array(2, 3, arr); SIM_CHECK(fabs(ia[0] - e) <= fl && fabs(ia[1] - e) <= fl, "uni-integral", "integrals with stride 3: %.17g %.17g instead of %.17g", ia[0], ia[1], e); free(ia);
    if (same_kern(f, g) && (same_grid(f, g) || f->fc == LINELM)) {
        double wa, cpm[2] = { 1, -1 }; GF *df = generic_function_daxpby(1, f, -1, g), *ffg[2] = { f, g }; want(z, df, 2, cpm, ffg, "difference"); double d = generic_function_norm2diff(f, g), w = uni_quad(df, df, &wa), dt = 4e-8 * (a1 + a2) + 1e-10; if (f->fc == KERNEL && d != d) d = 0;
        SIM_CHECK(fabs(d * d - w) <= dt, "uni-inner", "squared distance %.17g, the numbers give %.17g", d * d, w);
        GF *dg = generic_function_daxpby(1, g, -1, f); double w2 = uni_quad(dg, dg, &wa), ad = generic_function_array_norm2diff(2, arr, 1, brr, 1); generic_function_free(dg); SIM_CHECK(fabs(ad * ad - w - w2) <= 2 * dt, "uni-inner", "squared distance of two pairs %.17g instead of %.17g", ad * ad, w + w2); generic_function_free(df);
    }
    sim_probe("uni.integrals");
}
static void extremes(struct us *z)
{
    size_t s = sim_range(1, 2), n = s == 1 ? sim_range(1, UP) : sim_range(1, (UP + 1) / 2); double el[6]; size_t ne = sim_range(1, 6); for (size_t i = 0; i < ne; i++) el[i] = sim_flip(1, 4) ? z->x[sim_choose(UK)] : sim_double(z->lb, z->ub); struct c3Vector *v = c3vector_alloc(ne, el); int lst = z->cls == G_KERNEL || sim_choose(2);
    if (z->cls == G_LEG || z->cls == G_CHEB) lst = 1;
    double x = 99, m, best = -1, second = -1; size_t ind = 99, bi = 0; for (size_t i = 0; i < n; i++) { double mi = 0; GF *f = z->g[i * s]; if (lst) { for (size_t k = 0; k < ne; k++) if (fabs(generic_function_1d_eval(f, el[k])) > mi) mi = fabs(generic_function_1d_eval(f, el[k])); } else { const double *t, *c; size_t q = nnod(f, &t, &c); for (size_t k = 0; k < q; k++) if (fabs(c[k]) > mi) mi = fabs(c[k]); } if (mi > best) { second = best; best = mi; bi = i; } else if (mi > second) second = mi; }
    m = generic_function_array_absmax(n, s, z->g, &ind, &x, lst ? v : NULL);
    SIM_CHECK(m == best, "uni-absmax", "largest absolute value %.17g, the functions reach %.17g %s", m, best, lst ? "in the list" : "at their nodes"); SIM_CHECK(ind < n && x >= z->lb && x <= z->ub, "uni-absmax", "place %zu, %.17g", ind, x);
    if (best > second) SIM_CHECK(ind == bi, "uni-absmax", "the largest value is in function %zu, reported %zu", bi, ind);
    SIM_CHECK(fabs(generic_function_1d_eval(z->g[ind * s], x)) == m, "uni-absmax", "function %zu has %.17g at the reported place, not %.17g", ind, generic_function_1d_eval(z->g[ind * s], x), m);
    if (lst) { int in = 0; for (size_t k = 0; k < ne; k++) if (el[k] == x) in = 1; SIM_CHECK(in, "uni-absmax", "the reported place %.17g is not in the list", x); } else { const double *t; int in = 0; size_t q = nnod(z->g[ind * s], &t, NULL); for (size_t k = 0; k < q; k++) if (t[k] == x) in = 1; SIM_CHECK(in, "uni-absmax", "the reported place %.17g is not a node", x); }
    double x1 = 99, m1 = generic_function_absmax(z->g[0], &x1, lst ? v : NULL); SIM_CHECK(fabs(generic_function_1d_eval(z->g[0], x1)) == m1, "uni-absmax", "single absmax");
    if (z->cls == G_LIN) { const struct LinElemExp *l = z->g[0]->f; double a = l->coeff[0], b = a, xa, xb; for (size_t k = 0; k < l->num_nodes; k++) { if (l->coeff[k] > a) a = l->coeff[k]; if (l->coeff[k] < b) b = l->coeff[k]; } SIM_CHECK(lin_elem_exp_max(l, &xa) == a && VAL(z->g[0], xa) == a && lin_elem_exp_min(l, &xb) == b && VAL(z->g[0], xb) == b, "uni-absmax", "maximum or minimum over the nodes"); }
    if (z->cls == G_CONST) { const struct ConstElemExp *l = z->g[0]->f; double a = l->coeff[0], b = a, xa, xb; for (size_t k = 0; k < l->num_nodes; k++) { if (l->coeff[k] > a) a = l->coeff[k]; if (l->coeff[k] < b) b = l->coeff[k]; } SIM_CHECK(const_elem_exp_max(l, &xa) == a && VAL(z->g[0], xa) == a && const_elem_exp_min(l, &xb) == b && VAL(z->g[0], xb) == b, "uni-absmax", "maximum or minimum over the nodes"); }
    c3vector_free(v); sim_probe("uni.absmax");
}
static void params(struct us *z, size_t i)
{
    GF *f = z->g[i]; size_t np = generic_function_get_num_params(f); double p[PQ], q[PQ], g[3 * PQ + 1], x[3]; struct kx k; if (f->fc == KERNEL) kread(f, &k);
    SIM_CHECK(np >= 1 && np < PQ - 2, "uni-params", "%zu parameters", np); p[np] = 4.5; SIM_CHECK(generic_function_get_params(f, p) == np && p[np] == 4.5, "uni-params", "get_params"); size_t nr = 0; double *ref = f->fc == KERNEL && k.freec ? NULL : generic_function_get_params_ref(f, &nr); if (ref) SIM_CHECK(nr == np && !memcmp(ref, p, 8 * np), "uni-params", "the parameters read by reference differ");
    for (size_t j = 0; j < 3; j++) x[j] = sim_flip(1, 3) ? z->x[sim_choose(UK)] : sim_double(z->lb, z->ub); g[3 * np] = 8.25; SIM_CHECK(generic_function_param_grad_eval(f, 3, x, g) == 0 && g[3 * np] == 8.25, "uni-params", "param_grad_eval");
    for (size_t j = 0; j < 3; j++) {
        double gg[PQ], a; int nr2; gg[np] = 6.5; double v = uni_own(f, x[j], &a, NULL, NULL, &nr2), w = generic_function_param_grad_eval2(f, x[j], gg); SIM_CHECK(gg[np] == 6.5, "uni-overrun", "param_grad_eval2 wrote behind its result"); if (f->fc == CONSTELM && nr2) continue;
        SIM_CHECK(fabs(v - w) <= 1e-12 * a + 1e-300, "uni-params", "value %.17g with the gradient, %.17g otherwise", w, v);
        for (size_t u = 0; u < np; u++) {
            SIM_CHECK(same_bits(gg[u], g[j * np + u]), "uni-params", "parameter gradient %zu: %a alone, %a in a batch", u, gg[u], g[j * np + u]); double e, tol = 1e-10;
            if (f->fc == KERNEL && u >= k.n) { size_t m = u - k.n; double ex = k.s[m] * exp(-(x[j] - k.m[m]) * (x[j] - k.m[m]) / k.w2[m]); e = k.c[m] * ex * 2 * (x[j] - k.m[m]) / k.w2[m]; }
            else if (f->fc == KERNEL) e = k.s[u] * exp(-(x[j] - k.m[u]) * (x[j] - k.m[u]) / k.w2[u]);
            else { GF *c = generic_function_copy(f); memset(q, 0, sizeof q); q[u] = 1; generic_function_update_params(c, np, q); e = VAL(c, x[j]); generic_function_free(c); }
            SIM_CHECK(fabs(e - gg[u]) <= tol * (1 + fabs(e)), "uni-params", "derivative with respect to parameter %zu of %zu at %.17g is %.17g instead of %.17g", u, np, x[j], gg[u], e);
        }
    }
    if (f->fc != CONSTELM && !(f->fc == KERNEL && k.freec)) {
        double gr[PQ], sc = sim_double(-1, 1), b0[PQ]; for (size_t u = 0; u < np; u++) gr[u] = b0[u] = sim_double(-1, 1); gr[np] = 5.5; SIM_CHECK(generic_function_squared_norm_param_grad(f, sc, gr) == 0 && gr[np] == 5.5, "uni-params", "squared_norm_param_grad");
        for (size_t u = 0; u < np; u++) { GF *c = generic_function_copy(f); memset(q, 0, sizeof q); q[u] = 1; generic_function_update_params(c, np, q); double ab, e = 2 * sc * uni_quad(c, f, &ab), xa; uni_quad(f, f, &xa); SIM_CHECK(fabs(gr[u] - b0[u] - e) <= 1e-8 * (ab + 1e-3), "uni-params", "gradient of the squared norm: entry %zu changed by %.17g instead of %.17g", u, gr[u] - b0[u], e); generic_function_free(c); }
        sim_probe("uni.norm_gradient");
    }
    for (size_t u = 0; u < np; u++) q[u] = f->fc == KERNEL && u >= k.n ? sim_double(z->lb, z->ub) : gen_coeff();
    SIM_CHECK(generic_function_update_params(f, np, q) == 0, "uni-params", "update_params"); SIM_CHECK(generic_function_get_params(f, p) == np, "uni-params", "get_params"); for (size_t u = 0; u < np; u++) SIM_CHECK(same_bits(p[u], q[u]), "uni-params", "parameter %zu is %.17g after setting it to %.17g", u, p[u], q[u]);
    if (nodal(f)) { const double *t, *c; nnod(f, &t, &c); SIM_CHECK(!memcmp(c, q, 8 * np), "uni-params", "parameters are not the nodal values"); }
    sane(z, f, "update_params"); sim_probe("uni.params");
    if (kfree(f)) put(z, i, make(z));
}
static void create(struct us *z)
{
    size_t q = sim_choose(2); void *o = opts(z, q); enum function_class fc = fcof(z); GF *f = NULL; double a = cc(), b = cc(), p[UN]; size_t np = z->cls == G_LIN || z->cls == G_CONST ? z->ng[q] : z->cls == G_KERNEL ? (z->ng[q] > 4 ? 4 : z->ng[q]) : 6; const char *w = "";
    int kind = (int)sim_choose(z->cls == G_CONST ? 4 : 5);
    if (kind == 0) { w = "create_with_params"; for (size_t i = 0; i < np; i++) p[i] = gen_coeff(); f = generic_function_create_with_params(fc, o, np, p); double r[UN + 1]; SIM_CHECK(generic_function_get_params(f, r) == np, "uni-create", "%zu parameters instead of %zu", generic_function_get_num_params(f), np); for (size_t i = 0; i < np; i++) SIM_CHECK(same_bits(r[i], p[i]), "uni-create", "parameter %zu is %.17g instead of %.17g", i, r[i], p[i]); }
    else if (kind <= 2) { int force = kind - 1; w = "zero"; f = generic_function_zero(fc, o, force); if (force) SIM_CHECK(generic_function_get_num_params(f) == np, "uni-create", "zero function with %zu parameters instead of %zu", generic_function_get_num_params(f), np); for (size_t k = 0; k < UK; k++) SIM_CHECK(fabs(generic_function_1d_eval(f, z->x[k])) < 1e-12, "uni-create", "zero function has %.17g at %.17g", generic_function_1d_eval(f, z->x[k]), z->x[k]); }
    else if (z->cls == G_KERNEL) {       /* best fit: the residual at its 100 n points is orthogonal to every kernel */
        if (kind == 3) a = 0; f = kind == 3 ? generic_function_constant(b, fc, o) : generic_function_linear(a, b, fc, o); w = "least squares line"; struct kx k; kread(f, &k); size_t N = 100 * k.n; double cm = 0, sz = 0; for (size_t i = 0; i < k.n; i++) if (fabs(k.c[i]) > cm) cm = fabs(k.c[i]);
        for (size_t i = 0; i < k.n; i++) { double s = 0, t = 0; for (size_t u = 0; u < N; u++) { double x = z->lb + (z->ub - z->lb) * (double)u / (double)(N - 1), r = a * x + b - VAL(f, x), e = k.s[i] * exp(-(x - k.m[i]) * (x - k.m[i]) / k.w2[i]); s += r * e; t += (fabs(a * x + b) + (double)k.n * cm * k.s[i]) * fabs(e); } sz = t; SIM_CHECK(fabs(s) <= 1e-8 * sz + 1e-12, "uni-create", "residual of the fitted line has component %.3g (of %.3g) along kernel %zu", s, sz, i); }
    } else { f = kind == 3 ? generic_function_constant(b, fc, o) : generic_function_linear(a, b, fc, o); w = kind == 3 ? "constant" : "linear"; if (kind == 3) a = 0; for (size_t k = 0; k < UK; k++) { double e = a * z->x[k] + b, v = generic_function_1d_eval(f, z->x[k]); SIM_CHECK(fabs(e - v) <= 1e-11 * (1 + fabs(a) * 9 + fabs(b)), "uni-create", "%s function has %.17g at %.17g instead of %.17g", w, v, z->x[k], e); } }
    SIM_CHECK(generic_function_get_lb(f) == z->lb && generic_function_get_ub(f) == z->ub, "uni-bounds", "%s on [%.17g,%.17g] instead of [%.17g,%.17g]", w, generic_function_get_lb(f), generic_function_get_ub(f), z->lb, z->ub);
    opts_free(z, o); sane(z, f, w); keep(z, f); sim_probe("uni.create");
}
static void zeros(struct us *z)
{
    if (z->cls != G_LIN && z->cls != G_CONST) return;
    size_t n = sim_range(1, 3), q = sim_choose(2), N = z->ng[q], up = sim_choose(n * (N - 1) < 6 ? n * (N - 1) + 1 : 6); int adapt = (int)sim_flip(1, 3); void *o = !adapt ? opts(z, q) : z->cls == G_LIN ? (void *)lin_elem_exp_aopts_alloc_adapt(0, NULL, z->lb, z->ub, 1e-3, 1e-2) : (void *)const_elem_exp_aopts_alloc_adapt(0, NULL, z->lb, z->ub, 1e-3, 1e-2); size_t piv[8]; double px[8]; GF *L[3];
    for (size_t i = 0; i < up; i++) { for (;;) { piv[i] = sim_choose(n); px[i] = z->grid[q][sim_choose(N)]; size_t dup = 0, same = 0; for (size_t j = 0; j < i; j++) if (piv[j] == piv[i]) { same++; if (px[j] == px[i]) dup = 1; } if (!dup && same + 1 < N) break; } }
    generic_function_array_onezero(L, n, fcof(z), up, piv, px, o);
    for (size_t i = 0; i < n; i++) { sane(z, L[i], "onezero"); SIM_CHECK(lo(L[i]) == z->lb && hi(L[i]) == z->ub, "uni-onezero", "function %zu on [%.17g,%.17g]", i, lo(L[i]), hi(L[i])); }
    SIM_CHECK(piv[up] < n && px[up] >= z->lb && px[up] <= z->ub, "uni-onezero", "new pivot %zu, %.17g", piv[up], px[up]); for (size_t i = 0; i < up; i++) SIM_CHECK(VAL(L[piv[i]], px[i]) == 0, "uni-onezero", "function %zu is %.17g at its zero %.17g", piv[i], VAL(L[piv[i]], px[i]), px[i]);
    SIM_CHECK(fabs(VAL(L[piv[up]], px[up]) - 1) < 1e-14, "uni-onezero", "value at the new pivot is %.17g", VAL(L[piv[up]], px[up]));
    for (size_t i = 0; i < n; i++) generic_function_free(L[i]);
    opts_free(z, o);
    double one = sim_double(z->lb + 0.01, z->ub - 0.01), zs[4]; size_t nz = sim_choose(5), m = 0; for (size_t i = 0; i < nz; i++) { double c = z->lb + (z->ub - z->lb) * ((double)i + 0.5) / 5; if (fabs(c - one) > 1e-3) zs[m++] = c; }
    GF *f = generic_function_onezero(fcof(z), one, m, zs, z->lb, z->ub); sane(z, f, "onezero"); SIM_CHECK(VAL(f, one) == 1, "uni-onezero", "value %.17g where it should be one", VAL(f, one)); for (size_t i = 0; i < m; i++) SIM_CHECK(VAL(f, zs[i]) == 0, "uni-onezero", "value %.17g where it should vanish", VAL(f, zs[i])); generic_function_free(f); sim_probe("uni.onezero");
}
static void basis(struct us *z)
{
    size_t q = sim_choose(2); if (z->cls == G_CHEB) return; void *o = opts(z, q); size_t cap = z->cls == G_KERNEL ? 3 : z->cls == G_LEG ? 5 : z->ng[q], n = sim_range(1, cap); GF *F[UN]; if (z->cls == G_KERNEL && z->ng[q] < n) n = z->ng[q]; if (z->cls == G_KERNEL && z->w > 1.2) n = 1; int adapt = (z->cls == G_LIN || z->cls == G_CONST) && n > 1 && sim_flip(1, 4);
    if (adapt) { opts_free(z, o); o = z->cls == G_LIN ? (void *)lin_elem_exp_aopts_alloc_adapt(0, NULL, z->lb, z->ub, 1e-3, 1e-2) : (void *)const_elem_exp_aopts_alloc_adapt(0, NULL, z->lb, z->ub, 1e-3, 1e-2); }
    generic_function_array_orth(n, F, fcof(z), o);
    for (size_t i = 0; i < n; i++) { sane(z, F[i], "orthonormal basis"); for (size_t j = 0; j <= i; j++) { double ab, v = uni_quad(F[i], F[j], &ab); SIM_CHECK(fabs(v - (i == j)) <= 1e-6 + 1e-9 * ab, "uni-orth", "inner product of basis functions %zu and %zu is %.17g (of %zu)", i, j, v, n); } }
    for (size_t i = 0; i < n; i++) generic_function_free(F[i]);
    opts_free(z, o);
    sim_probe("uni.basis");
}
static void approx(struct us *z)
{
    if (z->cls == G_KERNEL) return;
    struct uf *u = xcalloc(1, sizeof *u); u->z = z; u->kind = (int)sim_choose(4); u->a = sim_double(0.5, 2); u->b = sim_double(-2, 2); u->c = sim_double(-1, 1); struct Fwrap *fw = fwrap_create(1, "general-vec"); fwrap_set_fvec(fw, ucb, u); size_t q = sim_choose(2); GF *f;
    if (z->cls == G_LIN && sim_choose(2)) {
        double delta = sim_choose(2) ? 1e-2 : 1e-4, hm = (z->ub - z->lb) * (sim_choose(2) ? 0.3 : 0.02) ; int start = (int)sim_choose(2); struct LinElemExpAopts *o = lin_elem_exp_aopts_alloc_adapt(start ? z->ng[q] : 0, start ? z->gp[q] : NULL, z->lb, z->ub, delta, hm); if (sim_choose(2)) { lin_elem_exp_aopts_set_delta(o, delta); lin_elem_exp_aopts_set_hmin(o, hm); }
        SIM_CHECK(lin_elem_exp_aopts_get_lb(o) == z->lb && lin_elem_exp_aopts_get_ub(o) == z->ub, "uni-bounds", "options on [%.17g,%.17g]", lin_elem_exp_aopts_get_lb(o), lin_elem_exp_aopts_get_ub(o)); f = generic_function_approximate1d(LINELM, o, fw); const struct LinElemExp *l = f->f; size_t n = l->num_nodes;
        SIM_CHECK(n >= 2 && l->nodes[0] == z->lb && l->nodes[n - 1] == z->ub, "uni-adapt", "%zu nodes from %.17g to %.17g", n, l->nodes[0], l->nodes[n - 1]); SIM_CHECK(u->n <= 2 * (size_t)((z->ub - z->lb) / hm) * 2 + 40 + 4 * z->ng[q], "uni-adapt", "%zu evaluations", u->n); SIM_CHECK(u->n <= 3000, "uni-adapt", "%zu evaluations", u->n);
        for (size_t i = 0; i < n; i++) { int in = 0; for (size_t k = 0; k < u->n; k++) if (u->seen[k] == l->nodes[i]) in = 1; SIM_CHECK(in, "uni-adapt", "node %.17g was never evaluated", l->nodes[i]); SIM_CHECK(same_bits(l->coeff[i], uval(u, l->nodes[i])), "uni-adapt", "value %.17g at node %.17g where the function has %.17g", l->coeff[i], l->nodes[i], uval(u, l->nodes[i])); if (i) SIM_CHECK(l->nodes[i] > l->nodes[i - 1], "uni-adapt", "nodes not increasing at %zu", i); }
        for (size_t k = 0; k < u->n; k++) { SIM_CHECK(u->seen[k] >= z->lb && u->seen[k] <= z->ub, "uni-adapt", "evaluated at %.17g outside the domain", u->seen[k]); }
        if (start) for (size_t i = 0; i < z->ng[q]; i++) { int in = 0; for (size_t k = 0; k < n; k++) if (l->nodes[k] == z->grid[q][i]) in = 1; SIM_CHECK(in, "uni-adapt", "starting node %.17g is gone", z->grid[q][i]); }
        /* an interval longer than hmin is half of one whose midpoint agreed with the chord */
        for (size_t i = 0; i + 1 < n; i++) { double h = l->nodes[i + 1] - l->nodes[i]; if (h <= hm * (1 + 1e-12)) continue; int ok = 0; for (int s = 0; s < 2; s++) { size_t a = s ? i - 1 : i, b = a + 1, c = a + 2; if ((s && !i) || c >= n) continue; double x0 = l->nodes[a], x1 = l->nodes[b], x2 = l->nodes[c]; if (fabs((x0 + x2) / 2 - x1) > 1e-12) continue; double fm = l->coeff[b]; if (fabs((l->coeff[a] + l->coeff[c]) / 2 - fm) < delta * fabs(fm) * (1 + 1e-9)) ok = 1; } SIM_CHECK(ok, "uni-adapt", "the interval [%.17g,%.17g], longer than %.3g, was not refined although the chord is off by more than %.3g", l->nodes[i], l->nodes[i + 1], hm, delta); }
        for (size_t k = 0; k < UK; k++) SIM_CHECK(fabs(generic_function_1d_eval(f, z->x[k]) - VAL(f, z->x[k])) < 1e-11 * (4 + fabs(u->a)), "uni-eval", "adaptive approximation evaluates wrongly");
        lin_elem_exp_aopts_free(o); generic_function_free(f); sim_probe("uni.adapt");
    } else {
        void *o = opts(z, q); if (z->cls == G_LEG || z->cls == G_CHEB) { u->kind = sim_choose(2) ? 0 : 3; ope_opts_set_start(o, 4); ope_opts_set_maxnum(o, 8); ope_opts_set_tol(o, 1e-10); ope_opts_set_coeffs_check(o, 1); }
        f = generic_function_approximate1d(fcof(z), o, fw); sane(z, f, "approximate1d");
        if (nodal(f)) { const double *t, *c; size_t n = nnod(f, &t, &c); SIM_CHECK(n == z->ng[q] && u->n == n, "uni-approx", "%zu nodes, %zu evaluations", n, u->n); for (size_t i = 0; i < n; i++) SIM_CHECK(t[i] == z->grid[q][i] && same_bits(c[i], uval(u, t[i])), "uni-approx", "node %zu", i); keep(z, f); }
        else { for (size_t k = 0; k < UK; k++) SIM_CHECK(fabs(generic_function_1d_eval(f, z->x[k]) - uval(u, z->x[k])) <= 1e-9 * 10, "uni-approx", "approximation of a polynomial is off by %.3g", generic_function_1d_eval(f, z->x[k]) - uval(u, z->x[k])); keep(z, f); }
        opts_free(z, o); sim_probe("uni.approx");
    }
    fwrap_destroy(fw); xfree(u);
}
static void fit(struct us *z)
{
    size_t q = sim_choose(2), N = sim_range(1, 9); void *o = opts(z, q); double x[9], y[9], p[UN], g[UN + 1]; size_t np = z->cls == G_LIN || z->cls == G_CONST ? z->ng[q] : z->cls == G_KERNEL ? (z->ng[q] > 4 ? 4 : z->ng[q]) : 6;
    for (size_t i = 0; i < N; i++) { x[i] = sim_double(z->lb, z->ub); y[i] = sim_double(-2, 2); } for (size_t i = 0; i < np; i++) p[i] = gen_coeff(); double lam = sim_choose(2) ? 0.0 : sim_double(0.001, 0.5); int rls = z->cls != G_CONST && z->cls != G_CHEB && sim_choose(2);
    struct Regress1DOpts *r = regress_1d_opts_create(PARAMETRIC, rls ? RLS2 : LS, N, x, y); regress_1d_opts_set_parametric_form(r, fcof(z), o); regress_1d_opts_set_initial_parameters(r, p); if (rls) regress_1d_opts_set_regularization_penalty(r, lam);
    GF *f = generic_function_create_with_params(fcof(z), o, np, p); double e = 0, A = 0, ab = 0, gg[UN] = { 0 }; int tie = 0;
    for (size_t i = 0; i < N; i++) { double a; int nr; double v = uni_own(f, x[i], &a, NULL, NULL, &nr); if (nr && z->cls == G_CONST) tie = 1; e += 0.5 * (y[i] - v) * (y[i] - v); A += (fabs(y[i]) + a) * (fabs(y[i]) + a); for (size_t u = 0; u < np; u++) { double pe[UN] = { 0 }; pe[u] = 1; GF *c = generic_function_create_with_params(fcof(z), o, np, pe); gg[u] -= (y[i] - v) * VAL(c, x[i]); generic_function_free(c); } }
    if (rls) { e += 0.5 * lam * uni_quad(f, f, &ab); A += ab; for (size_t u = 0; u < np; u++) { double pe[UN] = { 0 }; pe[u] = 1; GF *c = generic_function_create_with_params(fcof(z), o, np, pe); gg[u] += lam * uni_quad(f, c, &ab); generic_function_free(c); } }
    g[np] = 3.25; double v = rls ? param_RLS2regress_cost(np, p, g, r) : param_LSregress_cost(np, p, g, r), v0 = rls ? param_RLS2regress_cost(np, p, NULL, r) : param_LSregress_cost(np, p, NULL, r);
    if (!tie) { SIM_CHECK(fabs(v - e) <= 1e-9 * A + 1e-11, "uni-cost", "cost %.17g, the data give %.17g", v, e); SIM_CHECK(same_bits(v, v0), "uni-cost", "cost %a with gradient, %a without", v, v0); for (size_t u = 0; u < np; u++) SIM_CHECK(fabs(g[u] - gg[u]) <= 1e-8 * (A + 1) , "uni-cost", "cost gradient %zu is %.17g, the data give %.17g", u, g[u], gg[u]); SIM_CHECK(g[np] == 3.25, "uni-overrun", "cost wrote behind its gradient"); }
    struct c3Opt *op = c3opt_alloc(BFGS, np); c3opt_set_verbose(op, 0); c3opt_set_maxiter(op, 30); int info = 9; GF *b = generic_function_regress1d(r, op, &info); sane(z, b, "regress1d"); double bp[UN + 1]; SIM_CHECK(generic_function_get_params(b, bp) == np, "uni-fit", "%zu parameters", np);
    double fin = rls ? param_RLS2regress_cost(np, bp, NULL, r) : param_LSregress_cost(np, bp, NULL, r); SIM_CHECK(fin <= v0 + 1e-12 * (1 + fabs(v0)), "uni-fit", "the fit has cost %.17g, its starting point %.17g", fin, v0); SIM_CHECK(lo(b) == z->lb && hi(b) == z->ub, "uni-bounds", "fit on [%.17g,%.17g]", lo(b), hi(b));
    c3opt_free(op); generic_function_free(f); keep(z, b); regress_1d_opts_destroy(r); opts_free(z, o); sim_probe("uni.fit");
}
static void derivs(struct us *z, size_t i)
{
    GF *f = z->g[i]; if (f->fc == KERNEL) return;
    GF *d = generic_function_deriv(f); const double *t, *c, *s, *e;
    if (f->fc == POLYNOMIAL) { if (z->cls == G_LEG || z->cls == G_CHEB) { sane(z, d, "deriv"); for (size_t k = 0; k < UK; k++) { double D, B, a; uni_own(f, z->x[k], NULL, &D, &B, NULL); double v = uni_own(d, z->x[k], &a, NULL, NULL, NULL); SIM_CHECK(fabs(v - D) <= 1e-9 * (B + a) + 1e-10, "uni-deriv", "derivative function has %.17g at %.17g instead of %.17g", v, z->x[k], D); } } generic_function_free(d); sim_probe("uni.deriv"); return; }
    sane(z, d, "deriv"); size_t n = nnod(f, &t, &c), m = nnod(d, &s, &e); SIM_CHECK(m == n && !memcmp(s, t, n * 8), "uni-deriv", "derivative on another grid");
    for (size_t k = 0; k < n; k++) {
        double w = 0, b = 0; size_t p = k ? k - 1 : 0, q = k + 1 < n ? k + 1 : n - 1;
        if (f->fc == CONSTELM) { if (k + 1 < n) p = k; w = (c[q] - c[p]) / (t[q] - t[p]); }
        else if (n > 5 && k >= 2 && k + 2 < n) { double r = (pow(t[k + 2] - t[k], 3) + pow(t[k] - t[k - 2], 3)) / (pow(t[k + 1] - t[k], 3) + pow(t[k] - t[k - 1], 3)); w = (r * (c[k + 1] - c[k - 1]) - (c[k + 2] - c[k - 2])) / (r * (t[k + 1] - t[k - 1]) - (t[k + 2] - t[k - 2])); b = fabs(c[k + 2]) + fabs(c[k - 2]); }
        else w = (c[q] - c[p]) / (t[q] - t[p]);
        b = (b + fabs(c[q]) + fabs(c[p])) / (t[q] - t[p]) * 10; SIM_CHECK(fabs(e[k] - w) <= 1e-11 * b + 1e-300, "uni-deriv", "derivative at node %zu of %zu is %.17g instead of %.17g", k, n, e[k], w);
    }
    if (f->fc == LINELM) { GF *dd = generic_function_dderiv(f), *d2 = generic_function_deriv(d); size_t a, b; unsigned char *x = bytes(dd, &a), *y = bytes(d2, &b); SIM_CHECK(a == b && !memcmp(x, y, a), "uni-deriv", "second derivative is not the derivative of the first"); xfree(x); xfree(y); generic_function_free(dd); generic_function_free(d2); }
    generic_function_free(d); sim_probe("uni.deriv");
}
/* second derivative on a uniform periodic grid, after sums that may change the grid */
static void periodic(struct us *z)
{
    if (z->cls != G_LIN) return;
    size_t n = 2 * sim_range(1, 3) + 1, n2 = n; double x[7], y[7], x2[7], y2[7], h = (z->ub - z->lb) / (double)n; for (size_t i = 0; i < n; i++) { x[i] = z->lb + h * (double)i; y[i] = cc(); }
    if (sim_choose(2)) n2 = n == 3 ? 5 : 3;
    double h2 = (z->ub - z->lb) / (double)n2; for (size_t i = 0; i < n2; i++) { x2[i] = z->lb + h2 * (double)i; y2[i] = cc(); }
    GF *f = generic_function_alloc(1, LINELM); f->f = lin_elem_exp_init(n, x, y); GF *g = generic_function_alloc(1, LINELM); g->f = lin_elem_exp_init(n2, x2, y2);
    for (int rep = 0; rep < 3; rep++) {
        GF *q = rep == 1 ? g : f, *d = generic_function_dderiv_periodic(q); const double *t, *c, *s, *e; size_t m = nnod(q, &t, &c); SIM_CHECK(nnod(d, &s, &e) == m && !memcmp(s, t, m * 8), "uni-periodic", "second derivative on another grid"); double L = (double)m * (t[1] - t[0]);
        for (size_t i = 0; i < m; i++) { double r = 0, sz = 1e-12; for (size_t k = 1; 2 * k < m; k++) { double w = 2 * M_PI * (double)k / L, a = 0, b = 0; for (size_t j = 0; j < m; j++) { a += c[j] * cos(w * (t[j] - t[0])); b += c[j] * sin(w * (t[j] - t[0])); sz += w * w * fabs(c[j]); } r -= w * w * 2 / (double)m * (a * cos(w * (t[i] - t[0])) + b * sin(w * (t[i] - t[0]))); } SIM_CHECK(fabs(e[i] - r) <= 1e-9 * sz, "uni-periodic", "second derivative at node %zu of %zu is %.17g instead of %.17g", i, m, e[i], r); }
        generic_function_free(d); generic_function_scale(sim_choose(2) ? 0.5 : -2.0, f);
        if (sim_choose(2)) { GF *cp = generic_function_copy(f); generic_function_free(f); f = cp; }
    }
    generic_function_free(f); generic_function_free(g); sim_probe("uni.periodic");
}
static void kopts(struct us *z)
{
    if (z->cls != G_KERNEL) return;
    size_t n = sim_range(1, z->ng[0] < 4 ? z->ng[0] : 4); struct KernelApproxOpts *o = kernel_approx_opts_gauss(n, z->gp[0], z->sc, z->w); int ad = 0;
    SIM_CHECK(kernel_approx_opts_get_nparams(o) == n && kernel_approx_opts_linear_p(o) == 1, "uni-options", "fresh options: %zu parameters", kernel_approx_opts_get_nparams(o));
    if (sim_choose(2)) { kernel_approx_opts_set_lb(o, z->lb); kernel_approx_opts_set_ub(o, z->ub); SIM_CHECK(kernel_approx_opts_get_lb(o) == z->lb && kernel_approx_opts_get_ub(o) == z->ub, "uni-options", "bounds"); }
    if (sim_choose(2)) { kernel_approx_opts_set_center_adapt(o, 1); ad = 1; SIM_CHECK(kernel_approx_opts_get_nparams(o) == 2 * n && kernel_approx_opts_linear_p(o) == 0, "uni-options", "with free centres: %zu parameters for %zu kernels", kernel_approx_opts_get_nparams(o), n); }
    double a = kernel_approx_opts_get_lb(o), b = kernel_approx_opts_get_ub(o); if (a < -1e100) { a = z->grid[0][0]; b = z->grid[0][n - 1]; }
    if (sim_choose(2)) { size_t m = sim_range(2, 5); kernel_approx_opts_set_nparams(o, ad ? 2 * m : m); SIM_CHECK(kernel_approx_opts_get_nparams(o) == (ad ? 2 * m : m), "uni-options", "set_nparams"); GF *f = generic_function_zero(KERNEL, o, 1); struct kx k; kread(f, &k); SIM_CHECK(k.n == m && (k.freec != 0) == ad, "uni-options", "%zu kernels instead of %zu", k.n, m); for (size_t i = 0; i < m; i++) SIM_CHECK(fabs(k.m[i] - (a + (b - a) * (double)i / (double)(m - 1))) <= 1e-12 * (fabs(a) + fabs(b) + 1) && k.s[i] == z->sc && fabs(k.w2[i] - z->w * z->w) < 1e-15, "uni-options", "kernel %zu at %.17g", i, k.m[i]); SIM_CHECK(generic_function_get_num_params(f) == (ad ? 2 * m : m), "uni-options", "function has %zu parameters", generic_function_get_num_params(f)); sane(z, f, "kernel options"); generic_function_free(f); }
    kernel_approx_opts_free(o); sim_probe("uni.kernel_options");
}
/* the options of several dimensions: what was set is what is read, per dimension, and functions made from them have it */
struct om { int cls; size_t n, np; double lb, ub, *g; int adapt; };
static void mopts(struct us *z)
{
    size_t d = sim_range(1, 3); struct MultiApproxOpts *m = multi_approx_opts_alloc(d); struct om M[3]; struct OneApproxOpts *O[3]; double g[3][2][6]; memset(M, 0, sizeof M);
    for (size_t i = 0; i < d; i++) {
        struct om *q = &M[i]; q->cls = (int)sim_choose(4); q->n = sim_range(2, 6); for (int s = 0; s < 2; s++) { double x = sim_double(-3, 0); for (int k = 0; k < 6; k++) { g[i][s][k] = x; x += sim_double(0.1, 1); } }
        q->g = g[i][0]; q->lb = q->g[0]; q->ub = q->g[q->n - 1]; q->np = q->n; void *a; enum function_class fc;
        switch (q->cls) {
        case 0: fc = LINELM; a = lin_elem_exp_aopts_alloc(q->n, q->g); break;
        case 1: fc = CONSTELM; a = const_elem_exp_aopts_alloc(q->n, q->g); break;
        case 2: fc = KERNEL; a = kernel_approx_opts_gauss(q->n, q->g, 1.0, 0.4); kernel_approx_opts_set_lb(a, q->lb); kernel_approx_opts_set_ub(a, q->ub); break;
        default: fc = POLYNOMIAL; a = ope_opts_alloc(sim_choose(2) ? LEGENDRE : CHEBYSHEV); ope_opts_set_lb(a, q->lb); ope_opts_set_ub(a, q->ub); ope_opts_set_nparams(a, q->n); break;
        }
        O[i] = one_approx_opts_alloc(fc, a); if (sim_choose(2)) multi_approx_opts_set_dim(m, i, O[i]); else multi_approx_opts_set_dim_ref(m, i, &O[i]);
    }
    for (size_t st = sim_range(1, 4); st--;) {
        size_t i = sim_choose(d); struct om *q = &M[i]; SIM_CHECK(multi_approx_opts_get_aopts(m, i) == O[i], "uni-options", "options of dimension %zu", i); void *a = O[i]->aopts; size_t n = sim_range(2, 6);
        if (q->cls < 2) { int c = q->cls == 0 && sim_choose(2); double *h = g[i][sim_choose(2)]; if (q->cls == 1) const_elem_exp_aopts_set_nodes(a, n, h); else if (!c) lin_elem_exp_aopts_set_nodes(a, n, h); else { double t[6]; memcpy(t, h, sizeof t); lin_elem_exp_aopts_set_nodes_copy(a, n, t); for (int k = 0; k < 6; k++) t[k] = 77; } q->g = h; q->n = q->np = n; q->lb = h[0]; q->ub = h[n - 1]; }
        else if (q->cls == 2 && sim_choose(2)) { kernel_approx_opts_set_center_adapt(a, 1); q->adapt = 1; q->np = 2 * q->n; }
        else { multi_approx_opts_set_dim_nparams(m, i, q->adapt ? 2 * n : n); q->n = n; q->np = q->adapt ? 2 * n : n; }
        sim_yield();
        SIM_CHECK(multi_approx_opts_get_dim(m) == d, "uni-options", "dimension %zu", multi_approx_opts_get_dim(m));
        for (size_t k = 0; k < d; k++) {
            struct om *w = &M[k]; double l = multi_approx_opts_get_dim_lb(m, k), u = multi_approx_opts_get_dim_ub(m, k); size_t np = multi_approx_opts_get_dim_nparams(m, k); enum function_class fc = w->cls == 0 ? LINELM : w->cls == 1 ? CONSTELM : w->cls == 2 ? KERNEL : POLYNOMIAL;
            SIM_CHECK(l == w->lb && u == w->ub, "uni-options", "dimension %zu is on [%.17g,%.17g] instead of [%.17g,%.17g]", k, l, u, w->lb, w->ub);
            SIM_CHECK(one_approx_opts_get_lb(O[k]) == l && one_approx_opts_get_ub(O[k]) == u && one_approx_opts_get_nparams(O[k]) == np, "uni-options", "one-dimensional options differ");
            SIM_CHECK(np == w->np, "uni-options", "dimension %zu: %zu parameters instead of %zu", k, np, w->np);
            SIM_CHECK(multi_approx_opts_get_fc(m, k) == fc, "uni-options", "class of dimension %zu", k); SIM_CHECK(multi_approx_opts_linear_p(m, k) == !w->adapt, "uni-options", "linear_p of dimension %zu", k);
            GF *f = generic_function_zero(fc, O[k]->aopts, 1); SIM_CHECK(generic_function_get_num_params(f) == w->np, "uni-options", "a function of dimension %zu has %zu parameters instead of %zu", k, generic_function_get_num_params(f), w->np); SIM_CHECK(generic_function_get_lb(f) == w->lb && generic_function_get_ub(f) == w->ub, "uni-options", "a function of dimension %zu is on [%.17g,%.17g]", k, generic_function_get_lb(f), generic_function_get_ub(f));
            if (nodal(f)) { const double *t, *c; size_t N = nnod(f, &t, &c); SIM_CHECK(N == w->n, "uni-options", "%zu nodes", N); for (size_t e = 0; e < N; e++) SIM_CHECK(t[e] == w->g[e] && c[e] == 0, "uni-options", "node %zu at %.17g", e, t[e]); }
            generic_function_free(f);
        }
    }
    for (size_t i = 0; i < d; i++) one_approx_opts_free_deep(&O[i]);
    multi_approx_opts_free(m); sim_probe("uni.options");
}
/* functions of one shape come and go at the same places in memory: what was known about the old ones says nothing about the new */
static void churn(struct us *z)
{
    struct us *t = xcalloc(1, sizeof *t); *t = *z; t->ng[0] = t->ng[1] = sim_range(3, 6); size_t rounds = sim_range(2, 6), ord = sim_choose(2); unsigned light = (unsigned)sim_choose(4); if (light == 1) light = 2;
    for (size_t r = 0; r < rounds; r++) {
        int same = (int)sim_choose(2); gen_nodes(t->ng[0], z->lb, z->ub, t->grid[0]); if (same) memcpy(t->grid[1], t->grid[0], sizeof t->grid[0]); else { gen_nodes(t->ng[1], z->lb, z->ub, t->grid[1]); for (size_t i = 1; i + 1 < t->ng[1]; i++) t->grid[1][i] = t->grid[0][i] + (t->grid[0][i + 1] - t->grid[0][i]) * sim_double(0.1, 0.9); }
        for (size_t q = 0; q < UP; q++) t->g[q] = NULL;
        for (size_t q = 0; q < 2; q++) {
            double y[UN]; size_t n = t->ng[q]; for (size_t i = 0; i < n; i++) y[i] = gen_coeff(); GF *g = generic_function_alloc(1, fcof(z)); g->fargs = NULL;
            if (z->cls == G_LIN) g->f = lin_elem_exp_init(n, t->grid[q], y); else if (z->cls == G_CONST) g->f = const_elem_exp_init(n, t->grid[q], y);
            else if (z->cls == G_KERNEL) { struct KernelApproxOpts *o = kernel_approx_opts_gauss(n, t->grid[q], z->sc, z->w); kernel_approx_opts_set_lb(o, z->lb); kernel_approx_opts_set_ub(o, z->ub); g->f = kernel_expansion_init(o); kernel_approx_opts_free(o); kernel_expansion_update_params(g->f, n, y); }
            else { struct OrthPolyExpansion *e = orth_poly_expansion_init(z->cls == G_LEG ? LEGENDRE : CHEBYSHEV, n, z->lb, z->ub); memcpy(e->coeff, y, n * 8); g->f = e; }
            t->g[q] = g; sane(t, g, "short-lived");
        }
        unsigned v = light ? light : 1 + (unsigned)sim_choose(3);
        if (v == 1) integrals(t, 0, 1);
        if (v != 2 && same_kern(t->g[0], t->g[1])) { double c[2] = { cc(), cc() }; GF *s = generic_function_daxpby(c[0], t->g[0], c[1], t->g[1]); want(t, s, 2, c, t->g, "sum of short-lived functions"); generic_function_free(s); }
        if (v != 3) { double ab, a1, a2, p = uni_quad(t->g[0], t->g[1], &ab), x = generic_function_inner(t->g[0], t->g[1]); uni_quad(t->g[0], t->g[0], &a1); uni_quad(t->g[1], t->g[1], &a2); SIM_CHECK(fabs(p - x) <= 1e-8 * ab + 1e-9 * sqrt(a1 * a2) + 1e-11, "uni-inner", "inner product of short-lived functions %.17g, the numbers give %.17g", x, p); }
        for (size_t q = 0; q < 2; q++) generic_function_free(t->g[ord ? 1 - q : q]);
    }
    z->hist = t->hist; xfree(t); sim_probe("uni.churn");
}
static void ops(struct us *z)
{
    size_t i = sim_choose(UP), j = mate(z, i), k = sim_choose(UP); GF *f = z->g[i], *g = z->g[j], *r = NULL; uint64_t h[UP]; for (size_t q = 0; q < UP; q++) h[q] = bhash(z->g[q]); size_t changed = UP; char w[64];
    switch (sim_choose(23)) {
    case 22: churn(z); break;
    case 0: {
        size_t a, b; if (sim_choose(2)) r = generic_function_copy(f); else { r = generic_function_alloc(1, f->fc); generic_function_copy_pa(f, r); } unsigned char *x = bytes(f, &a), *y = bytes(r, &b); SIM_CHECK(a == b && !memcmp(x, y, a), "uni-copy", "the copy differs"); xfree(x); xfree(y); sane(z, r, "copy"); if (!kfree(r)) { generic_function_scale(-2.5, r); double c[1] = { -2.5 }; want(z, r, 1, c, &f, "scaled copy"); }
        SIM_CHECK(bhash(f) == h[i], "uni-changes", "scaling a copy changed the original"); keep(z, r); break; }
    case 1: case 2: { if (i == j) break; double c[2] = { cc(), cc() }; GF *ff[2] = { f, g }; unsigned v = (unsigned)sim_choose(4); if (v == 0) { r = generic_function_daxpby(c[0], f, c[1], NULL); want(z, r, 1, c, ff, "a x"); } else if (v == 1) { r = generic_function_daxpby(c[0], NULL, c[1], g); want(z, r, 1, c + 1, ff + 1, "b y"); } else if (v == 2 && nodal(f)) { r = generic_function_alloc(1, f->fc); generic_function_weighted_sum_pa(c[0], f, c[1], g, &r); want(z, r, 2, c, ff, "weighted sum"); } else { r = generic_function_daxpby(c[0], f, c[1], g); want(z, r, 2, c, ff, "a x + b y"); } if (!same_grid(f, g)) sim_probe("uni.merged"); keep(z, r); break; }
    case 3: { if (i == j) break; double c[2] = { cc(), 1 }; GF *ff[2] = { f, generic_function_copy(g) }; if (sim_choose(2)) SIM_CHECK(generic_function_axpy(c[0], f, g) == 0, "uni-algebra", "axpy reported failure"); else { GF *xa[1] = { f }, *ya[1] = { g }; SIM_CHECK(generic_function_array_axpy(1, c[0], xa, ya) == 0, "uni-algebra", "array_axpy reported failure"); } want(z, g, 2, c, ff, "y += a x"); if (!same_grid(f, ff[1])) sim_probe("uni.merged"); generic_function_free(ff[1]); changed = j; if (big(g)) put(z, j, make(z)); break; }
    case 4: {      /* arrays with strides */
        if (i == j) break;
        double a = cc(), b = cc(); GF *xa[6] = { f, NULL, g, NULL, f, NULL }, *ya[6] = { g, f, g, NULL, NULL, NULL }; size_t n = sim_range(1, 3); int v = (int)sim_choose(3), two = (int)sim_choose(2); GF **out, *za[9] = { 0 };
        if (two) { generic_function_array_daxpby2(n, a, 2, v == 1 ? NULL : xa, b, 1, v == 2 ? NULL : ya, 3, za); out = za; } else out = generic_function_array_daxpby(n, a, 2, v == 1 ? NULL : xa, b, 1, v == 2 ? NULL : ya);
        for (size_t q = 0; q < n; q++) { double c[2] = { a, b }; GF *ff[2] = { xa[2 * q], ya[q] }; sprintf(w, "array a x + b y [%zu]", q); if (v == 1) want(z, out[two ? 3 * q : q], 1, c + 1, ff + 1, w); else want(z, out[two ? 3 * q : q], v == 2 ? 1 : 2, c, ff, w); }
        if (two) { for (size_t q = 0; q < 9; q++) { if (q % 3 || q / 3 >= n) SIM_CHECK(za[q] == NULL, "uni-overrun", "array sum wrote element %zu", q); else generic_function_free(za[q]); } } else generic_function_array_free(out, n);
        sim_probe("uni.arrays"); break; }
    case 5: { double a = cc(); GF *c = generic_function_copy(f); GF *arr[3] = { f, NULL, NULL }; unsigned v = (unsigned)sim_choose(4); if (v == 0) generic_function_scale(a, f); else if (v == 1) { a = -1; generic_function_flip_sign(f); } else if (v == 2) generic_function_array_scale(a, arr, 1); else { a = -1; generic_function_array_flip_sign(1, 3, arr); } want(z, f, 1, &a, &c, "scale"); generic_function_free(c); changed = i; break; }
    case 6: {
        size_t n = sim_range(1, 4), ldf = sim_range(1, 2), ldc = sim_range(1, 3); GF *arr[8], *pf[4]; double c[12], pc[4]; for (size_t q = 0; q < 8; q++) arr[q] = q % 2 ? g : f; for (size_t q = 0; q < 12; q++) c[q] = cc(); if (sim_choose(2)) { ldf = ldc = 1; r = generic_function_lin_comb(n, arr, c); } else r = generic_function_lin_comb2(n, ldf, arr, ldc, c);
        for (size_t q = 0; q < n; q++) { pf[q] = arr[q * ldf]; pc[q] = c[q * ldc]; } want(z, r, n, pc, pf, "linear combination"); keep(z, r); sim_probe("uni.lincomb"); break; }
    case 7: case 8: {
        if (f->fc == KERNEL || (f->fc == CONSTELM && !same_grid(f, g)) || z->cls == G_CHEB) break;
        if (f->fc == POLYNOMIAL) { double ab; if (uni_quad(f, f, &ab) < 1e-8 || uni_quad(g, g, &ab) < 1e-8) break; }
        size_t n = sim_range(1, 3); GF *A[6] = { f, g, f, f, g, f }, *B[6] = { g, g, f, g, f, f }; size_t la = sim_range(1, 2), lb = sim_range(1, 2); int ad = f->fc == LINELM && !same_grid(f, g); if (ad) n = 1; r = n == 1 ? generic_function_prod(f, g) : generic_function_sum_prod(n, la, A, lb, B); if (n == 1) la = lb = 1;
        if (!ad || !big(r)) sane(z, r, "product"); double x[PQ]; size_t m = ad ? UK : points(z, r, x); if (ad) memcpy(x, z->x, sizeof z->x);
        for (size_t q = 0; q < m; q++) { double e = 0, t = 1e-9; int nr, on = !nodal(f); for (size_t p = 0; p < n; p++) { double a1, a2, v1 = uni_own(A[p * la], x[q], &a1, NULL, NULL, &nr), v2 = uni_own(B[p * lb], x[q], &a2, NULL, NULL, NULL); if (f->fc == CONSTELM && !nr) on = 1; if (f->fc == LINELM && nr == 2) on = 1; e += v1 * v2; t += 1e-10 * (a1 + 1) * (a2 + 1); }
            if (ad) { /* adaptive: exact at its nodes */ const double *tt, *c; size_t nn = nnod(r, &tt, &c); for (size_t p = 0; p < nn; p += 1 + nn / 50) { double v = VAL(f, tt[p]) * VAL(g, tt[p]); SIM_CHECK(fabs(c[p] - v) <= 1e-10 * (1 + fabs(v)), "uni-product", "product has %.17g at its node %.17g instead of %.17g", c[p], tt[p], v); if (p + 1 < nn) SIM_CHECK(tt[p] < tt[p + 1], "uni-form", "product: nodes not increasing"); } SIM_CHECK(tt[0] == z->lb && tt[nn - 1] == z->ub, "uni-bounds", "product lives on [%.17g,%.17g]", tt[0], tt[nn - 1]); sim_probe("uni.adaptive_product"); break; }
            if (on && !(f->fc == CONSTELM && nr)) SIM_CHECK(fabs(VAL(r, x[q]) - e) <= t, "uni-product", "product has %.17g at %.17g instead of %.17g", VAL(r, x[q]), x[q], e); }
        sim_probe("uni.product"); if (ad || f->fc == POLYNOMIAL) generic_function_free(r); else keep(z, r); break; }
    case 9: {      /* a kron(., c): every entry a linear combination */
        if (i == j) break;
        size_t rr = sim_range(1, 2), m = sim_range(1, 2), n = sim_range(1, 2), l = sim_range(1, 2); int left = (int)sim_choose(2); double a[16]; GF *c[4], *d[8] = { 0 }; for (size_t q = 0; q < 16; q++) a[q] = cc(); for (size_t q = 0; q < 4; q++) c[q] = sim_choose(2) ? f : g; generic_function_kronh(left, rr, m, n, l, a, c, d);
        if (left) for (size_t kk = 0; kk < l; kk++) for (size_t jj = 0; jj < m; jj++) for (size_t ii = 0; ii < rr; ii++) { double pc[2]; for (size_t q = 0; q < n; q++) pc[q] = a[ii + rr * (jj * n + q)]; want(z, d[kk * rr * m + jj * rr + ii], n, pc, c + n * kk, "kronh"); generic_function_free(d[kk * rr * m + jj * rr + ii]); }
        else for (size_t ii = 0; ii < rr; ii++) for (size_t jj = 0; jj < n; jj++) for (size_t kk = 0; kk < m; kk++) { double pc[2]; GF *pf[2]; for (size_t q = 0; q < l; q++) { pc[q] = a[kk * l + q + ii * l * m]; pf[q] = c[jj + q * n]; } want(z, d[jj + kk * n + ii * n * m], l, pc, pf, "kronh"); generic_function_free(d[jj + kk * n + ii * n * m]); }
        sim_probe("uni.kron"); break; }
    case 10: derivs(z, i); break;
    case 11: case 12: integrals(z, i, i == j ? k : j); break;
    case 13: {
        size_t n = sim_range(1, UP), N = sim_flip(1, 6) ? sim_range(6, 260) : sim_range(1, 5), NY = (N + 1) * (UP + 3) + 8; double *x = xcalloc(2 * N, 8), *y = xcalloc(NY, 8), *e; for (size_t q = 0; q < 2 * N; q++) x[q] = sim_flip(1, 3) ? z->x[sim_choose(UK)] : sim_double(z->lb, z->ub); for (size_t q = 0; q < NY; q++) y[q] = 2.5; e = generic_function_1darray_eval(n, z->g, x[0]); generic_function_1darray_eval2(n, z->g, x[0], y); SIM_CHECK(y[n] == 2.5, "uni-overrun", "array evaluation wrote behind its result");
        for (size_t q = 0; q < n; q++) { double a, v; int nr; v = uni_own(z->g[q], x[0], &a, NULL, NULL, &nr); if (z->cls == G_CONST && nr) continue; SIM_CHECK(fabs(e[q] - v) <= 1e-12 * a && fabs(y[q] - v) <= 1e-12 * a, "uni-eval", "function %zu of the array: %.17g and %.17g at %.17g, its numbers give %.17g", q, e[q], y[q], x[0], v); } free(e);
        size_t inc = n + sim_choose(3); for (size_t q = 0; q < NY; q++) y[q] = 2.5; generic_function_1darray_eval2N(n, z->g, N, x, 2, y, inc); for (size_t p = 0; p < N; p++) for (size_t q = 0; q < inc; q++) { double a, v; int nr; if (q >= n) { SIM_CHECK(y[p * inc + q] == 2.5, "uni-overrun", "array evaluation wrote into the gap"); continue; } v = uni_own(z->g[q], x[2 * p], &a, NULL, NULL, &nr); if (z->cls == G_CONST && nr) continue; SIM_CHECK(fabs(y[p * inc + q] - v) <= 1e-12 * a, "uni-eval", "function %zu at point %zu: %.17g, its numbers give %.17g", q, p, y[p * inc + q], v); }
        if (nodal(f)) { const double *t, *c; size_t m = nnod(f, &t, &c), q = sim_choose(m); GF *arr[2] = { f, f }; SIM_CHECK(generic_function_1d_eval_ind(f, q) == c[q], "uni-eval", "nodal value %zu", q); generic_function_1darray_eval2_ind(2, arr, q, y); SIM_CHECK(y[0] == c[q] && y[1] == c[q], "uni-eval", "nodal values %zu of an array", q); } sim_probe("uni.eval");
        size_t si = sim_range(1, 2), so = sim_range(1, 3); for (size_t q = 0; q < NY; q++) y[q] = 2.5; generic_function_1d_evalN(f, N, x, si, y, so);     /* one function at many points */
        for (size_t p = 0; p < N * so; p++) { if (p % so) { SIM_CHECK(y[p] == 2.5, "uni-overrun", "evaluation wrote into the gap"); continue; } double a, v; int nr; v = uni_own(f, x[p / so * si], &a, NULL, NULL, &nr); if (z->cls == G_CONST && nr) continue; SIM_CHECK(fabs(y[p] - v) <= 1e-12 * a, "uni-eval", "point %zu of %zu: %.17g, its numbers give %.17g", p / so, N, y[p], v); }
        if (N > 5) sim_probe("uni.many_points"); xfree(x); xfree(y); break; }
    case 14: extremes(z); break;
    case 15: params(z, i); changed = i; break;
    case 16: create(z); changed = UP + 1; break;
    case 21: mopts(z); break;
    case 17: if (sim_choose(2)) zeros(z); else basis(z); break;
    case 18: if (nodal(f)) { size_t q = sim_choose(2); r = generic_function_create_nodal(f, z->ng[q], z->gp[q]); sane(z, r, "create_nodal"); const double *t, *c; size_t n = nnod(r, &t, &c); SIM_CHECK(n == z->ng[q], "uni-nodal", "%zu nodes", n); for (size_t p = 0; p < n; p++) { int nr; double v = uni_own(f, t[p], NULL, NULL, NULL, &nr); SIM_CHECK(t[p] == z->grid[q][p], "uni-nodal", "node %zu", p); if (!(f->fc == CONSTELM && nr)) SIM_CHECK(fabs(c[p] - v) <= 1e-12 * (1 + fabs(v)), "uni-nodal", "value %.17g at node %zu instead of %.17g", c[p], p, v); } keep(z, r); sim_probe("uni.nodal"); } else kopts(z); break;
    case 19: if (sim_choose(2)) approx(z); else periodic(z); changed = UP + 1; break;
    default: fit(z); changed = UP + 1; break;
    }
    if (changed != UP + 1 && r == NULL) for (size_t q = 0; q < UP; q++) if (q != changed) SIM_CHECK(bhash(z->g[q]) == h[q], "uni-changes", "an operation changed function %zu, which it only reads", q);
}
static void session(void *arg) { struct us *z = arg; for (size_t o = 0; o < z->ops; o++) { sim_yield(); ops(z); } }
static void start(struct us *z, const char *who)
{
    static const int cl[] = { G_LIN, G_CONST, G_KERNEL, G_LIN, G_CONST, G_KERNEL, G_LIN, G_LEG, G_CHEB }; memset(z, 0, sizeof *z); z->who = who; z->cls = cl[sim_choose(9)]; z->lb = sim_choose(2) ? -1 : sim_double(-3, 2); z->ub = z->lb + (sim_choose(2) ? 2 : sim_double(0.5, 3)); z->w = sim_double(0.2, 1.5); z->sc = sim_double(0.3, 2);
    int large = sim_flip(1, 20); z->kmax = large ? 12 : 5; if (large) sim_probe("uni.large");
    for (int q = 0; q < 2; q++) { z->ng[q] = large ? sim_range(9, UN) : sim_range(2, 8); gen_nodes(z->ng[q], z->lb, z->ub, z->grid[q]); }
    if (sim_flip(1, 4) && z->ng[0] > 2) {   /* two grids whose nodes lie close to each other */
        double gap = z->ub - z->lb; z->ng[1] = z->ng[0]; for (size_t i = 0; i + 1 < z->ng[0]; i++) if (z->grid[0][i + 1] - z->grid[0][i] < gap) gap = z->grid[0][i + 1] - z->grid[0][i];
        for (size_t i = 0; i < z->ng[0]; i++) z->grid[1][i] = z->grid[0][i] + (i == 0 || i + 1 == z->ng[0] || sim_choose(3) == 0 ? 0 : gap * (sim_choose(2) ? 0.4 : -0.4) * pow(10, -sim_double(0, 6)));
        sim_probe("uni.close_grids");
    }
    for (size_t k = 0; k < UK; k++) z->x[k] = k == 0 ? z->lb : k == 1 ? z->ub : k == 2 ? z->grid[0][sim_choose(z->ng[0])] : sim_double(z->lb, z->ub); z->ops = sim_range(2, 12);
}
void scn_uni(int inc)
{
    struct udur *D = sim_state(sizeof *D); sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark(); size_t nt = inc == 0 && sim_flip(1, 3) ? 2 : 1; struct us *s[2]; void *a[2]; sim_task_fn fn[2] = { session, session };
    for (size_t i = 0; i < nt; i++) { a[i] = s[i] = xcalloc(1, sizeof **s); if (inc && D->live) { *s[i] = D->z; s[i]->who = "A"; } else start(s[i], i ? "B" : "A"); for (int q = 0; q < 2; q++) { s[i]->gp[q] = xmalloc(UN * 8); memcpy(s[i]->gp[q], s[i]->grid[q], UN * 8); } }
    if (inc && D->live) { for (size_t q = 0; q < UP; q++) { s[0]->g[q] = NULL; unsigned char *e = deserialize_generic_function(D->b[q], &s[0]->g[q]); size_t n; SIM_CHECK(e == D->b[q] + D->len[q], "uni-restart", "function %zu: %zd of %zu bytes read", q, e - D->b[q], D->len[q]); unsigned char *b = bytes(s[0]->g[q], &n); SIM_CHECK(n == D->len[q] && !memcmp(b, D->b[q], n), "uni-restart", "function %zu is not what was stored", q); xfree(b); sane(s[0], s[0]->g[q], "restart"); } s[0]->ops = D->left; sim_probe("uni.restart"); }
    else for (size_t i = 0; i < nt; i++) for (size_t q = 0; q < UP; q++) { s[i]->g[q] = make(s[i]); sane(s[i], s[i]->g[q], "start"); }
    sim_nontrivial(); sim_log("%zu session(s), class %s", nt, gen_cls_name[s[0]->cls]);
    if (nt == 2) { sim_tasks_run(2, fn, a); sim_probe("uni.two_tasks"); }
    else for (size_t o = 0; o < s[0]->ops; o++) {
        ops(s[0]);
        if (inc < 2 && sim_flip(1, 25)) { int ok = 1; for (size_t q = 0; q < UP; q++) { size_t n; unsigned char *b = bytes(s[0]->g[q], &n); if (n > UB) ok = 0; else { memcpy(D->b[q], b, n); D->len[q] = n; } xfree(b); } if (ok) { D->live = 1; D->z = *s[0]; D->left = s[0]->ops - o; sim_fault(F_CRASH); sim_log("crash"); sim_crash(); } }
    }
    for (size_t i = 0; i < nt; i++) for (size_t q = 0; q < UP; q++) { sane(s[i], s[i]->g[q], "end"); generic_function_free(s[i]->g[q]); }
    char rep[400]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "uni-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep); sim_sample("%zu session(s), class %s, %zu operations", nt, gen_cls_name[s[0]->cls], s[0]->ops); for (size_t i = 0; i < nt; i++) { xfree(s[i]->gp[0]); xfree(s[i]->gp[1]); xfree(s[i]); }
}
