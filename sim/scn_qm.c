/* Arrays of one-dimensional functions as continuous matrices (C23): products, stackings and factorisations
   judged by the values of every entry and by the inner products of the class. */
#include "gen.h"
#include "quasimatrix.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#define QP 5               /* arrays in a pool */
#define QN 24              /* nodes */
#define QX 36              /* points at which arrays are compared */
#define QM 160             /* entries of the largest matrix handled */
#define QB 48000           /* bytes of one serialised array */
typedef struct Qmarray Q; typedef struct GenericFunction GF; typedef struct Quasimatrix V;
struct qs { size_t mx; int cls; double lb, ub; size_t ng, nx; double grid[QN], x[QX]; double *gp; void *ap; struct OneApproxOpts *ao; Q *q[QP]; size_t ops; const char *who; };
struct qdur { size_t mx; int live; int cls; double lb, ub; size_t ng; double grid[QN]; size_t len[QP]; unsigned char b[QP][QB]; size_t left; };

static uint64_t qhash(const Q *a) { size_t n; qmarray_serialize(NULL, a, &n); unsigned char *b = xcalloc(1, n + 1); unsigned char *e = qmarray_serialize(b, a, NULL); SIM_CHECK(e == b + n, "qm-bytes", "serialised %zd bytes, announced %zu", e - b, n); uint64_t h = 0xcbf29ce484222325ULL; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; } xfree(b); return h; }
static double fl(const GF *f) { return poly_floor(f); }
/* values of all entries at x and the error every one may carry */
static void at(const Q *a, double x, double *m, double *t) { for (size_t i = 0; i < a->nrows * a->ncols; i++) { double s; m[i] = uni_own(a->funcs[i], x, &s, NULL, NULL, NULL); t[i] = 1e-11 * s + fl(a->funcs[i]); } }
static void mm(size_t n, size_t k, size_t m, const double *a, const double *ta, int tra, const double *b, const double *tb, int trb, double *c, double *t)
{
    for (size_t j = 0; j < m; j++) for (size_t i = 0; i < n; i++) { double s = 0, e = 0; for (size_t q = 0; q < k; q++) { size_t p = tra ? q + i * k : i + q * n, r = trb ? j + q * m : q + j * k; s += a[p] * b[r]; e += (fabs(a[p]) + ta[p]) * tb[r] + fabs(b[r]) * ta[p] + 1e-11 * fabs(a[p] * b[r]); } c[i + j * n] = s; t[i + j * n] = e; }
}
static void wellformed(const Q *c, size_t n, size_t m, const char *w) { SIM_CHECK(c && c->nrows == n && c->ncols == m && qmarray_get_nrows(c) == n && qmarray_get_ncols(c) == m, "qm-shape", "%s: %zu x %zu instead of %zu x %zu", w, c ? c->nrows : 0, c ? c->ncols : 0, n, m); for (size_t i = 0; i < n * m; i++) SIM_CHECK(c->funcs[i] && c->funcs[i]->f, "qm-shape", "%s: entry %zu missing", w, i); }
static void same(const Q *c, double x, const double *e, const double *t, double slack, const char *w) { for (size_t i = 0; i < c->nrows * c->ncols; i++) { double s, v = uni_own(c->funcs[i], x, &s, NULL, NULL, NULL); SIM_CHECK(fabs(v - e[i]) <= t[i] + 1e-11 * s + fl(c->funcs[i]) + slack + 1e-300, "qm-value", "%s: entry (%zu,%zu) is %.17g at %.17g instead of %.17g", w, i % c->nrows, i / c->nrows, v, x, e[i]); } }
static size_t points(const struct qs *z, int prod, double *x) { size_t n = 0; if (z->cls != G_LEG) for (size_t i = 0; i < z->ng; i++) x[n++] = z->grid[i]; if (!(prod && z->cls == G_LIN) && z->cls != G_CONST) for (size_t i = 0; i < 6; i++) x[n++] = z->x[i]; return n; }
static void note(struct qs *z, const char *w, const Q *c) { sim_log("%s %s %zux%zu %016llx", z->who, w, c->nrows, c->ncols, (unsigned long long)qhash(c)); }
static GF *entry(struct qs *z)
{
    if (z->cls == G_LEG) return gen_func(G_LEG, z->lb, z->ub, 1);
    double y[QN]; int zero = sim_flip(1, 12); for (size_t i = 0; i < z->ng; i++) y[i] = zero ? 0 : gen_coeff(); GF *g = generic_function_alloc(1, z->cls == G_LIN ? LINELM : CONSTELM); g->fargs = NULL; g->f = z->cls == G_LIN ? (void *)lin_elem_exp_init(z->ng, z->grid, y) : (void *)const_elem_exp_init(z->ng, z->grid, y); return g;
}
static Q *fresh(struct qs *z, size_t n, size_t m) { Q *a = qmarray_alloc(n, m); for (size_t i = 0; i < n * m; i++) a->funcs[i] = entry(z); return a; }
static int big(const struct qs *z, const Q *a) { if (a->nrows > 9 || a->ncols > 9 || a->nrows * a->ncols > z->mx * z->mx) return 1; for (size_t i = 0; i < a->nrows * a->ncols; i++) { const GF *f = a->funcs[i]; double s; if (f->fc == POLYNOMIAL && ((struct OrthPolyExpansion *)f->f)->num_poly > 8) return 1; for (int k = 0; k < 3; k++) { uni_own(f, generic_function_get_lb(f) + 0.37 * k * (generic_function_get_ub(f) - generic_function_get_lb(f)), &s, NULL, NULL, NULL); if (s > 1e4) return 1; } } return 0; }
static void keep(struct qs *z, Q *a) { if (big(z, a)) { qmarray_free(a); return; } size_t i = sim_choose(QP); qmarray_free(z->q[i]); z->q[i] = a; }
static double cc(void) { return sim_flip(1, 6) ? 0.0 : sim_flip(1, 5) ? 1.0 : sim_double(-2, 2); }
static void mat(size_t n, double *r, double *t) { for (size_t i = 0; i < n; i++) { r[i] = cc(); t[i] = 0; } }
static double ip(const GF *f, const GF *g, double *t) { double a, b, c, v = uni_quad(f, g, &a); uni_quad(f, f, &b); uni_quad(g, g, &c); *t = 1e-9 * a + 1e-10 * sqrt(b * c) + 1e-12; return v; }
static int prodok(const struct qs *z, const Q *a) { if (z->cls != G_LEG) return 1; for (size_t i = 0; i < a->nrows * a->ncols; i++) { double s; if (uni_quad(a->funcs[i], a->funcs[i], &s) < 1e-8) return 0; } return 1; }
/* an array of the pool, or a new one, with n rows and/or m columns (0: any) */
static Q *pick(struct qs *z, size_t n, size_t m, int *own) { size_t s = sim_choose(QP); for (size_t k = 0; k < QP; k++) { Q *a = z->q[(s + k) % QP]; if ((!n || a->nrows == n) && (!m || a->ncols == m)) { *own = 0; return a; } } *own = 1; return fresh(z, n ? n : sim_range(1, z->mx), m ? m : sim_range(1, z->mx)); }
#define DROP(a, own) do { if (own) qmarray_free(a); } while (0)
static double slackp(const struct qs *z) { return z->cls == G_LEG ? 1e-9 : 1e-13; }

static void products(struct qs *z)
{
    int v = (int)sim_choose(4), oa, ob; Q *a = pick(z, 0, 0, &oa), *b = pick(z, v == 0 ? a->ncols : v == 1 ? a->nrows : 0, v == 2 ? a->ncols : v == 3 ? a->nrows : 0, &ob); static const char *nm[] = { "A B", "A'B", "A B'", "A'B'" };
    int ta = v == 1 || v == 3, tb = v >= 2; size_t n = ta ? a->ncols : a->nrows, k = ta ? a->nrows : a->ncols, m = tb ? b->nrows : b->ncols; double M[2][QM], T[2][QM], E[QM], ET[QM], x[QX];
    if (prodok(z, a) && prodok(z, b)) {
        Q *c = v == 0 ? qmaqma(a, b) : v == 1 ? qmatqma(a, b) : v == 2 ? qmaqmat(a, b) : qmatqmat(a, b); wellformed(c, n, m, nm[v]);
        for (size_t p = 0, np = points(z, 1, x); p < np; p++) { at(a, x[p], M[0], T[0]); at(b, x[p], M[1], T[1]); mm(n, k, m, M[0], T[0], ta, M[1], T[1], tb, E, ET); if (z->cls == G_LEG) for (size_t i = 0; i < n * m; i++) { ET[i] *= 10; for (size_t q = 0; q < k; q++) ET[i] += 1e-10; } same(c, x[p], E, ET, slackp(z), nm[v]); }
        note(z, nm[v], c); keep(z, c); sim_probe("qm.product");
    }
    DROP(a, oa); DROP(b, ob);
}
static void integrals(struct qs *z)
{
    int v = (int)sim_choose(4), oa, ob; Q *a = pick(z, 0, 0, &oa), *b = pick(z, v == 0 ? a->ncols : v == 1 ? a->nrows : 0, v == 2 ? a->ncols : v == 3 ? a->nrows : 0, &ob); static const char *nm[] = { "int A B", "int A'B", "int A B'", "int A'B'" };
    int ta = v == 1 || v == 3, tb = v >= 2; size_t n = ta ? a->ncols : a->nrows, k = ta ? a->nrows : a->ncols, m = tb ? b->nrows : b->ncols; double *c = v == 0 ? qmaqma_integrate(a, b) : v == 1 ? qmatqma_integrate(a, b) : v == 2 ? qmaqmat_integrate(a, b) : qmatqmat_integrate(a, b);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) { double e = 0, tol = 0, t; for (size_t q = 0; q < k; q++) { e += ip(a->funcs[ta ? q + i * a->nrows : i + q * a->nrows], b->funcs[tb ? j + q * b->nrows : q + j * b->nrows], &t); tol += t; } double g = c[v == 3 ? i * m + j : i + j * n]; SIM_CHECK(fabs(g - e) <= tol, "qm-integral", "%s: entry (%zu,%zu) is %.17g instead of %.17g", nm[v], i, j, g, e); }
    free(c); c = qmarray_integrate(a); for (size_t i = 0; i < a->nrows * a->ncols; i++) { double s, e = uni_quad(a->funcs[i], NULL, &s); SIM_CHECK(fabs(c[i] - e) <= 1e-10 * s + 1e-12, "qm-integral", "integral of entry %zu is %.17g instead of %.17g", i, c[i], e); } free(c);
    c = qmarray_kron_integrate(a, b); for (size_t i = 0; i < a->nrows; i++) for (size_t j = 0; j < a->ncols; j++) for (size_t p = 0; p < b->nrows; p++) for (size_t q = 0; q < b->ncols; q++) { double t, e = ip(a->funcs[i + j * a->nrows], b->funcs[p + q * b->nrows], &t), g = c[i * b->nrows + p + (j * b->ncols + q) * a->nrows * b->nrows]; SIM_CHECK(fabs(g - e) <= t, "qm-integral", "integral of the Kronecker product: %.17g instead of %.17g", g, e); } free(c);
    double nn = 0, nt = 0, t; for (size_t i = 0; i < a->nrows * a->ncols; i++) { nn += ip(a->funcs[i], a->funcs[i], &t); nt += t; } double g = qmarray_norm2(a); SIM_CHECK(fabs(g * g - nn) <= nt, "qm-integral", "squared norm %.17g instead of %.17g", g * g, nn);
    DROP(b, ob); b = pick(z, a->nrows, a->ncols, &ob); nn = nt = 0; for (size_t i = 0; i < a->nrows * a->ncols; i++) { double t1, t2, t3; nn += ip(a->funcs[i], a->funcs[i], &t1) + ip(b->funcs[i], b->funcs[i], &t2) - 2 * ip(a->funcs[i], b->funcs[i], &t3); nt += t1 + t2 + 2 * t3; } g = qmarray_norm2diff(a, b); SIM_CHECK(fabs(g * g - nn) <= nt, "qm-integral", "squared distance %.17g instead of %.17g", g * g, nn);
    sim_probe("qm.integral"); sim_log("%s integrals %.17g", z->who, g); DROP(a, oa); DROP(b, ob);
}
static void matmult(struct qs *z)
{
    int v = (int)sim_choose(3), oa; Q *a = pick(z, 0, 0, &oa), *c; size_t r = sim_range(1, 4), k = v == 0 ? a->ncols : a->nrows; double R[QM], RT[QM], M[QM], T[QM], E[QM], ET[QM], x[QX]; mat(r * k, R, RT); c = v == 0 ? qmam(a, R, r) : v == 1 ? qmatm(a, R, r) : mqma(R, a, r); size_t n = v == 0 ? a->nrows : v == 1 ? a->ncols : r, m = v == 2 ? a->ncols : r; static const char *nm[] = { "A R", "A'R", "R A" }; wellformed(c, n, m, nm[v]);
    for (size_t p = 0, np = points(z, 0, x); p < np; p++) { at(a, x[p], M, T); if (v == 2) mm(r, k, m, R, RT, 0, M, T, 0, E, ET); else mm(n, k, r, M, T, v == 1, R, RT, 0, E, ET); same(c, x[p], E, ET, 0, nm[v]); }
    note(z, nm[v], c); keep(z, c); DROP(a, oa); sim_probe("qm.matrix");
}
static void kronval(const double *a, const double *ta, size_t an, size_t am, const double *b, const double *tb, size_t bn, size_t bm, double *c, double *t) { for (size_t i = 0; i < an; i++) for (size_t j = 0; j < am; j++) for (size_t p = 0; p < bn; p++) for (size_t q = 0; q < bm; q++) { size_t o = i * bn + p + (j * bm + q) * an * bn; double u = a[i + j * an], w = b[p + q * bn]; c[o] = u * w; t[o] = fabs(u) * tb[p + q * bn] + (fabs(w) + tb[p + q * bn]) * ta[i + j * an]; } }
static void krons(struct qs *z)
{
    int v = (int)sim_choose(5), oa = 1, ob = 1; size_t n1 = sim_range(1, 3), m1 = sim_range(1, 3), n2 = sim_range(1, 2), m2 = sim_range(1, 2), r = sim_range(1, 2); Q *a = fresh(z, n1, m1), *b = fresh(z, n2, m2), *c = NULL; double R[QM], RT[QM], A[QM], AT[QM], B[QM], BT[QM], K[QM], KT[QM], E[QM], ET[QM], x[QX]; uint64_t h1 = qhash(a), h2 = qhash(b);
    if (prodok(z, a) && prodok(z, b)) {
        mat(r * n1 * n2 * m1 * m2, R, RT); if (v < 3) r = 1; static const char *nm[] = { "A kron B", "a'kron", "int a'kron", "R kron", "kron R" };
        if (v == 0) c = qmarray_kron(a, b); else if (v == 1) c = qmarray_vec_kron(R, a, b); else if (v == 3) c = qmarray_mat_kron(r, R, a, b); else if (v == 4) c = qmarray_kron_mat(r, R, a, b);
        if (v == 2) { double *d = qmarray_vec_kron_integrate(R, a, b); for (size_t i = 0; i < m1; i++) for (size_t j = 0; j < m2; j++) { double e = 0, t, tol = 1e-12; for (size_t p = 0; p < n1; p++) for (size_t q = 0; q < n2; q++) { e += R[p + q * n1] * ip(a->funcs[p + i * n1], b->funcs[q + j * n2], &t); tol += fabs(R[p + q * n1]) * t * 4; } SIM_CHECK(fabs(d[i + j * m1] - e) <= tol, "qm-integral", "integral of a'kron: entry (%zu,%zu) is %.17g instead of %.17g", i, j, d[i + j * m1], e); } free(d); }
        else {
            size_t rn = v == 0 ? n1 * n2 : v == 1 ? m1 : v == 3 ? r : n1 * n2, rm = v == 0 ? m1 * m2 : v == 1 ? m2 : v == 3 ? m1 * m2 : r; wellformed(c, rn, rm, nm[v]);
            for (size_t p = 0, np = points(z, 1, x); p < np; p++) {
                at(a, x[p], A, AT); at(b, x[p], B, BT); kronval(A, AT, n1, m1, B, BT, n2, m2, K, KT);
                if (v == 0) { memcpy(E, K, sizeof E); memcpy(ET, KT, sizeof ET); }
                else if (v == 1) { double P[QM], PT[QM]; mm(m1, n1, n2, A, AT, 1, R, RT, 0, P, PT); mm(m1, n2, m2, P, PT, 0, B, BT, 0, E, ET); }
                else if (v == 3) mm(r, n1 * n2, m1 * m2, R, RT, 0, K, KT, 0, E, ET); else mm(n1 * n2, m1 * m2, r, K, KT, 0, R, RT, 0, E, ET);
                same(c, x[p], E, ET, slackp(z) * 4, nm[v]);
            }
            note(z, nm[v], c); qmarray_free(c);
        }
        SIM_CHECK(qhash(a) == h1 && qhash(b) == h2, "qm-changes", "%s changed an operand", nm[v]); sim_probe("qm.kron");
    }
    DROP(a, oa); DROP(b, ob);
}
static void blocks(struct qs *z)
{
    static const char ty[] = "DRC"; char type = ty[sim_choose(3)]; int left = (int)sim_choose(2); size_t nb = sim_range(1, 3), r = sim_range(1, 2), n = 0, m = 0, rn[3], rm[3], cn = sim_range(1, 2), cm = sim_range(1, 2); Q *l[3], *w = fresh(z, sim_range(1, 2), sim_range(1, 2)); int ok = prodok(z, w);
    for (size_t i = 0; i < nb; i++) { rn[i] = type == 'R' ? cn : sim_range(1, 2); rm[i] = type == 'C' ? cm : sim_range(1, 2); l[i] = fresh(z, rn[i], rm[i]); ok &= prodok(z, l[i]); if (type == 'R') { n = cn; m += rm[i]; } else if (type == 'C') { m = cm; n += rn[i]; } else { n += rn[i]; m += rm[i]; } }
    if (ok) {
        double R[QM], RT[QM], W[QM], WT[QM], L[QM], LT[QM], K[QM * 2], KT[QM * 2], E[QM], ET[QM], x[QX]; size_t kn = n * w->nrows, km = m * w->ncols; mat(left ? r * kn : km * r, R, RT); Q *out = left ? qmarray_alloc(r, km) : qmarray_alloc(kn, r); qmarray_block_kron_mat(type, left, nb, l, w, r, R, out); char nm[40]; sprintf(nm, "block %c left %d", type, left); wellformed(out, left ? r : kn, left ? km : r, nm);
        for (size_t p = 0, np = points(z, 1, x); p < np; p++) {
            memset(L, 0, sizeof L); memset(LT, 0, sizeof LT); size_t or = 0, oc = 0; at(w, x[p], W, WT);
            for (size_t i = 0; i < nb; i++) { double X[16], XT[16]; at(l[i], x[p], X, XT); for (size_t a = 0; a < rn[i]; a++) for (size_t b = 0; b < rm[i]; b++) { L[or + a + (oc + b) * n] = X[a + b * rn[i]]; LT[or + a + (oc + b) * n] = XT[a + b * rn[i]]; } if (type != 'R') or += rn[i]; if (type != 'C') oc += rm[i]; }
            kronval(L, LT, n, m, W, WT, w->nrows, w->ncols, K, KT); if (left) mm(r, kn, km, R, RT, 0, K, KT, 0, E, ET); else mm(kn, km, r, K, KT, 0, R, RT, 0, E, ET); same(out, x[p], E, ET, slackp(z) * 8, nm);
        }
        note(z, nm, out); qmarray_free(out); sim_probe("qm.blocks");
    }
    for (size_t i = 0; i < nb; i++) qmarray_free(l[i]); qmarray_free(w);
}
static void *opcopy(struct GenericFunction *f, void *arg) { double *s = arg; GF *g = generic_function_copy(f); generic_function_scale(*s, g); return g; }
static void shapes(struct qs *z)
{
    int v = (int)sim_choose(8), oa, ob = 0; Q *a = pick(z, 0, 0, &oa), *b = NULL, *c = NULL; double A[QM], AT[QM], B[QM], BT[QM], E[QM], ET[QM], x[QX]; static const char *nm[] = { "transpose", "[A B]", "[A;B]", "diag(A,B)", "first columns", "copy", "operate", "row and column" }; size_t n = a->nrows, m = a->ncols; double s = sim_double(-2, 2); memset(E, 0, sizeof E); memset(ET, 0, sizeof ET); memset(B, 0, sizeof B);
    if (v == 1) b = pick(z, n, 0, &ob); else if (v == 2) b = pick(z, 0, m, &ob); else if (v == 3) b = pick(z, 0, 0, &ob); size_t bn = b ? b->nrows : 0, bm = b ? b->ncols : 0, fc = sim_range(1, m), row = sim_choose(n), col = sim_choose(m), row2 = sim_choose(n), col2 = sim_choose(m);
    struct Operator op = { .f = (struct GenericFunction * (*)(const struct GenericFunction *, void *))opcopy, .opts = &s };
    switch (v) {
    case 0: c = qmarray_transpose(a); wellformed(c, m, n, nm[v]); break;
    case 1: c = qmarray_stackh(a, b); wellformed(c, n, m + bm, nm[v]); break;
    case 2: c = qmarray_stackv(a, b); wellformed(c, n + bn, m, nm[v]); break;
    case 3: c = qmarray_blockdiag(a, b); wellformed(c, n + bn, m + bm, nm[v]); break;
    case 4: c = qmarray_first_cols(a, fc); wellformed(c, n, fc, nm[v]); break;
    case 5: c = qmarray_copy(a); wellformed(c, n, m, nm[v]); SIM_CHECK(qhash(c) == qhash(a), "qm-value", "the copy differs"); break;
    case 6: { int nul = (int)sim_choose(2); if (nul) s = 1; c = qmarray_operate_elements(a, nul ? NULL : &op); wellformed(c, n, m, nm[v]); break; }
    default: { c = qmarray_copy(a); V *r = qmarray_extract_row(a, row), *k = qmarray_extract_column(a, col); SIM_CHECK(quasimatrix_get_size(r) == m && quasimatrix_get_size(k) == n, "qm-shape", "row of %zu, column of %zu entries", quasimatrix_get_size(r), quasimatrix_get_size(k)); qmarray_set_row(c, row2, r); if (sim_choose(2)) qmarray_set_column(c, col2, k); else qmarray_set_column_gf(c, col2, quasimatrix_get_funcs(k)); quasimatrix_free(r); quasimatrix_free(k); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) SIM_CHECK(qmarray_get_func(c, i, j) == c->funcs[i + j * n] && qmarray_get_func_base(c, i, j) == c->funcs[i + j * n]->f, "qm-value", "entry access"); }
    }
    for (size_t p = 0, np = points(z, 0, x); p < np; p++) {
        at(a, x[p], A, AT); if (b) at(b, x[p], B, BT);
        for (size_t i = 0; i < c->nrows; i++) for (size_t j = 0; j < c->ncols; j++) { double e = 0; switch (v) { case 0: e = A[j + i * n]; break; case 1: e = j < m ? A[i + j * n] : B[i + (j - m) * bn]; break; case 2: e = i < n ? A[i + j * n] : B[i - n + j * bn]; break; case 3: e = i < n ? (j < m ? A[i + j * n] : 0) : (j < m ? 0 : B[i - n + (j - m) * bn]); break; case 6: e = s * A[i + j * n]; break; case 7: e = j == col2 ? A[i + col * n] : i == row2 ? A[row + j * n] : A[i + j * n]; break; default: e = A[i + j * n]; } E[i + j * c->nrows] = e; ET[i + j * c->nrows] = 1e-12 * fabs(e); }
        same(c, x[p], E, ET, 0, nm[v]);
    }
    note(z, nm[v], c); keep(z, c); DROP(a, oa); if (b) DROP(b, ob); sim_probe("qm.shape");
}
static void elementwise(struct qs *z, size_t *changed)
{
    int v = (int)sim_choose(4); size_t i = sim_choose(QP), np; Q *a = z->q[i]; double A[QM], AT[QM], B[QM], BT[QM], E[QM], ET[QM], x[QX]; size_t n = a->nrows * a->ncols; int ob;
    if (v == 0) {
        double s = cc(); Q *b = pick(z, a->nrows, a->ncols, &ob), *c = qmarray_copy(a); if (b == a) { DROP(b, ob); qmarray_free(c); return; } qmarray_axpy(s, b, a); *changed = i; wellformed(a, c->nrows, c->ncols, "axpy");
        np = points(z, 0, x); for (size_t p = 0; p < np; p++) { at(c, x[p], A, AT); at(b, x[p], B, BT); for (size_t q = 0; q < n; q++) { E[q] = A[q] + s * B[q]; ET[q] = AT[q] + fabs(s) * BT[q]; } same(a, x[p], E, ET, 0, "axpy"); } DROP(b, ob); qmarray_free(c); if (big(z, a)) { qmarray_free(a); z->q[i] = fresh(z, 2, 2); } sim_probe("qm.axpy");
    } else if (v == 1) {
        double o[QM]; for (size_t k = 0; k < 6; k++) { for (size_t q = 0; q <= n; q++) o[q] = 9.5; qmarray_eval(a, z->x[k], o); SIM_CHECK(o[n] == 9.5, "qm-overrun", "evaluation wrote behind its result"); for (size_t q = 0; q < n; q++) { double s; int nr; double e = uni_own(a->funcs[q], z->x[k], &s, NULL, NULL, &nr); if (!(z->cls == G_CONST && nr)) SIM_CHECK(fabs(o[q] - e) <= 1e-12 * s, "qm-value", "entry %zu evaluates to %.17g instead of %.17g", q, o[q], e); }
            qmarray_deriv_eval(a, z->x[k], o); SIM_CHECK(o[n] == 9.5, "qm-overrun", "derivatives written behind the result"); if (z->cls != G_CONST) for (size_t q = 0; q < n; q++) { double d, da; int nr; uni_own(a->funcs[q], z->x[k], NULL, &d, &da, &nr); if (!nr) SIM_CHECK(fabs(o[q] - d) <= 1e-10 * da, "qm-value", "derivative of entry %zu is %.17g instead of %.17g", q, o[q], d); } } sim_probe("qm.eval");
    } else if (v == 2 && z->cls == G_LEG) {
        Q *d = qmarray_deriv(a), *dd = qmarray_dderiv(a); wellformed(d, a->nrows, a->ncols, "derivative"); wellformed(dd, a->nrows, a->ncols, "second derivative");
        for (size_t k = 0; k < 6; k++) for (size_t q = 0; q < n; q++) { double e, da, e2, da2, s; uni_own(a->funcs[q], z->x[k], NULL, &e, &da, NULL); double g = uni_own(d->funcs[q], z->x[k], &s, &e2, &da2, NULL); SIM_CHECK(fabs(g - e) <= 1e-10 * (da + s) + 1e-12, "qm-value", "derivative function of entry %zu is %.17g instead of %.17g", q, g, e); g = uni_own(dd->funcs[q], z->x[k], &s, NULL, NULL, NULL); SIM_CHECK(fabs(g - e2) <= 1e-9 * (da2 + s) + 1e-11, "qm-value", "second derivative of entry %zu is %.17g instead of %.17g", q, g, e2); }
        qmarray_free(d); qmarray_free(dd); sim_probe("qm.derivative");
    } else if (z->cls != G_LEG) {
        double y[QN]; size_t m = sim_range(2, QN); gen_nodes(m, z->lb, z->ub, y); Q *c = qmarray_create_nodal(a, m, y); wellformed(c, a->nrows, a->ncols, "create_nodal");
        for (size_t q = 0; q < n; q++) for (size_t k = 0; k < m; k++) { int nr; double s, e = uni_own(a->funcs[q], y[k], &s, NULL, NULL, &nr); if (z->cls == G_CONST && nr) continue; double g = uni_own(c->funcs[q], y[k], NULL, NULL, NULL, NULL); SIM_CHECK(fabs(g - e) <= 1e-12 * s, "qm-value", "nodal copy of entry %zu is %.17g at %.17g instead of %.17g", q, g, y[k], e); } qmarray_free(c); sim_probe("qm.nodal");
    }
}
static void parameters(struct qs *z, size_t *changed)
{
    size_t i = sim_choose(QP); Q *a = z->q[i]; size_t n = a->nrows * a->ncols, mx = 0, tot = qmarray_get_nparams(a, &mx), chk = 0, m2 = 0; for (size_t q = 0; q < n; q++) { size_t k = qmarray_func_get_nparams(a, q % a->nrows, q / a->nrows); chk += k; if (k > m2) m2 = k; } SIM_CHECK(chk == tot && m2 == mx && qmarray_get_params(a, NULL) == tot, "qm-params", "%zu parameters, largest %zu; one by one %zu and %zu", tot, mx, chk, m2); if (tot > 400) return;
    double *p = xcalloc(tot + 1, 8), *g, *sg, *mo, *o, *ws, x[6], left[128]; p[tot] = 7.25; SIM_CHECK(qmarray_get_params(a, p) == tot && p[tot] == 7.25, "qm-params", "parameters read"); size_t N = sim_range(1, 3), ix = sim_range(1, 2), io = n + sim_choose(2), gs = tot * n + sim_choose(3), ss = tot + sim_choose(3); for (size_t k = 0; k < 6; k++) x[k] = z->x[k]; for (size_t k = 0; k < 128; k++) left[k] = cc();
    g = xcalloc(gs * N + 1, 8); sg = xcalloc(ss * N + 1, 8); mo = xcalloc(tot * a->ncols * N + 1, 8); o = xcalloc(io * N + 1, 8); ws = xcalloc(mx + 1, 8); g[gs * N] = sg[ss * N] = mo[tot * a->ncols * N] = o[io * N] = ws[mx] = 4.5; for (size_t k = 0; k < io * N; k++) o[k] = 4.5;
    qmarray_param_grad_eval(a, N, x, ix, o, io, g, gs, ws); SIM_CHECK(g[gs * N] == 4.5 && o[io * N] == 4.5 && ws[mx] == 4.5, "qm-overrun", "parameter gradient wrote behind its result");
    for (size_t k = 0; k < N; k++) for (size_t q = 0; q < n; q++) { int nr; double s, e = uni_own(a->funcs[q], x[k * ix], &s, NULL, NULL, &nr), d = 0, da = 0; if (z->cls == G_CONST && nr) continue; SIM_CHECK(fabs(o[k * io + q] - e) <= 1e-12 * s, "qm-params", "value of entry %zu is %.17g instead of %.17g", q, o[k * io + q], e); size_t on = 0; for (size_t f = 0; f < n; f++) { size_t c = qmarray_func_get_nparams(a, f % a->nrows, f / a->nrows); for (size_t l = 0; l < c; l++, on++) { double u = g[on * n + q + k * gs]; if (f != q) SIM_CHECK(u == 0, "qm-params", "entry %zu depends on a parameter of entry %zu", q, f); else { d += u * p[on]; da += fabs(u * p[on]); } } } SIM_CHECK(fabs(d - e) <= 1e-11 * (da + s), "qm-params", "gradient times parameters is %.17g, the entry %.17g", d, e); }
    int wl = (int)sim_choose(2); for (size_t k = 0; k < io * N; k++) o[k] = 4.5; qmarray_param_grad_eval_sparse_mult(a, N, x, ix, sim_choose(2) ? o : NULL, io, sg, ss, wl ? left : NULL, wl ? mo : NULL, tot); SIM_CHECK(sg[ss * N] == 4.5 && o[io * N] == 4.5 && mo[tot * a->ncols * N] == 4.5, "qm-overrun", "sparse gradient wrote behind its result");
    for (size_t k = 0; k < N; k++) { size_t on = 0; for (size_t f = 0; f < n; f++) { size_t c = qmarray_func_get_nparams(a, f % a->nrows, f / a->nrows); for (size_t l = 0; l < c; l++, on++) { double u = sg[on + k * ss]; SIM_CHECK(u == g[on * n + f + k * gs] || fabs(u - g[on * n + f + k * gs]) < 1e-12 * fabs(u), "qm-params", "sparse gradient %.17g, full gradient %.17g", u, g[on * n + f + k * gs]); if (wl) for (size_t cl = 0; cl < a->ncols; cl++) { double e = cl == f / a->nrows ? u * left[f % a->nrows + k * a->nrows] : 0, w = mo[on * a->ncols + cl + k * tot * a->ncols]; SIM_CHECK(fabs(w - e) <= 1e-13 * fabs(e), "qm-params", "left vector times gradient is %.17g instead of %.17g", w, e); } } } }
    for (size_t k = 0; k < io * N; k++) o[k] = 4.5; qmarray_linparam_eval(a, N, o, io, sg, ss); for (size_t k = 0; k < N; k++) for (size_t q = 0; q < n; q++) { int nr; double s, e = uni_own(a->funcs[q], x[k * ix], &s, NULL, NULL, &nr); if (!(z->cls == G_CONST && nr)) SIM_CHECK(fabs(o[k * io + q] - e) <= 1e-11 * s, "qm-params", "linear evaluation gives %.17g instead of %.17g", o[k * io + q], e); }
    /* squared norm and its gradient: a quadratic form of the parameters */
    double sc = sim_double(0.2, 2), *gr = xcalloc(tot + 1, 8), v0, b0 = sim_double(-1, 1); for (size_t k = 0; k < tot; k++) gr[k] = b0; gr[tot] = 4.5; if (z->cls != G_CONST) { v0 = qmarray_param_grad_sqnorm(a, sc, gr); double nn = 0, nt = 0, t; for (size_t q = 0; q < n; q++) { nn += sc * ip(a->funcs[q], a->funcs[q], &t); nt += sc * t; } SIM_CHECK(fabs(v0 - nn) <= nt && gr[tot] == 4.5, "qm-params", "squared norm %.17g instead of %.17g", v0, nn); double w = 0, wa = 0; for (size_t k = 0; k < tot; k++) { w += (gr[k] - b0) * p[k]; wa += fabs((gr[k] - b0) * p[k]) + 1e-15 * fabs(b0 * p[k]); } SIM_CHECK(fabs(w - 2 * nn) <= 1e-8 * wa + 2 * nt + 1e-12, "qm-params", "gradient of the squared norm times parameters is %.17g instead of %.17g", w, 2 * nn); }
    if (sim_choose(2)) { for (size_t k = 0; k < tot; k++) p[k] = gen_coeff(); if (sim_choose(2)) qmarray_update_params(a, tot, p); else { size_t on = 0; for (size_t q = 0; q < n; q++) { size_t c = qmarray_func_get_nparams(a, q % a->nrows, q / a->nrows); qmarray_uni_update_params(a, q % a->nrows, q / a->nrows, c, p + on); on += c; } } *changed = i; for (size_t k = 0; k < tot; k++) gr[k] = 0; qmarray_get_params(a, gr); for (size_t k = 0; k < tot; k++) SIM_CHECK(gr[k] == p[k], "qm-params", "parameter %zu reads %.17g after it was set to %.17g", k, gr[k], p[k]);
        for (size_t k = 0; k < N; k++) { size_t on = 0; for (size_t f = 0; f < n; f++) { size_t c = qmarray_func_get_nparams(a, f % a->nrows, f / a->nrows); double e = 0, da = 0; for (size_t l = 0; l < c; l++, on++) { e += sg[on + k * ss] * p[on]; da += fabs(sg[on + k * ss] * p[on]); } int nr; double s, u = uni_own(a->funcs[f], x[k * ix], &s, NULL, NULL, &nr); if (!(z->cls == G_CONST && nr)) SIM_CHECK(fabs(u - e) <= 1e-11 * (da + s), "qm-params", "after an update entry %zu is %.17g instead of %.17g", f, u, e); } } if (big(z, a)) { qmarray_free(a); z->q[i] = fresh(z, 2, 2); } }
    xfree(gr); xfree(p); xfree(g); xfree(sg); xfree(mo); xfree(o); xfree(ws); sim_probe("qm.params"); sim_log("%s parameters %zu", z->who, tot);
}
static void ortho(const Q *q, int rows, double tol, const char *w) { size_t n = rows ? q->nrows : q->ncols, m = rows ? q->ncols : q->nrows; for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) { double g = 0, t; for (size_t k = 0; k < m; k++) g += ip(q->funcs[rows ? i + k * q->nrows : k + i * q->nrows], q->funcs[rows ? j + k * q->nrows : k + j * q->nrows], &t); SIM_CHECK(fabs(g - (i == j)) <= tol, "qm-orthonormal", "%s: inner product of %s %zu and %zu is %.17g", w, rows ? "rows" : "columns", i, j, g); } }
static double size(const struct qs *z, const Q *a) { double s = 0, t, n = 0; (void)z; for (size_t i = 0; i < a->nrows * a->ncols; i++) n += ip(a->funcs[i], a->funcs[i], &t); s = sqrt(fabs(n)); return s; }
static int space(const struct qs *z, size_t n) { return z->cls == G_LEG ? n <= 5 : n <= z->ng; }
static void factor(struct qs *z)
{
    int v = (int)sim_choose(7), oa; Q *a = pick(z, 0, 0, &oa), *c = qmarray_copy(a), *q = NULL; size_t n = a->nrows, m = a->ncols, k; int rows = v == 1 || v == 3 || v == 5; k = rows ? n : m; double x[QX], A[QM], AT[QM], B[QM], BT[QM], E[QM], ET[QM], *R, ZT[QM] = { 0 }; static const char *nm[] = { "QR", "LQ", "qr", "lq", "qr_gs", "lq_gs", "orth" };
    if (sim_flip(1, 4) && k > 1) { /* dependent columns or rows */ size_t p = sim_choose(k), r = (p + 1 + sim_choose(k - 1)) % k; double s = cc(); for (size_t o = 0; o < (rows ? m : n); o++) { size_t ip_ = rows ? p + o * n : o + p * n, ir = rows ? r + o * n : o + r * n; generic_function_free(c->funcs[ip_]); c->funcs[ip_] = generic_function_copy(c->funcs[ir]); generic_function_scale(s, c->funcs[ip_]); } sim_probe("qm.dependent"); }
    double sz = size(z, c); if (!space(z, k) || sz > 1e4) goto out;
    if (v == 6) { size_t p = sim_range(1, 3), r = sim_range(1, 3); if (!space(z, p) || !space(z, r)) goto out; q = qmarray_orth1d_rows(p, r, z->ao); wellformed(q, p, r, "orthonormal rows"); ortho(q, 1, 1e-10, "orthonormal rows"); qmarray_free(q); q = qmarray_orth1d_columns(p, r, z->ao); wellformed(q, p, r, "orthonormal columns"); ortho(q, 0, 1e-10, "orthonormal columns"); qmarray_free(q); q = qmarray_zeros(p, r, z->ao); wellformed(q, p, r, "zeros"); for (size_t i = 0; i < p * r; i++) { double s; SIM_CHECK(uni_quad(q->funcs[i], q->funcs[i], &s) == 0, "qm-value", "a zero function is not zero"); } qmarray_free(q); sim_probe("qm.orth"); goto out; }
    Q *w = qmarray_copy(c); R = calloc_double(k * k); double tol = 1e-9;
    if (v == 0) q = qmarray_householder_simple("QR", w, R, z->ao); else if (v == 1) q = qmarray_householder_simple("LQ", w, R, z->ao);
    else if (v == 2) { if (sim_choose(2)) { free(R); R = NULL; } SIM_CHECK(qmarray_qr(w, &q, &R, z->ao) == 0, "qm-factor", "qr reported failure"); } else if (v == 3) { if (sim_choose(2)) { free(R); R = NULL; } SIM_CHECK(qmarray_lq(w, &q, &R, z->ao) == 0, "qm-factor", "lq reported failure"); }
    else { /* Gram-Schmidt wants independent columns */
        double G[81], t; int ok = 1; for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) { G[i + j * k] = 0; for (size_t o = 0; o < (rows ? m : n); o++) G[i + j * k] += ip(c->funcs[rows ? i + o * n : o + i * n], c->funcs[rows ? j + o * n : o + j * n], &t); }
        double D[9]; for (size_t i = 0; i < k; i++) D[i] = G[i + i * k]; for (size_t i = 0; i < k && ok; i++) { if (G[i + i * k] < 1e-4 * D[i] || G[i + i * k] < 1e-6) ok = 0; else for (size_t p = i + 1; p < k; p++) for (size_t r = i + 1; r < k; r++) G[p + r * k] -= G[p + i * k] * G[i + r * k] / G[i + i * k]; }
        if (!ok) { free(R); qmarray_free(w); goto out; } SIM_CHECK((rows ? qmarray_lq_gs(w, &R) : qmarray_qr_gs(w, &R)) == 0, "qm-factor", "Gram-Schmidt reported failure"); q = w; w = NULL; tol = 1e-8;
    }
    wellformed(q, n, m, nm[v]); ortho(q, rows, tol, nm[v]);
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) { if (rows ? i < j : i > j) SIM_CHECK(R[i + j * k] == 0, "qm-factor", "%s: the triangular factor has %.17g at (%zu,%zu)", nm[v], R[i + j * k], i, j); if (i == j) SIM_CHECK(R[i + j * k] >= 0, "qm-factor", "%s: negative diagonal %.17g", nm[v], R[i + j * k]); }
    for (size_t p = 0, np = points(z, 0, x); p < np; p++) { at(q, x[p], B, BT); at(c, x[p], A, AT); if (rows) mm(n, n, m, R, ZT, 0, B, BT, 0, E, ET); else mm(n, m, m, B, BT, 0, R, ZT, 0, E, ET); for (size_t i = 0; i < n * m; i++) ET[i] += AT[i]; for (size_t i = 0; i < n * m; i++) SIM_CHECK(fabs(E[i] - A[i]) <= ET[i] + tol * (1 + sz), "qm-factor", "%s: the factors give %.17g for entry %zu at %.17g instead of %.17g", nm[v], E[i], i, x[p], A[i]); }
    note(z, nm[v], q); free(R); qmarray_free(w); keep(z, q); sim_probe("qm.factor");
out: qmarray_free(c); DROP(a, oa);
}
static void svds(struct qs *z)
{
    int oa, tr = (int)sim_choose(2); Q *a = pick(z, 0, 0, &oa), *w = qmarray_copy(a), *u = NULL; size_t n = a->nrows, m = a->ncols, r = m; double sz = size(z, a), *lam, *vt, x[QX], A[QM], AT[QM], B[QM], BT[QM], E[QM], ET[QM], D[QM], ZT[QM] = { 0 }, full[40] = { 0 }, del = 0, tail = 0;
    if (space(z, m) && sz < 1e4) {
        lam = calloc_double(m); vt = calloc_double(m * m); SIM_CHECK(qmarray_svd(w, &u, lam, vt, z->ao) == 0, "qm-factor", "svd reported failure"); memcpy(full, lam, m * 8);
        if (tr) { free(lam); free(vt); lam = vt = NULL; qmarray_free(w); w = qmarray_copy(a); double c[10]; c[0] = 0; for (size_t i = 0; i < m; i++) c[i + 1] = c[i] + full[m - 1 - i] * full[m - 1 - i]; size_t s = sim_choose(m + 1); del = s == m ? 2 * c[m] + 1e-3 : (c[s] + c[s + 1]) / 2; r = qmarray_truncated_svd(w, &u, &lam, &vt, del, z->ao); size_t e = m; for (size_t i = 0; i < m && e > 1; i++) { if (fabs(c[i + 1] - del) < 1e-9 * (1 + del)) e = 0; else if (c[i + 1] >= del) break; else e--; } if (e) SIM_CHECK(r == e, "qm-factor", "truncated svd keeps %zu of %zu singular values instead of %zu", r, m, e); SIM_CHECK(r >= 1 && r <= m, "qm-factor", "rank %zu of %zu", r, m); for (size_t i = r; i < m; i++) tail += full[i] * full[i]; sim_probe("qm.truncated_svd"); }
        wellformed(u, n, r, "svd"); ortho(u, 0, 1e-9, "svd"); for (size_t i = 0; i < r; i++) { SIM_CHECK(lam[i] >= 0 && (i == 0 || lam[i] <= lam[i - 1] * (1 + 1e-12)), "qm-factor", "singular values not in order"); SIM_CHECK(fabs(lam[i] - full[i]) <= 1e-9 * (1 + sz), "qm-factor", "singular value %zu is %.17g, in full %.17g", i, lam[i], full[i]); for (size_t j = 0; j < r; j++) { double s = 0; for (size_t k = 0; k < m; k++) s += vt[i + k * r] * vt[j + k * r]; SIM_CHECK(fabs(s - (i == j)) <= 1e-10, "qm-factor", "right singular vectors %zu and %zu: inner product %.17g", i, j, s); } }
        double s2 = 0; for (size_t i = 0; i < m; i++) s2 += full[i] * full[i]; SIM_CHECK(fabs(sqrt(s2) - sz) <= 1e-8 * (1 + sz), "qm-factor", "singular values have norm %.17g, the array %.17g", sqrt(s2), sz);
        if (tail < 1e-22 * (1 + s2)) for (size_t p = 0, np = points(z, 0, x); p < np; p++) { at(u, x[p], B, BT); at(a, x[p], A, AT); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < m; j++) D[i + j * r] = lam[i] * vt[i + j * r]; mm(n, r, m, B, BT, 0, D, ZT, 0, E, ET); for (size_t i = 0; i < n * m; i++) SIM_CHECK(fabs(E[i] - A[i]) <= ET[i] + AT[i] + 1e-8 * (1 + sz), "qm-factor", "svd: the factors give %.17g for entry %zu at %.17g instead of %.17g", E[i], i, x[p], A[i]); }
        else { for (size_t i = 0; i < r; i++) for (size_t j = 0; j < m; j++) D[i + j * r] = lam[i] * vt[i + j * r]; Q *p = qmam(u, D, m); double d = qmarray_norm2diff(a, p); SIM_CHECK(fabs(d * d - tail) <= 1e-8 * (1 + s2), "qm-factor", "truncated svd is %.17g away, the dropped singular values say %.17g", d, sqrt(tail)); qmarray_free(p); }
        note(z, "svd", u); keep(z, u); free(lam); free(vt); sim_probe("qm.svd");
    }
    qmarray_free(w); DROP(a, oa);
}
static double best(const struct qs *z, const GF *f, const double *el, size_t ne) { double m = 0; if (el) { for (size_t k = 0; k < ne; k++) { double v = fabs(uni_own(f, el[k], NULL, NULL, NULL, NULL)); if (v > m) m = v; } } else for (size_t k = 0; k < z->ng; k++) { double v = fabs(uni_own(f, z->grid[k], NULL, NULL, NULL, NULL)); if (v > m) m = v; } return m; }
static void pivots(struct qs *z)
{
    int v = (int)sim_choose(3), oa; Q *a = pick(z, 0, 0, &oa); size_t n = a->nrows, m = a->ncols, ne = 0; double sz = size(z, a), el[40], *le = NULL; struct c3Vector *oc = NULL; if (sz > 1e4 || (z->cls != G_LEG && m > z->ng) || m > 4) { DROP(a, oa); return; }
    if (z->cls == G_LEG || sim_choose(2)) { if (z->cls == G_LEG) { ne = 16; for (size_t i = 0; i < ne; i++) el[i] = z->lb + (z->ub - z->lb) * ((double)i + 0.25) / 16; } else { ne = z->ng; memcpy(el, z->grid, ne * 8); } oc = c3vector_alloc(ne, el); le = el; }
    if (v == 0) {
        double xm = 99, mv = -1, b = 0; size_t r = 99, c = 99; qmarray_absmax1d(a, &xm, &r, &c, &mv, oc); for (size_t i = 0; i < n * m; i++) { double w = best(z, a->funcs[i], le, ne); if (w > b) b = w; } SIM_CHECK(r < n && c < m, "qm-pivot", "largest entry at (%zu,%zu) of %zu x %zu", r, c, n, m); SIM_CHECK(fabs(mv - b) <= 1e-11 * (1 + b) && fabs(fabs(uni_own(a->funcs[r + c * n], xm, NULL, NULL, NULL, NULL)) - mv) <= 1e-11 * (1 + b), "qm-pivot", "largest value %.17g claimed for (%zu,%zu) at %.17g, really %.17g", mv, r, c, xm, b); sim_probe("qm.absmax");
    } else if (v == 1) {
        Q *w = qmarray_copy(a), *l = qmarray_alloc(n, m); double *u = calloc_double(m * m), px[40], x[QX], A[QM], AT[QM], B[QM], BT[QM], E[QM], ET[QM], ZT[QM] = { 0 }; size_t pv[40]; int info = qmarray_lu1d(w, l, u, pv, px, z->ao, oc); wellformed(l, n, m, "lu"); double amp = 1; int low = 0; for (size_t i = 0; i < m; i++) { double d = fabs(u[i * m + i]); if (d < 1e-9 * (1 + sz)) low = 1; else if (sz / d > amp) amp = sz / d; }
        if (!low) { SIM_CHECK(info == 0, "qm-pivot", "lu reports %d for an array of full rank", info);
            for (size_t p = 0, np = points(z, 0, x); p < np; p++) { at(l, x[p], B, BT); at(a, x[p], A, AT); mm(n, m, m, B, BT, 0, u, ZT, 0, E, ET); for (size_t i = 0; i < n * m; i++) SIM_CHECK(fabs(E[i] - A[i]) <= ET[i] + AT[i] + 1e-12 * amp * (1 + sz) + fl(a->funcs[i]) * amp, "qm-pivot", "lu: the factors give %.17g for entry %zu at %.17g instead of %.17g", E[i], i, x[p], A[i]); }
            for (size_t i = 0; i < m; i++) { SIM_CHECK(pv[i] < n, "qm-pivot", "pivot row %zu of %zu", pv[i], n); for (size_t j = 0; j < m; j++) { double g = uni_own(l->funcs[pv[i] + j * n], px[i], NULL, NULL, NULL, NULL); if (j >= i) SIM_CHECK(fabs(g - (i == j)) <= 1e-10 * amp + fl(l->funcs[pv[i] + j * n]), "qm-pivot", "lu: column %zu is %.17g at pivot %zu", j, g, i); if (i > j) SIM_CHECK(fabs(u[j * m + i]) <= 1e-10 * amp * (1 + sz), "qm-pivot", "lu: second factor has %.17g below the diagonal", u[j * m + i]); }
                double b = 0; for (size_t r = 0; r < n; r++) { double q = best(z, l->funcs[r + i * n], le, ne); if (q > b) b = q; } SIM_CHECK(b <= 1 + 1e-9 * amp, "qm-pivot", "lu: column %zu reaches %.17g, its pivot is not the largest value", i, b); } sim_probe("qm.lu"); }
        else { SIM_CHECK(info <= 0 && info >= -(int)m, "qm-pivot", "lu reports %d", info); sim_probe("qm.lu_low_rank"); }
        sim_log("%s lu %d", z->who, info); qmarray_free(w); qmarray_free(l); free(u);
    } else {
        double *X = calloc_double(m * m), U[QM], UX[QM], P[QM], px[40], nu = 0, nx = 0; size_t pv[40]; int info = qmarray_maxvol1d(a, X, pv, px, z->ao, oc);
        for (size_t i = 0; i < m; i++) { SIM_CHECK(pv[i] < n && px[i] >= z->lb - 1e-12 && px[i] <= z->ub + 1e-12, "qm-pivot", "pivot row %zu of %zu at %.17g", pv[i], n, px[i]); for (size_t j = 0; j < i; j++) SIM_CHECK(pv[i] != pv[j] || px[i] != px[j], "qm-pivot", "pivots %zu and %zu are the same", i, j); }
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { U[i + j * m] = uni_own(a->funcs[pv[i] + j * n], px[i], NULL, NULL, NULL, NULL); if (fabs(U[i + j * m]) > nu) nu = fabs(U[i + j * m]); if (fabs(X[i + j * m]) > nx) nx = fabs(X[i + j * m]); }
        double T0[QM] = { 0 }, TT[QM]; mm(m, m, m, U, T0, 0, X, T0, 0, UX, TT); mm(m, m, m, UX, T0, 0, U, T0, 0, P, TT); if (nx * nu < 1e6) for (size_t i = 0; i < m * m; i++) SIM_CHECK(fabs(P[i] - U[i]) <= 1e-9 * (1 + nu) * (1 + nx * nu), "qm-pivot", "maxvol: the inverse does not belong to the pivots (%.17g instead of %.17g)", P[i], U[i]);
        if (info == 0 && nx * nu < 1e4) { double b = 0; Q *B = qmam(a, X, m); for (size_t i = 0; i < n * m; i++) { double w = best(z, B->funcs[i], le, ne); if (w > b) b = w; } SIM_CHECK(b <= 2.1, "qm-pivot", "maxvol: the array reaches %.17g in terms of the chosen rows", b); qmarray_free(B); sim_probe("qm.maxvol"); }
        sim_log("%s maxvol %d", z->who, info); free(X);
    }
    if (oc) c3vector_free(oc); DROP(a, oa);
}
static void quasi(struct qs *z)
{
    int v = (int)sim_choose(8), oa; Q *a = pick(z, 0, 0, &oa); size_t col = sim_choose(a->ncols), n = a->nrows, r = sim_range(1, 3), np; V *f = qmarray_extract_column(a, col), *g = NULL, *w; GF **F = a->funcs + col * n; double R[QM], x[QX], t; for (size_t i = 0; i < 40; i++) R[i] = cc(); double nn = 0, nt = 0; for (size_t i = 0; i < n; i++) { nn += ip(F[i], F[i], &t); nt += t; } double sz = sqrt(fabs(nn)); np = points(z, 0, x);
#define QCHK(w_, cnt, expr, nm_) do { SIM_CHECK(quasimatrix_get_size(w_) == (cnt), "qm-shape", "%s: %zu functions instead of %zu", nm_, quasimatrix_get_size(w_), (size_t)(cnt)); for (size_t p = 0; p < np; p++) for (size_t i = 0; i < (cnt); i++) { double e = 0, tol = 1e-300, s; expr; double u = uni_own(quasimatrix_get_func(w_, i), x[p], &s, NULL, NULL, NULL); SIM_CHECK(fabs(u - e) <= tol + 1e-11 * s + fl(quasimatrix_get_func(w_, i)), "qm-value", "%s: function %zu is %.17g at %.17g instead of %.17g", nm_, i, u, x[p], e); } } while (0)
#define TERM(c, fn) do { double s_; double v_ = uni_own(fn, x[p], &s_, NULL, NULL, NULL); e += (c) * v_; tol += fabs(c) * (1e-11 * s_ + fl(fn)); } while (0)
    switch (v) {
    case 0: { w = quasimatrix_copy(f); QCHK(w, n, TERM(1.0, F[i]), "copy"); size_t b; quasimatrix_serialize(NULL, w, &b); unsigned char *s = xcalloc(1, b + 1); s[b] = 77; unsigned char *e1 = quasimatrix_serialize(s, w, NULL); SIM_CHECK(e1 == s + b && s[b] == 77, "qm-bytes", "a quasimatrix wrote %zd of %zu bytes", e1 - s, b); quasimatrix_free(w); w = NULL; e1 = quasimatrix_deserialize(s, &w); SIM_CHECK(e1 == s + b, "qm-bytes", "a quasimatrix read %zd of %zu bytes", e1 - s, b); xfree(s); QCHK(w, n, TERM(1.0, F[i]), "read back"); quasimatrix_set_func(w, F[0], n - 1); QCHK(w, n, TERM(1.0, F[i == n - 1 ? 0 : i]), "set_func"); quasimatrix_free(w); sim_probe("qm.quasi_copy"); break; }
    case 1: { GF *h = qmv(f, R); for (size_t p = 0; p < np; p++) { double e = 0, tol = 1e-300, s; for (size_t i = 0; i < n; i++) TERM(R[i], F[i]); double u = uni_own(h, x[p], &s, NULL, NULL, NULL); SIM_CHECK(fabs(u - e) <= tol + 1e-11 * s + fl(h), "qm-value", "quasimatrix times vector is %.17g at %.17g instead of %.17g", u, x[p], e); } generic_function_free(h); w = qmm(f, R, r); QCHK(w, r, for (size_t k = 0; k < n; k++) TERM(R[i * n + k], F[k]), "quasimatrix times matrix"); quasimatrix_free(w); w = qmmt(f, R, r); QCHK(w, r, for (size_t k = 0; k < n; k++) TERM(R[k * r + i], F[k]), "quasimatrix times transpose"); quasimatrix_free(w); sim_probe("qm.quasi_matrix"); break; }
    case 2: { size_t c2 = sim_choose(a->ncols); g = qmarray_extract_column(a, c2); GF **G = a->funcs + c2 * n; w = quasimatrix_daxpby(R[0], f, R[1], g); QCHK(w, n, { TERM(R[0], F[i]); TERM(R[1], G[i]); }, "a x + b y"); quasimatrix_free(w); w = quasimatrix_daxpby(R[0], f, R[1], NULL); QCHK(w, n, TERM(R[0], F[i]), "a x"); quasimatrix_free(w); w = quasimatrix_daxpby(R[0], NULL, R[1], g); QCHK(w, n, TERM(R[1], G[i]), "b y"); quasimatrix_free(w); double e = 0, tol = 0; for (size_t i = 0; i < n; i++) { e += ip(F[i], G[i], &t); tol += t; } double u = quasimatrix_inner(f, g); SIM_CHECK(fabs(u - e) <= tol, "qm-integral", "inner product of quasimatrices %.17g instead of %.17g", u, e); u = quasimatrix_norm(f); SIM_CHECK(fabs(u * u - nn) <= nt, "qm-integral", "squared norm of a quasimatrix %.17g instead of %.17g", u * u, nn); sim_probe("qm.quasi_sum"); break; }
    case 3: if (space(z, n) && sz < 1e4) { double *T = calloc_double(n * n); w = quasimatrix_copy(f); V *q = quasimatrix_householder_simple(w, T, z->ap); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double e = ip(quasimatrix_get_func(q, i), quasimatrix_get_func(q, j), &t); SIM_CHECK(fabs(e - (i == j)) <= 1e-9, "qm-orthonormal", "quasimatrix: functions %zu and %zu have inner product %.17g", i, j, e); if (i > j) SIM_CHECK(T[i + j * n] == 0, "qm-factor", "quasimatrix: triangular factor"); } QCHK(f, n, { for (size_t k = 0; k < n; k++) TERM(T[k + i * n], quasimatrix_get_func(q, k)); tol += 1e-9 * (1 + sz); }, "quasimatrix QR"); quasimatrix_free(q); quasimatrix_free(w); free(T); sim_probe("qm.quasi_qr"); } break;
    case 4: { double el[40]; size_t ne = 12; for (size_t i = 0; i < ne; i++) el[i] = z->cls == G_LEG ? z->lb + (z->ub - z->lb) * ((double)i + 0.25) / 12 : z->grid[i % z->ng]; struct c3Vector *oc = c3vector_alloc(ne, el); double al = 99, av = -1, b = 0; size_t c = quasimatrix_absmax(f, &al, &av, oc); for (size_t i = 0; i < n; i++) { double q = best(z, F[i], el, ne); if (q > b) b = q; } SIM_CHECK(c < n && fabs(av - b) <= 1e-11 * (1 + b) && fabs(fabs(uni_own(F[c], al, NULL, NULL, NULL, NULL)) - b) <= 1e-11 * (1 + b), "qm-pivot", "quasimatrix: largest value %.17g in function %zu at %.17g, really %.17g", av, c, al, b);
        if (sz < 1e4 && n <= 3 && (z->cls == G_LEG || n <= z->ng)) { double *u = calloc_double(n * n), px[40]; V *l = quasimatrix_alloc(n); w = quasimatrix_copy(f); int info = quasimatrix_lu1d(w, l, u, px, z->ap, oc); double amp = 1; int low = 0; for (size_t i = 0; i < n; i++) { double d = fabs(u[i * n + i]); if (d < 1e-9 * (1 + sz)) low = 1; else if (sz / d > amp) amp = sz / d; } if (!low) { SIM_CHECK(info == 0, "qm-pivot", "quasimatrix lu reports %d", info); QCHK(f, n, { for (size_t k = 0; k < n; k++) TERM(u[k + i * n], quasimatrix_get_func(l, k)); tol += 1e-12 * amp * (1 + sz) + amp * fl(F[i]); }, "quasimatrix LU"); sim_probe("qm.quasi_lu"); } else SIM_CHECK(info <= 0, "qm-pivot", "quasimatrix lu reports %d", info);
            if (!low && amp < 1e4) { double X[9], px2[3]; SIM_CHECK(quasimatrix_maxvol1d(f, X, px2, z->ap, oc) == 0, "qm-pivot", "quasimatrix maxvol reports failure"); for (size_t i = 0; i < n; i++) { int in = 0; for (size_t k = 0; k < ne; k++) if (el[k] == px2[i]) in = 1; SIM_CHECK(in, "qm-pivot", "quasimatrix maxvol: pivot %.17g is not among the points offered", px2[i]); } for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0, sa = 0; for (size_t k = 0; k < n; k++) { double e = uni_own(F[k], px2[i], NULL, NULL, NULL, NULL) * X[k + j * n]; s += e; sa += fabs(e); } SIM_CHECK(fabs(s - (i == j)) <= 1e-9 * (1 + sa) * amp, "qm-pivot", "quasimatrix maxvol: the inverse does not belong to the pivots"); } V *B = qmm(f, X, n); double bb = 0; for (size_t i = 0; i < n; i++) { double q = best(z, quasimatrix_get_func(B, i), el, ne); if (q > bb) bb = q; } SIM_CHECK(bb <= 1.01 + 1e-9 * amp, "qm-pivot", "quasimatrix maxvol: reaches %.17g", bb); quasimatrix_free(B); sim_probe("qm.quasi_maxvol"); }
            quasimatrix_free(l); quasimatrix_free(w); free(u); }
        c3vector_free(oc); break; }
    case 5: if (space(z, n) && sz < 1e3) { double G[81]; int ok = 1; size_t rank = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) G[i + j * n] = ip(F[i], F[j], &t); for (size_t i = 0; i < n; i++) { size_t b = i; for (size_t p = i; p < n; p++) if (G[p + p * n] > G[b + b * n]) b = p; for (size_t p = 0; p < n; p++) { double q = G[i + p * n]; G[i + p * n] = G[b + p * n]; G[b + p * n] = q; } for (size_t p = 0; p < n; p++) { double q = G[p + i * n]; G[p + i * n] = G[p + b * n]; G[p + b * n] = q; } if (G[i + i * n] < 1e-5) { ok = G[i + i * n] == 0; break; } rank++; for (size_t p = i + 1; p < n; p++) for (size_t q = i + 1; q < n; q++) G[p + q * n] -= G[p + i * n] * G[i + q * n] / G[i + i * n]; } if (ok && rank == n) { size_t k = quasimatrix_rank(f, z->ap); SIM_CHECK(k == n, "qm-factor", "rank %zu of %zu independent functions", k, n); sim_probe("qm.quasi_rank"); } } break;
    case 6: { size_t k = sim_range(1, 3); if (space(z, k)) { w = quasimatrix_orth1d(k, z->cls == G_LEG ? POLYNOMIAL : z->cls == G_LIN ? LINELM : CONSTELM, z->ap); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) { double e = ip(quasimatrix_get_func(w, i), quasimatrix_get_func(w, j), &t); SIM_CHECK(fabs(e - (i == j)) <= 1e-10, "qm-orthonormal", "basis functions %zu and %zu have inner product %.17g", i, j, e); } quasimatrix_free(w); } break; }
    default: { size_t c2 = sim_choose(n); V *rw = qmarray_extract_row(a, c2); for (size_t i = 0; i < a->ncols; i++) for (size_t p = 0; p < np; p++) { double u = uni_own(quasimatrix_get_func(rw, i), x[p], NULL, NULL, NULL, NULL), e = uni_own(a->funcs[c2 + i * n], x[p], NULL, NULL, NULL, NULL); SIM_CHECK(same_bits(u, e), "qm-value", "extracted row"); } quasimatrix_free(rw); }
    }
    for (size_t i = 0; i < n; i++) for (size_t p = 0; p < np; p++) if (v != 0) SIM_CHECK(same_bits(uni_own(quasimatrix_get_func(f, i), x[p], NULL, NULL, NULL, NULL), uni_own(F[i], x[p], NULL, NULL, NULL, NULL)), "qm-changes", "an operation changed a quasimatrix it only reads");
    quasimatrix_free(f); quasimatrix_free(g); sim_log("%s quasimatrix %d", z->who, v); DROP(a, oa);
}
static void ops(struct qs *z)
{
    uint64_t h[QP]; Q *old[QP]; size_t ch = QP; for (size_t i = 0; i < QP; i++) { h[i] = qhash(z->q[i]); old[i] = z->q[i]; }
    switch (sim_choose(15)) { case 0: products(z); break; case 1: integrals(z); break; case 2: matmult(z); break; case 3: krons(z); break; case 4: blocks(z); break; case 5: shapes(z); break; case 6: elementwise(z, &ch); break; case 7: parameters(z, &ch); break; case 8: case 9: factor(z); break; case 10: svds(z); break; case 11: case 12: pivots(z); break; case 13: quasi(z); break; default: quasi(z); }
    for (size_t i = 0; i < QP; i++) if (i != ch && z->q[i] == old[i]) { uint64_t g = qhash(z->q[i]); if (g != h[i]) { int any = 0; for (size_t j = 0; j < QP; j++) if (z->q[j] != old[j]) any = 1; SIM_CHECK(any, "qm-changes", "an operation changed array %zu, which it only reads", i); } }
}
static void session(void *arg) { struct qs *z = arg; for (size_t o = 0; o < z->ops; o++) { sim_yield(); ops(z); } }
static void opts(struct qs *z)
{
    z->gp = xmalloc(QN * 8); memcpy(z->gp, z->grid, QN * 8);
    if (z->cls == G_LIN) z->ap = lin_elem_exp_aopts_alloc(z->ng, z->gp); else if (z->cls == G_CONST) z->ap = const_elem_exp_aopts_alloc(z->ng, z->gp); else { struct OpeOpts *o = ope_opts_alloc(LEGENDRE); ope_opts_set_lb(o, z->lb); ope_opts_set_ub(o, z->ub); ope_opts_set_start(o, 6); ope_opts_set_maxnum(o, 20); z->ap = o; }
    z->ao = one_approx_opts_alloc(z->cls == G_LIN ? LINELM : z->cls == G_CONST ? CONSTELM : POLYNOMIAL, z->ap); for (size_t k = 0; k < QX; k++) z->x[k] = k == 0 ? z->lb : k == 1 ? z->ub : sim_double(z->lb, z->ub);
}
static void opts_free(struct qs *z) { if (z->cls == G_LIN) lin_elem_exp_aopts_free(z->ap); else if (z->cls == G_CONST) const_elem_exp_aopts_free(z->ap); else ope_opts_free(z->ap); one_approx_opts_free(z->ao); xfree(z->gp); }
static void start(struct qs *z) { static const int cl[] = { G_LIN, G_LIN, G_CONST, G_LEG }; z->cls = cl[sim_choose(4)]; z->lb = sim_choose(2) ? -1 : sim_double(-3, 2); z->ub = z->lb + (sim_choose(2) ? 2 : sim_double(0.5, 3)); int large = sim_flip(1, 16); z->mx = 3; z->ng = sim_range(3, 8); if (large) { z->mx = sim_range(4, 6); z->ng = sim_range(9, QN); sim_probe("qm.large"); } gen_nodes(z->ng, z->lb, z->ub, z->grid); }
void scn_qm(int inc)
{
    struct qdur *D = sim_state(sizeof *D); sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark(); size_t nt = inc == 0 && sim_flip(1, 3) ? 2 : 1; struct qs *s[2]; void *a[2]; sim_task_fn fn[2] = { session, session }; int back = inc && D->live;
    for (size_t i = 0; i < nt; i++) { a[i] = s[i] = xcalloc(1, sizeof **s); s[i]->who = i ? "B" : "A"; if (back) { s[i]->cls = D->cls; s[i]->mx = D->mx; s[i]->lb = D->lb; s[i]->ub = D->ub; s[i]->ng = D->ng; memcpy(s[i]->grid, D->grid, sizeof D->grid); s[i]->ops = D->left; } else { start(s[i]); s[i]->ops = sim_range(2, 10); } opts(s[i]); }
    if (back) { for (size_t q = 0; q < QP; q++) { unsigned char *e = qmarray_deserialize(D->b[q], &s[0]->q[q]); SIM_CHECK(e == D->b[q] + D->len[q], "qm-restart", "array %zu: %zd of %zu bytes read", q, e - D->b[q], D->len[q]); size_t n; qmarray_serialize(NULL, s[0]->q[q], &n); unsigned char *b = xcalloc(1, n + 1); qmarray_serialize(b, s[0]->q[q], NULL); SIM_CHECK(n == D->len[q] && !memcmp(b, D->b[q], n), "qm-restart", "array %zu is not what was stored", q); xfree(b); } sim_probe("qm.restart"); }
    else for (size_t i = 0; i < nt; i++) for (size_t q = 0; q < QP; q++) s[i]->q[q] = fresh(s[i], sim_range(1, s[i]->mx), sim_range(1, s[i]->mx));
    sim_nontrivial(); sim_log("%zu session(s), class %s", nt, gen_cls_name[s[0]->cls]);
    if (nt == 2) { sim_tasks_run(2, fn, a); sim_probe("qm.two_tasks"); }
    else for (size_t o = 0; o < s[0]->ops; o++) {
        ops(s[0]);
        if (inc < 2 && sim_flip(1, 25)) { int ok = 1; for (size_t q = 0; q < QP; q++) { size_t n; qmarray_serialize(NULL, s[0]->q[q], &n); if (n > QB) ok = 0; else { qmarray_serialize(D->b[q], s[0]->q[q], NULL); D->len[q] = n; } } if (ok) { D->live = 1; D->cls = s[0]->cls; D->mx = s[0]->mx; D->lb = s[0]->lb; D->ub = s[0]->ub; D->ng = s[0]->ng; memcpy(D->grid, s[0]->grid, sizeof D->grid); D->left = s[0]->ops - o; sim_fault(F_CRASH); sim_log("crash"); sim_crash(); } }
    }
    for (size_t i = 0; i < nt; i++) { for (size_t q = 0; q < QP; q++) { wellformed(s[i]->q[q], s[i]->q[q]->nrows, s[i]->q[q]->ncols, "end"); qmarray_free(s[i]->q[q]); } opts_free(s[i]); }
    char rep[400]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "qm-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep); sim_sample("%zu session(s), class %s, %zu operations", nt, gen_cls_name[s[0]->cls], s[0]->ops); for (size_t i = 0; i < nt; i++) xfree(s[i]);
}
