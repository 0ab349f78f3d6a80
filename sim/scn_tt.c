/* Discrete tensors and tensor trains (C25). */
#include "gen.h"
#include "tensor.h"
#include "tensortrain.h"
#include "candecomp.h"
#include "convert_decomp.h"
#include "tt_multilinalg.h"
#include "tt_integrate.h"
#include "cross.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>

#define TD 6
#define TS 5
#define TR 24
struct tobj { struct tt *t; double *v, tol; uint64_t h; };          /* v: what every element should be; tol: rounding allowance */
struct tses { const char *who; size_t d, n[TD], T; struct tobj o[TS]; };

static size_t total(size_t d, const size_t *n) { size_t T = 1; for (size_t k = 0; k < d; k++) T *= n[k]; return T; }
static void sub(size_t d, const size_t *n, size_t i, size_t *e) { for (size_t k = 0; k < d; k++) { e[k] = i % n[k]; i /= n[k]; } }
/* the element the cores describe, and the sum of the absolute values of its contributions */
static double own(const struct tt *t, const size_t *e, double *ab)
{
    double a[TR * TR], b[TR * TR], pa[TR * TR], pb[TR * TR]; a[0] = pa[0] = 1;
    for (size_t k = 0; k < t->dim; k++) {
        size_t l = t->ranks[k], r = t->ranks[k + 1]; const double *c = t->cores[k]->vals;
        for (size_t j = 0; j < r; j++) { b[j] = pb[j] = 0; for (size_t i = 0; i < l; i++) { double x = c[i + e[k] * l + j * l * t->nvals[k]]; b[j] += a[i] * x; pb[j] += pa[i] * fabs(x); } }
        memcpy(a, b, r * 8); memcpy(pa, pb, r * 8);
    }
    if (ab) *ab = pa[0];
    return a[0];
}
static uint64_t hash_tt(const struct tt *t) { uint64_t h = 1469598103934665603ULL; for (size_t k = 0; k < t->dim; k++) { const unsigned char *p = (void *)t->cores[k]->vals; for (size_t i = 0; i < 8 * t->ranks[k] * t->ranks[k + 1] * t->nvals[k]; i++) h = (h ^ p[i]) * 1099511628211ULL; h = (h ^ t->ranks[k]) * 31; } return h; }
static void shape(const struct tses *z, const struct tt *t, const char *what)
{
    SIM_CHECK(t && t->dim == z->d && t->ranks[0] == 1 && t->ranks[z->d] == 1, "tt-shape", "%s: %s has %zu dimensions, outer ranks %zu and %zu", z->who, what, t->dim, t->ranks[0], t->ranks[z->d]);
    for (size_t k = 0; k < z->d; k++) { const struct tensor *c = t->cores[k]; SIM_CHECK(t->nvals[k] == z->n[k] && c->nvals[0] == t->ranks[k] && c->nvals[1] == z->n[k] && c->nvals[2] == t->ranks[k + 1], "tt-shape", "%s: %s: core %zu is %zux%zux%zu with ranks %zu, %zu and %zu values", z->who, what, k, c->nvals[0], c->nvals[1], c->nvals[2], t->ranks[k], t->ranks[k + 1], z->n[k]); }
}
/* every element, through the library and straight from the cores; extra: what an approximation may add in the norm of all elements */
static void want(struct tses *z, struct tt *t, const double *v, double tol, double extra, const char *what)
{
    shape(z, t, what); size_t e[TD]; double s = 0;
    for (size_t i = 0; i < z->T; i++) {
        double ab; sub(z->d, z->n, i, e); double o = own(t, e, &ab), g = ttelem(t, e); SIM_CHECK(fabs(g - o) <= 1e-12 * ab + 1e-300, "tt-element", "%s: %s: element %zu is %.17g, its cores give %.17g", z->who, what, i, g, o);
        if (v && extra == 0) SIM_CHECK(fabs(o - v[i]) <= tol + 1e-12 * ab, "tt-value", "%s: %s: element %zu is %.17g instead of %.17g (allowed %g)", z->who, what, i, o, v[i], tol + 1e-12 * ab);
        if (v) s += (o - v[i]) * (o - v[i]);
    }
    if (extra > 0) SIM_CHECK(sqrt(s) <= extra + tol * sqrt((double)z->T), "tt-value", "%s: %s differs by %g in norm, allowed %g", z->who, what, sqrt(s), extra);
}
static double vmax(const struct tses *z, const double *v) { double m = 0; for (size_t i = 0; i < z->T; i++) m = fmax(m, fabs(v[i])); return m; }
static double vnorm(const struct tses *z, const double *v) { double m = 0; for (size_t i = 0; i < z->T; i++) m += v[i] * v[i]; return sqrt(m); }
static void drop(struct tobj *o) { if (o->t) freett(o->t); xfree(o->v); memset(o, 0, sizeof *o); }
static void put(struct tses *z, size_t i, struct tt *t, double *v, double tol) { drop(&z->o[i]); z->o[i] = (struct tobj){ t, v, tol, hash_tt(t) }; }
/* after an approximation the elements are what the cores say */
static void resync(struct tses *z, struct tt *t, double *v, double *tol) { size_t e[TD]; *tol = 0; for (size_t i = 0; i < z->T; i++) { double ab; sub(z->d, z->n, i, e); v[i] = own(t, e, &ab); *tol = fmax(*tol, 1e-12 * ab); } }
static double tt_tol(const struct tses *z, const struct tt *t) { size_t e[TD]; double m = 0; for (size_t i = 0; i < z->T; i++) { double ab; sub(z->d, z->n, i, e); own(t, e, &ab); m = fmax(m, ab); } return m; }
/* a tensor of low rank, as an array */
static double *low_rank(const struct tses *z, const size_t *r)
{
    double *c[TD]; size_t e[TD]; for (size_t k = 0; k < z->d; k++) { size_t m = r[k] * z->n[k] * r[k + 1]; c[k] = xcalloc(m, 8); for (size_t i = 0; i < m; i++) c[k][i] = sim_double(-1, 1); }
    double *v = xcalloc(z->T, 8); for (size_t i = 0; i < z->T; i++) { double a[TR] = { 1 }, b[TR]; sub(z->d, z->n, i, e); for (size_t k = 0; k < z->d; k++) { for (size_t q = 0; q < r[k + 1]; q++) { b[q] = 0; for (size_t p = 0; p < r[k]; p++) b[q] += a[p] * c[k][p + e[k] * r[k] + q * r[k] * z->n[k]]; } memcpy(a, b, r[k + 1] * 8); } v[i] = a[0]; }
    for (size_t k = 0; k < z->d; k++) xfree(c[k]);
    return v;
}
static double *any_tensor(const struct tses *z)
{
    double *v; unsigned how = (unsigned)sim_choose(3); size_t r[TD + 1]; for (size_t k = 0; k <= z->d; k++) r[k] = k == 0 || k == z->d ? 1 : sim_range(1, 3);
    if (how == 0) { v = xcalloc(z->T, 8); for (size_t i = 0; i < z->T; i++) v[i] = gen_coeff(); } else if (how == 1) v = low_rank(z, r); else { v = xcalloc(z->T, 8); if (sim_choose(3)) for (size_t i = 0; i < z->T; i++) v[i] = sim_double(-1, 1); }
    return v;
}
static struct tensor *as_tensor(const struct tses *z, const double *v) { struct tensor *a; size_t n[TD]; memcpy(n, z->n, sizeof n); init_tensor(&a, z->d, n); memcpy(a->vals, v, z->T * 8); size_t e[TD]; for (size_t i = 0; i < z->T; i++) { sub(z->d, z->n, i, e); SIM_CHECK(same_bits(tensor_elem(a, e), v[i]), "tt-tensor", "%s: element %zu of a tensor", z->who, i); } return a; }

/* ---- cross approximation ---------------------------------------------------------------- */
struct asked { size_t f, e[TD]; };
struct cross { const struct tses *z; struct tensor *full; double *v; struct asked *log; size_t n, cap; int way, busy; struct func_to_array fa; double *pts[TD]; struct tt *aux; };
static double on_grid(double *x, void *a)
{
    struct cross *c = a; size_t e[TD], i = 0, m = 1; for (size_t k = 0; k < c->z->d; k++) { for (e[k] = 0; e[k] < c->z->n[k] && !same_bits(c->pts[k][e[k]], x[k]); e[k]++) ; SIM_CHECK(e[k] < c->z->n[k], "tt-cross-point", "%s: coordinate %zu of a requested point is %.17g, which is no grid point", c->z->who, k, x[k]); i += m * e[k]; m *= c->z->n[k]; }
    return c->v[i];
}
static void fiber(size_t nv, size_t *e, size_t f, double *out, void *a)
{
    struct cross *c = a; const struct tses *z = c->z; SIM_CHECK(f < z->d && nv == z->n[f], "tt-cross-index", "%s: a fiber of %zu values along %zu", z->who, nv, f);
    for (size_t k = 0; k < z->d; k++) SIM_CHECK(k == f || e[k] < z->n[k], "tt-cross-index", "%s: index %zu of a requested fiber is %zu of %zu", z->who, k, e[k], z->n[k]);
    for (size_t q = 0; q < c->n; q++) { int same = c->log[q].f == f; for (size_t k = 0; k < z->d && same; k++) same = k == f || c->log[q].e[k] == e[k]; SIM_CHECK(!same, "tt-cross-again", "%s: the same fiber along %zu was requested before", z->who, f); }
    if (c->n == c->cap) { size_t m = c->cap ? 2 * c->cap : 64; struct asked *l = xcalloc(m, sizeof *l); if (c->log) memcpy(l, c->log, c->n * sizeof *l); xfree(c->log); c->log = l; c->cap = m; }
    c->log[c->n].f = f; memcpy(c->log[c->n].e, e, z->d * sizeof *e); c->n++;
    if (c->aux) { (void)tt_norm(c->aux); }         /* the function uses the library itself */
    sim_yield();
    if (c->way == 0) wrap_full_tensor_for_cross(nv, e, f, out, c->full); else if (c->way == 1) wrap_func_for_cross(nv, e, f, out, &c->fa);
    for (size_t q = 0; q < nv; q++) { size_t i = 0, m = 1; for (size_t k = 0; k < z->d; k++) { i += m * (k == f ? q : c->log[c->n - 1].e[k]); m *= z->n[k]; } if (c->way == 2) out[q] = c->v[i]; else SIM_CHECK(same_bits(out[q], c->v[i]), "tt-wrap", "%s: element %zu of a fiber along %zu is %.17g instead of %.17g", z->who, q, f, out[q], c->v[i]); }
}
struct cjob { struct tses *z; size_t r[TD + 1], start[TD + 1], kick, rounds; int adapt, way, aux; double eps, *v, *pt[TD]; struct tt *got; size_t asked; };
static void cross_draw(struct cjob *j, struct tses *z)
{
    j->z = z; j->way = (int)sim_choose(3); j->aux = (int)sim_choose(2); j->adapt = (int)sim_choose(2); j->kick = sim_range(1, 2); j->rounds = sim_range(1, 3); j->eps = (double[]){ 1e-10, 1e-7 }[sim_choose(2)];
    for (size_t k = 0; k <= z->d; k++) { size_t top = k == 0 || k == z->d ? 1 : z->n[k] < z->n[k - 1] ? z->n[k] : z->n[k - 1]; j->r[k] = top == 1 ? 1 : sim_range(1, top < 3 ? top : 3); j->start[k] = j->r[k] + (k && k < z->d && j->r[k] < top ? sim_choose(2) : 0); if (j->adapt && k && k < z->d) { size_t room = top > (j->rounds + 2) * j->kick ? top - (j->rounds + 2) * j->kick : 0; if (room < 1) j->adapt = 0; else if (j->start[k] > room) j->start[k] = room; } }
    if (!j->adapt) for (size_t k = 1; k < z->d; k++) if (j->start[k] < j->r[k]) j->start[k] = j->r[k];
    j->v = low_rank(z, j->r); for (size_t k = 0; k < z->d; k++) { j->pt[k] = xcalloc(z->n[k], 8); for (size_t i = 0; i < z->n[k]; i++) j->pt[k][i] = (i ? j->pt[k][i - 1] : -1) + sim_double(0.1, 1); }
}
static void cross_drop(struct cjob *j) { xfree(j->v); for (size_t k = 0; k < j->z->d; k++) xfree(j->pt[k]); if (j->got) freett(j->got); }
static void cross_run(void *a)
{
    struct cjob *j = a; struct tses *z = j->z; struct cross c = { z, as_tensor(z, j->v), j->v, NULL, 0, 0, j->way, 0, { 0 }, { 0 }, NULL }; size_t st[TD + 1], n[TD]; memcpy(st, j->start, sizeof st); memcpy(n, z->n, sizeof n); for (size_t k = 0; k < z->d; k++) c.pts[k] = j->pt[k];
    c.fa = (struct func_to_array){ n, z->d, c.pts, on_grid, &c }; if (j->aux) c.aux = tt_ones(z->d, z->n);
    struct tt_cross_opts *o = init_cross_opts_with_naive_set(z->d, st, n); j->got = j->adapt ? tt_cross_adapt(fiber, o, j->kick, j->rounds, j->eps, &c) : tt_cross(fiber, o, &c); j->asked = c.n;
    shape(z, j->got, "cross approximation"); int enough = 1; for (size_t k = 0; k <= z->d; k++) { enough &= j->start[k] >= j->r[k]; SIM_CHECK(j->adapt || j->got->ranks[k] == j->start[k], "tt-cross-rank", "%s: rank %zu is %zu instead of %zu", z->who, k, j->got->ranks[k], j->start[k]); SIM_CHECK(j->got->ranks[k] <= j->start[k] + (j->rounds + 1) * j->kick, "tt-cross-rank", "%s: rank %zu is %zu", z->who, k, j->got->ranks[k]); }
    if (enough) { double nv = vnorm(z, j->v); want(z, j->got, j->v, 0, 1e-5 * nv + (j->adapt ? 3 * sqrt(nv * j->eps) : 0), "cross approximation"); sim_probe("tt.cross_exact"); } else want(z, j->got, NULL, 0, 0, "cross approximation");
    free_cross_opts(&o); free_tensor(&c.full); if (c.aux) freett(c.aux); xfree(c.log); sim_probe(j->adapt ? "tt.cross_adapt" : "tt.cross");
}
static void same_tt(const struct tt *a, const struct tt *b, const char *who) { for (size_t k = 0; k <= a->dim; k++) SIM_CHECK(a->ranks[k] == b->ranks[k], "tt-repeat", "%s: a repeated cross approximation has another rank %zu", who, k); SIM_CHECK(hash_tt(a) == hash_tt(b), "tt-repeat", "%s: a repeated cross approximation gives another result", who); }

/* ---- files ------------------------------------------------------------------------------- */
static void read3(const char *who)
{
    size_t n[3], last = 0, at = 0; for (int k = 0; k < 3; k++) n[k] = sim_range(1, sim_choose(4) ? 4 : 9); size_t T = n[0] * n[1] * n[2]; double *v = xcalloc(T, 8); char *b = xcalloc(T * 40 + 64, 1); at += (size_t)sprintf(b, "%zu %zu %zu\n", n[0], n[1], n[2]); int prec = sim_choose(2) ? 17 : 3;
    for (size_t i = 0; i < n[1]; i++) for (size_t j = 0; j < n[0]; j++) for (size_t k = 0; k < n[2]; k++) { char t[64]; sprintf(t, "%.*g", prec, gen_coeff()); v[j + i * n[0] + k * n[0] * n[1]] = strtod(t, NULL); last = at; at += (size_t)sprintf(b + at, "%s%s", t, k + 1 < n[2] ? " " : "\n"); }
    int cut = (int)sim_flip(1, 4); size_t len = at; if (cut) { len = sim_choose(last + 1); sim_fault(F_TRUNCATE); } sim_disk_put("t3.txt", b, len); FILE *fp = fopen("t3.txt", "r"); if (cut) sim_allow_failstop(1);
    sim_log("%s: tensor file %zux%zux%zu, %zu of %zu bytes", who, n[0], n[1], n[2], len, at); struct tensor *a = read_tensor_3d(fp); if (cut) sim_allow_failstop(0); SIM_CHECK(!cut, "tt-file", "%s: a tensor was read from a file cut at byte %zu of %zu", who, len, at); fclose(fp);
    SIM_CHECK(a && a->dim == 3 && memcmp(a->nvals, n, sizeof n) == 0, "tt-file", "%s: a tensor read from a file has other sizes", who); for (size_t i = 0; i < T; i++) SIM_CHECK(same_bits(a->vals[i], v[i]), "tt-file", "%s: element %zu read from a file is %.17g instead of %.17g", who, i, a->vals[i], v[i]);
    struct tensor *c = tensor_copy_3d(a, 0), *t = tensor_copy_3d(a, 1); SIM_CHECK(memcmp(c->nvals, n, sizeof n) == 0 && memcmp(c->vals, a->vals, T * 8) == 0, "tt-tensor", "%s: a copy differs", who); SIM_CHECK(t->nvals[0] == n[2] && t->nvals[1] == n[1] && t->nvals[2] == n[0], "tt-tensor", "%s: a transposed %zux%zux%zu tensor is %zux%zux%zu", who, n[0], n[1], n[2], t->nvals[0], t->nvals[1], t->nvals[2]);
    for (size_t i = 0; i < n[0]; i++) for (size_t j = 0; j < n[1]; j++) for (size_t k = 0; k < n[2]; k++) { size_t e[3] = { k, j, i }; SIM_CHECK(same_bits(tensor_elem(t, e), v[i + j * n[0] + k * n[0] * n[1]]), "tt-tensor", "%s: element (%zu,%zu,%zu) of the transposed tensor", who, k, j, i); }
    free_tensor(&a); free_tensor(&c); free_tensor(&t); xfree(v); xfree(b); sim_disk_remove("t3.txt"); sim_probe("tt.file");
}

/* ---- a session of operations -------------------------------------------------------------- */
static void step(struct tses *z)
{
    size_t i = sim_choose(TS), a = sim_choose(TS), b = sim_choose(TS); struct tobj *A = &z->o[a], *B = &z->o[b]; unsigned op = (unsigned)sim_choose(12); double *v = xcalloc(z->T, 8), tol; struct tt *t; const char *what = "";
    if (op >= 3 && op < 12 && (!A->t || !B->t)) op = (unsigned)sim_choose(3);
    if (op >= 5 && op <= 6) for (size_t k = 0; k <= z->d; k++) if ((op == 5 ? A->t->ranks[k] + B->t->ranks[k] : A->t->ranks[k] * B->t->ranks[k]) > TR) op = 8;
    switch (op) {
    case 0: { double *u = any_tensor(z), eps = (double[]){ 1e-14, 1e-8, 1e-3, 0.2 }[sim_choose(4)], n = vnorm(z, u); struct tensor *f = as_tensor(z, u); t = full_to_tt(f, eps); what = "compressed tensor"; SIM_CHECK(memcmp(f->vals, u, z->T * 8) == 0, "tt-argument", "%s: compressing changed the tensor", z->who); free_tensor(&f); want(z, t, u, 1e-11 * vmax(z, u), sqrt(sqrt((double)z->d - 1) * n * eps) * (1 + 1e-9) + 1e-11 * n, what); resync(z, t, v, &tol); xfree(u); sim_probe("tt.compress"); break; }
    case 1: if (sim_choose(3) == 0) { t = tt_ones(z->d, z->n); for (size_t q = 0; q < z->T; q++) v[q] = 1; what = "ones"; tol = 0; }
        else { size_t k = sim_choose(z->d), e[TD], n[TD]; double x[64]; memcpy(n, z->n, sizeof n); for (size_t q = 0; q < z->n[k]; q++) x[q] = gen_coeff(); t = tt_x(x, k, z->d, n); for (size_t q = 0; q < z->T; q++) { sub(z->d, z->n, q, e); v[q] = x[e[k]]; } what = "coordinate"; tol = 0; sim_probe("tt.coordinate"); }
        break;
    case 2: { struct candecomp cd = { z->d, sim_range(1, 4), NULL }; struct mat *m[TD]; cd.cores = m; for (size_t k = 0; k < z->d; k++) { m[k] = malloc(sizeof(struct mat)); m[k]->nrows = z->n[k]; m[k]->ncols = cd.rank; m[k]->vals = calloc_double(z->n[k] * cd.rank); for (size_t q = 0; q < z->n[k] * cd.rank; q++) m[k]->vals[q] = sim_double(-2, 2); }
        t = cd2tt(&cd); what = "canonical tensor"; size_t e[TD]; for (size_t q = 0; q < z->T; q++) { sub(z->d, z->n, q, e); double s = 0, ab = 0; for (size_t r = 0; r < cd.rank; r++) { double p = 1; for (size_t k = 0; k < z->d; k++) p *= m[k]->vals[e[k] * cd.rank + r]; s += p; ab += fabs(p); } v[q] = s; double g = cdelem(&cd, e); SIM_CHECK(fabs(g - s) <= 1e-13 * ab, "tt-canonical", "%s: element %zu of a canonical tensor is %.17g instead of %.17g", z->who, q, g, s); }
        for (size_t k = 0; k < z->d; k++) freemat(m[k]); tol = 1e-12 * tt_tol(z, t); sim_probe("tt.canonical"); break; }
    case 3: t = copy_tt(A->t); what = "copy"; memcpy(v, A->v, z->T * 8); tol = A->tol; break;
    case 4: { double c = sim_choose(4) ? sim_double(-3, 3) : (double[]){ 0, 1, -1, 1e-3 }[sim_choose(4)]; t = copy_tt(A->t); ttscal(t, c); what = "scaled"; for (size_t q = 0; q < z->T; q++) v[q] = c * A->v[q]; tol = fabs(c) * A->tol; break; }
    case 5: t = ttadd(A->t, B->t); what = "sum"; for (size_t q = 0; q < z->T; q++) v[q] = A->v[q] + B->v[q]; tol = A->tol + B->tol; sim_probe("tt.sum"); break;
    case 6: t = ttmult(A->t, B->t); what = "product"; for (size_t q = 0; q < z->T; q++) v[q] = A->v[q] * B->v[q]; { double ma = tt_tol(z, A->t), mb = tt_tol(z, B->t); tol = A->tol * mb + B->tol * ma; if (ma * mb > 1e8) { freett(t); xfree(v); return; } } sim_probe("tt.product"); break;
    case 7: case 8: { double eps = (double[]){ 1e-14, 1e-8, 1e-3, 0.2 }[sim_choose(4)], n = vnorm(z, A->v), m = tt_tol(z, A->t); struct tt *c = copy_tt(A->t); t = tt_round(c, eps); freett(c); what = "rounded"; int less = 0; for (size_t k = 0; k <= z->d; k++) { SIM_CHECK(t->ranks[k] <= A->t->ranks[k], "tt-rank", "%s: rounding raised rank %zu from %zu to %zu", z->who, k, A->t->ranks[k], t->ranks[k]); less |= t->ranks[k] < A->t->ranks[k]; }
        double sT = sqrt((double)z->T), ne = n + 1e-7 * m * sT; want(z, t, A->v, A->tol + 1e-10 * m, sqrt(sqrt((double)z->d - 1) * ne * eps) * (1 + 1e-6) + 1e-300, what); resync(z, t, v, &tol); if (less) sim_probe("tt.rank_reduced");
        if (eps <= 1e-8 && n > 1e-3 * m * sT && m < 1e3) { struct tt *s2 = ttadd(t, t), *r2 = tt_round(s2, eps); for (size_t k = 0; k <= z->d; k++) SIM_CHECK(r2->ranks[k] <= t->ranks[k], "tt-rank", "%s: rounding x+x leaves rank %zu at %zu, x has %zu", z->who, k, r2->ranks[k], t->ranks[k]); freett(s2); freett(r2); }
        break; }
    case 9: { t = copy_tt(A->t); right_left_orth(&t); what = "orthogonalised"; memcpy(v, A->v, z->T * 8); tol = A->tol + 1e-11 * tt_tol(z, A->t);
        for (size_t k = 1; k < z->d; k++) for (size_t p = 0; p < t->ranks[k]; p++) for (size_t q = 0; q < t->ranks[k]; q++) { double s = 0; for (size_t y = 0; y < z->n[k] * t->ranks[k + 1]; y++) s += t->cores[k]->vals[p + y * t->ranks[k]] * t->cores[k]->vals[q + y * t->ranks[k]]; SIM_CHECK(fabs(s - (p == q)) <= 1e-10, "tt-orthogonal", "%s: rows %zu and %zu of core %zu have inner product %g", z->who, p, q, k, s); }
        sim_probe("tt.orthogonal"); break; }
    default: {
        double s = 0, ab = 0, w[TD][64], *wp[TD], in = 0, ia = 0; size_t e[TD]; for (size_t k = 0; k < z->d; k++) { wp[k] = w[k]; for (size_t q = 0; q < z->n[k]; q++) w[k][q] = sim_double(-1, 2); }
        double ma = tt_tol(z, A->t), mb = tt_tol(z, B->t); for (size_t q = 0; q < z->T; q++) { s += A->v[q] * B->v[q]; ab += ma * mb; double p = 1; sub(z->d, z->n, q, e); for (size_t k = 0; k < z->d; k++) p *= w[k][e[k]]; in += p * A->v[q]; ia += fabs(p) * ma; }
        double g = tt_dot(A->t, B->t), nn = tt_norm(A->t), na = vnorm(z, A->v), x = tt_integrate(A->t, wp); double T = (double)z->T;
        SIM_CHECK(fabs(g - s) <= 1e-11 * ab + T * (A->tol * mb + B->tol * ma), "tt-dot", "%s: inner product %.17g instead of %.17g", z->who, g, s); SIM_CHECK(fabs(nn * nn - na * na) <= 1e-11 * T * ma * ma + 2 * T * A->tol * ma, "tt-dot", "%s: norm %.17g instead of %.17g", z->who, nn, na); SIM_CHECK(fabs(x - in) <= 1e-11 * ia + ia / (ma + 1e-300) * A->tol, "tt-integral", "%s: weighted sum %.17g instead of %.17g", z->who, x, in);
        sim_probe("tt.inner"); xfree(v); t = NULL; }
    }
    for (size_t q = 0; q < TS; q++) if (z->o[q].t) SIM_CHECK(hash_tt(z->o[q].t) == z->o[q].h, "tt-argument", "%s: operation %u changed object %zu", z->who, op, q);
    if (t) { sim_log("%s: %zu = %s of %zu, %zu, first %a", z->who, i, what, a, b, v[0]); want(z, t, v, tol, 0, what); put(z, i, t, v, tol); for (size_t k = 0; k <= z->d; k++) if (t->ranks[k] > TR) { drop(&z->o[i]); break; } }
}
static void tses_draw(struct tses *z, const char *who, int cross)
{
    memset(z, 0, sizeof *z); z->who = who; z->d = sim_range(2, sim_flip(1, 12) ? TD : 4); size_t cap = sim_flip(1, 12) ? 20 : cross ? sim_choose(3) ? 6 : 10 : 4, lo = cross ? cap == 10 ? 5 : 2 : 1; if (cap > 6) sim_probe("tt.large"); z->T = 1; for (size_t k = 0; k < z->d; k++) { size_t m = cap; while (m > 1 && z->T * m > 2000) m--; z->n[k] = sim_range(lo < m ? lo : m, m); z->T *= z->n[k]; }
}
void scn_tensors(int inc)
{
    (void)inc; sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); sim_nontrivial(); uint64_t m0 = sim_heap_mark(); struct tses *z = xcalloc(2, sizeof *z); unsigned kind = (unsigned)sim_choose(8); size_t steps = 0;
    if (kind == 0) { read3("A"); if (sim_choose(2)) read3("B"); }
    else if (kind <= 2) {
        size_t n = sim_range(1, 2); struct cjob j[4] = { { 0 } }; for (size_t i = 0; i < n; i++) { tses_draw(&z[i], i ? "B" : "A", 1); cross_draw(&j[i], &z[i]); sim_log("%s: d %zu elements %zu adapt %d way %d", z[i].who, z[i].d, z[i].T, j[i].adapt, j[i].way); cross_run(&j[i]); sim_log("%s: %zu fibers", z[i].who, j[i].asked); }
        sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); for (size_t i = 0; i < n; i++) { j[2 + i] = j[i]; j[2 + i].got = NULL; }
        void *a[2] = { &j[2], &j[3] }; sim_task_fn f[2] = { cross_run, cross_run }; if (n == 2) { sim_tasks_run(2, f, a); sim_probe("tt.interleaved"); } else cross_run(&j[2]);
        for (size_t i = 0; i < n; i++) { same_tt(j[i].got, j[2 + i].got, z[i].who); SIM_CHECK(j[i].asked == j[2 + i].asked, "tt-repeat", "a repeated cross approximation asks for %zu fibers instead of %zu", j[2 + i].asked, j[i].asked); freett(j[2 + i].got); cross_drop(&j[i]); }
    } else { tses_draw(z, "A", 0); steps = sim_range(4, 16); for (size_t i = 0; i < steps; i++) step(z); for (size_t i = 0; i < TS; i++) drop(&z->o[i]); }
    xfree(z); char rep[300]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "tt-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep); sim_sample("tensors kind %u, %zu steps", kind, steps);
}
