/* Random draws (C19) and probability densities (C20). */
#include "gen.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
/* ---- draws --------------------------------------------------------------------- */
#define DMAX 3000
struct drop { unsigned op; size_t n, d, r[5], ord; double mean, lb, ub; };
struct dlist { size_t n; struct drop o[12]; };
struct dout { size_t n; double v[DMAX]; };
static void put(struct dout *o, double v) { if (o->n < DMAX) o->v[o->n++] = v; }
static void draws_exec(const struct dlist *l, struct dout *o)
{
    o->n = 0;
    for (size_t i = 0; i < l->n; i++) {
        const struct drop *q = &l->o[i];
        switch (q->op) {
        case 0: for (size_t k = 0; k < q->n; k++) { double u = randu(); SIM_CHECK(u >= 0 && u <= 1, "draw-range", "a uniform draw is %.17g", u); put(o, u); } break;
        case 1: for (size_t k = 0; k < q->n; k++) { double z = randn(); SIM_CHECK(isfinite(z) && fabs(z) < 7, "draw-range", "a normal draw is %.17g", z); put(o, z); } break;
        case 2: { double *a = drandu(q->n); for (size_t k = 0; k < q->n; k++) { SIM_CHECK(a[k] >= -1 && a[k] <= 1, "draw-range", "a uniform array element is %.17g", a[k]); put(o, a[k]); } free(a); break; }
        case 3: put(o, (double)poisson(q->mean)); break;
        default: {
            struct BoundingBox *b = bounding_box_init(q->d, q->lb, q->ub); size_t r[5]; memcpy(r, q->r, sizeof r); struct FunctionTrain *ft = function_train_poly_randu(q->op == 4 ? LEGENDRE : CHEBYSHEV, b, r, q->ord); bounding_box_free(b);
            size_t want = 0, np = function_train_get_nparams(ft); SIM_CHECK(ft->dim == q->d, "draw-train", "a random train of %zu variables has %zu", q->d, ft->dim);
            for (size_t k = 0; k < q->d; k++) { SIM_CHECK(ft->ranks[k] == q->r[k] && ft->cores[k]->nrows == q->r[k] && ft->cores[k]->ncols == q->r[k + 1], "draw-train", "rank %zu of a random train", k); want += q->r[k] * q->r[k + 1] * (q->ord + 1); for (size_t j = 0; j < q->r[k] * q->r[k + 1]; j++) SIM_CHECK(generic_function_get_lb(ft->cores[k]->funcs[j]) == q->lb && generic_function_get_ub(ft->cores[k]->funcs[j]) == q->ub, "draw-train", "domain of a random train"); }
            SIM_CHECK(np == want, "draw-train", "a random train has %zu coefficients instead of %zu", np, want); double *p = xcalloc(np, 8); function_train_get_params(ft, p); int vary = 0;
            for (size_t k = 0; k < np; k++) { SIM_CHECK(p[k] >= -1 && p[k] <= 1, "draw-range", "a random coefficient is %.17g", p[k]); put(o, p[k]); vary |= k && p[k] != p[0]; }
            xfree(p); function_train_free(ft); (void)vary; break; }
        }
    }
}
static void stats(void)
{
    int N = sim_flip(1, 12) ? 20000 : 600, h[20] = { 0 }, t2 = 0, t26 = 0; double s = 0, s2 = 0, c = 0, s3 = 0, prev = 0, u = 0, u2 = 0, uc = 0; double mean = (double[]){ 0.3, 1, 2.5, 7, 30, 700 }[sim_choose(6)], pm = 0;
    for (int i = 0; i < N; i++) { double z = randn(); s += z; s2 += z * z; s3 += z * z * z; if (i) c += z * prev; prev = z; t2 += fabs(z) > 2; t26 += fabs(z) > 2.6; }
    s /= N; s2 /= N; s3 /= N; c /= N - 1; double q = sqrt((double)N);
    SIM_CHECK(fabs(s) < 7 / q && fabs(s2 - 1) < 7 * sqrt(2.0) / q + 0.02 && fabs(c) < 7 / q && fabs(s3) < 7 * sqrt(15.0) / q, "draw-normal", "%d normal draws have mean %.3g, mean square %.3g, mean cube %.3g, lag correlation %.3g", N, s, s2, s3, c);
    double p2 = 0.0455003, p26 = 0.0093224; SIM_CHECK(fabs(t2 - N * p2) < 7 * sqrt(N * p2) + 3 && fabs(t26 - N * p26) < 7 * sqrt(N * p26) + 5, "draw-normal", "of %d normal draws %d exceed 2 and %d exceed 2.6", N, t2, t26);
    for (int i = 0; i < N; i++) { double z = randu(); int b = (int)(z * 20); h[b < 0 ? 0 : b > 19 ? 19 : b]++; u += z; u2 += z * z; if (i) uc += (z - 0.5) * (prev - 0.5); prev = z; }
    u /= N; u2 /= N; uc /= N - 1; SIM_CHECK(fabs(u - 0.5) < 7 * 0.2887 / q && fabs(u2 - 1.0 / 3) < 7 * 0.2982 / q && fabs(uc) < 7.0 / 12 / q, "draw-uniform", "%d uniform draws have mean %.3g, mean square %.3g, lag covariance %.3g", N, u, u2, uc);
    for (int b = 0; b < 20; b++) SIM_CHECK(fabs(h[b] - N / 20.0) < 7 * sqrt(N / 20.0) + 3, "draw-uniform", "of %d uniform draws %d fall in part %d of 20", N, h[b], b); if (N > 600) sim_probe("draw.many");
    int M = mean > 100 ? 60 : N > 600 ? 6000 : 300; double pv = 0; for (int i = 0; i < M; i++) { double k = (double)poisson(mean); pm += k; pv += (k - mean) * (k - mean); } pm /= M; pv /= M;
    SIM_CHECK(fabs(pm - mean) < 7 * sqrt(mean / M) + 1e-6, "draw-poisson", "%d Poisson draws with mean %g average %.6g", M, mean, pm);
    double sv = sqrt((mean + 2 * mean * mean) / M); SIM_CHECK(fabs(pv - mean) < 8 * sv, "draw-poisson", "%d Poisson draws with mean %g have variance %.6g", M, mean, pv); sim_probe("draw.statistics");
}
void scn_draws(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); int extreme = (int)sim_choose(2); if (extreme) sim_rand_mode(R_EXTREME);
    struct dlist l, f; struct dout *o = xcalloc(2, sizeof *o); uint64_t m = sim_heap_mark();
    for (int w = 0; w < 2; w++) { struct dlist *q = w ? &f : &l; q->n = w ? sim_choose(4) : sim_range(1, 12); for (size_t i = 0; i < q->n; i++) { struct drop *d = &q->o[i]; d->op = (unsigned)sim_choose(6); d->n = sim_range(1, 9); d->d = sim_range(1, 4); d->ord = sim_choose(5); for (size_t k = 0; k <= d->d; k++) d->r[k] = k == 0 || k == d->d ? 1 : sim_range(1, 3); d->mean = (double[]){ 0.5, 1, 3, 12 }[sim_choose(4)]; d->lb = sim_choose(2) ? -1 : sim_double(-3, 1); d->ub = d->lb + sim_double(0.5, 3); } }
    unsigned seed = (unsigned)sim_choose(100000); sim_nontrivial(); if (sim_choose(2)) draws_exec(&f, &o[0]);
    for (size_t rep = 0; rep < 1 + sim_range(1, 2); rep++) {
        srand(seed); draws_exec(&l, &o[rep > 0]); sim_log("%zu draws, last %a", o[rep > 0].n, o[rep > 0].n ? o[rep > 0].v[o[rep > 0].n - 1] : 0);
        if (rep) { SIM_CHECK(o[0].n == o[1].n, "draw-repeat", "%zu values after seeding again, %zu before", o[1].n, o[0].n); for (size_t i = 0; i < o[0].n; i++) SIM_CHECK(same_bits(o[0].v[i], o[1].v[i]), "draw-repeat", "after seeding with %u again, value %zu is %.17g instead of %.17g", seed, i, o[1].v[i], o[0].v[i]); sim_probe("draw.repeated"); }
        struct dout *x = xcalloc(1, sizeof *x); draws_exec(&f, x); xfree(x); for (uint64_t i = sim_choose(4); i; i--) { if (sim_choose(2)) randn(); else rand(); sim_fault(F_RAND_FOREIGN); } sim_clock_jump((int64_t)sim_choose(1000000)); sim_heap_fill(sim_choose(1000));
    }
    if (!extreme) { srand(seed + 1); stats(); }
    char rp[300]; sim_heap_report_since(m, rp, sizeof rp); SIM_CHECK(sim_heap_live_since(m) == 0, "draw-leak", "%zu blocks left: %s", sim_heap_live_since(m), rp); sim_sample("%zu draws of %zu values", l.n, o[0].n); xfree(o);
}
/* ---- densities ------------------------------------------------------------------- */
#define PD 3
#define PB 8192
struct den { int on, gauss, d, tr, saved, deg; double L[PD * PD], b[PD], det; size_t nb; unsigned char bytes[PB]; char file[8]; double lb[PD], ub[PD]; };
struct dst { struct den q[2]; };
static struct ProbabilityDensity *P[2]; static struct FunctionTrain *base[2];
static void ybase(const struct den *q, const double *x, double *y) { for (int i = 0; i < q->d; i++) { double s = x[i] - (q->tr ? q->b[i] : 0); if (q->tr) { for (int j = 0; j < i; j++) s -= q->L[i + j * q->d] * y[j]; s /= q->L[i + i * q->d]; } y[i] = s; } }
static void xof(const struct den *q, const double *y, double *x) { for (int i = 0; i < q->d; i++) { x[i] = q->tr ? q->b[i] : y[i]; if (q->tr) for (int j = 0; j <= i; j++) x[i] += q->L[i + j * q->d] * y[j]; } }
static double bval(const struct den *q, const struct FunctionTrain *f, const double *y) { if (!q->gauss) return ref_ft_eval(f, y); double s = 0; for (int i = 0; i < q->d; i++) s += y[i] * y[i]; return exp(-0.5 * s) / pow(2 * M_PI, 0.5 * q->d); }
static void make(struct den *q, int i)
{
    memset(q, 0, sizeof *q); q->on = 1; q->d = (int)sim_range(1, PD); q->gauss = sim_flip(1, 8); if (q->gauss && q->d > 2) q->d = 2; q->tr = (int)sim_choose(3) > 0; sprintf(q->file, "d%d", i); int d = q->d;
    for (int k = 0; k < d; k++) { q->lb[k] = q->gauss ? -10 : sim_double(-3, 0); q->ub[k] = q->gauss ? 10 : q->lb[k] + sim_double(1, 4); q->b[k] = sim_double(-2, 2); for (int j = 0; j <= k; j++) q->L[k + j * d] = j == k ? (q->gauss ? 1 : sim_choose(2) ? 1.0 : -1.0) * sim_double(0.4, 2.5) : sim_double(-1.5, 1.5); }
    q->det = 1; for (int k = 0; k < d; k++) q->det *= q->L[k + k * d];
    if (q->gauss) {
        if (!q->tr) P[i] = probability_density_standard_normal((size_t)d);
        else { double C[PD * PD]; for (int a = 0; a < d; a++) for (int c = 0; c < d; c++) { double s = 0; for (int k = 0; k < d; k++) s += q->L[a + k * d] * q->L[c + k * d]; C[a + c * d] = s; } P[i] = probability_density_mvn((size_t)d, q->b, C); }
        SIM_CHECK(P[i]->type == GAUSSIAN, "den-type", "a Gaussian density is not marked as one"); sim_probe("den.gaussian");
    } else {
        q->deg = sim_choose(2) ? G_LEG : G_LIN; P[i] = probability_density_alloc(); P[i]->pdf = gen_ft((size_t)d, 2, q->deg, q->lb, q->ub, 1); P[i]->type = GENERAL; P[i]->transform = q->tr;
        for (int k = 0; k < d; k++) { q->lb[k] = generic_function_get_lb(P[i]->pdf->cores[k]->funcs[0]); q->ub[k] = generic_function_get_ub(P[i]->pdf->cores[k]->funcs[0]); }
        if (q->tr) { P[i]->lt = linear_transform_alloc((size_t)d, (size_t)d, q->L, q->b, q->det); P[i]->lt->mt = LT; }
        unsigned char *b = ft_bytes(P[i]->pdf, &q->nb); if (q->nb > PB) sim_violation("harness", "train too large"); memcpy(q->bytes, b, q->nb); xfree(b); function_train_deserialize(q->bytes, &base[i]);
    }
    sim_log("density %d: %s, %d variables, transform %d", i, q->gauss ? "Gaussian" : "general", d, q->tr);
}
static void eval(const struct den *q, int i)
{
    double y[PD], x[PD], y2[PD], x0[PD]; int in = 1, near = 0; for (int k = 0; k < q->d; k++) { y[k] = q->gauss ? sim_double(-3, 3) : sim_choose(8) ? sim_double(q->lb[k], q->ub[k]) : sim_double(q->lb[k] - 1, q->ub[k] + 1); }
    if (q->gauss && sim_flip(1, 8)) y[0] = 10.5;
    xof(q, y, x); ybase(q, x, y2); memcpy(x0, x, sizeof x0); for (int k = 0; k < q->d; k++) { if (fabs(y2[k] - q->lb[k]) < 1e-9 || fabs(y2[k] - q->ub[k]) < 1e-9) near = 1; in &= y2[k] >= q->lb[k] && y2[k] <= q->ub[k]; }
    if (near) return;
    double v = probability_density_eval(P[i], x), w = in ? bval(q, base[i], y2) / (q->tr ? fabs(q->det) : 1) : 0, tol = q->gauss ? 2e-4 / (q->tr ? fabs(q->det) : 1) : 1e-9 * (1 + fabs(w));
    if (!in) sim_probe("den.outside");
    SIM_CHECK(fabs(v - w) <= tol, "den-value", "density %d at an %s point is %.12g, the change of variables gives %.12g", i, in ? "inside" : "outside", v, w); SIM_CHECK(!memcmp(x, x0, (size_t)q->d * 8), "den-point", "evaluation changed its argument");
    double v2 = probability_density_eval(P[i], x); SIM_CHECK(same_bits(v, v2), "den-value", "the same evaluation gives %a, then %a", v, v2); sim_log("eval %d %a", i, v);
}
static double lref(const struct den *q, int i, const double *x) { double y[PD]; ybase(q, x, y); return log(fabs(bval(q, base[i], y))); }
static void deriv(const struct den *q, int i)
{
    if (!q->gauss && q->deg != G_LEG) return;
    double y[PD], x[PD], w = 0; size_t d = (size_t)q->d; for (int k = 0; k < q->d; k++) y[k] = q->gauss ? sim_double(-2, 2) : q->lb[k] + (q->ub[k] - q->lb[k]) * sim_double(0.1, 0.9);
    xof(q, y, x); if (!q->gauss) { double yy[PD]; for (int t = 0; t < 8; t++) { for (int k = 0; k < q->d; k++) yy[k] = (t >> k) & 1 ? q->ub[k] : q->lb[k]; w = fmax(w, fabs(bval(q, base[i], yy))); } if (fabs(bval(q, base[i], y)) < 0.05 * w + 0.05) return; }
    double *g = probability_density_log_gradient_eval(P[i], x), *h = probability_density_log_hessian_eval(P[i], x), S[PD * PD] = { 0 }, R[PD], H[PD * PD];
    if (q->gauss) {  /* minus the precision matrix */
        for (int c = 0; c < q->d; c++) { double e[PD] = { 0 }, z[PD], o[PD] = { 0 }; e[c] = 1; for (int a = 0; a < q->d; a++) { double s = e[a]; for (int b = 0; b < a; b++) s -= q->tr ? q->L[a + b * q->d] * z[b] : 0; z[a] = s / (q->tr ? q->L[a + a * q->d] : 1); } for (int a = q->d - 1; a >= 0; a--) { double s = z[a]; for (int b = a + 1; b < q->d; b++) s -= q->tr ? q->L[b + a * q->d] * o[b] : 0; o[a] = s / (q->tr ? q->L[a + a * q->d] : 1); } for (int a = 0; a < q->d; a++) S[a + c * q->d] = -o[a]; }
        for (int a = 0; a < q->d; a++) { R[a] = 0; for (int c = 0; c < q->d; c++) R[a] += S[a + c * q->d] * (x[c] - (q->tr ? q->b[c] : 0)); } memcpy(H, S, sizeof H);
    } else {
        double e = 1e-4; for (size_t a = 0; a < d; a++) { double xp[PD], xm[PD]; memcpy(xp, x, sizeof x); memcpy(xm, x, sizeof x); xp[a] += e; xm[a] -= e; R[a] = (lref(q, i, xp) - lref(q, i, xm)) / (2 * e); }
        for (size_t a = 0; a < d; a++) for (size_t c = 0; c < d; c++) { double s = 0; for (int u = 0; u < 4; u++) { double z[PD]; memcpy(z, x, sizeof x); z[a] += u & 1 ? e : -e; z[c] += u & 2 ? e : -e; s += (((u & 1) != 0) == ((u & 2) != 0) ? 1 : -1) * lref(q, i, z); } H[a + c * d] = s / (4 * e * e); }
    }
    double gs = 1, hs = 1; for (size_t a = 0; a < d; a++) gs += R[a] * R[a]; for (size_t a = 0; a < d * d; a++) hs += fabs(H[a]);
    for (size_t a = 0; a < d; a++) SIM_CHECK(fabs(g[a] - R[a]) <= (q->gauss ? 2e-2 : 1e-4) * (gs + hs), "den-gradient", "density %d: component %zu of the gradient of the logarithm is %.9g instead of %.9g", i, a, g[a], R[a]);
    for (size_t a = 0; a < d * d; a++) SIM_CHECK(fabs(h[a] - H[a]) <= (q->gauss ? 0.15 : 1e-3) * (gs * gs + hs), "den-hessian", "density %d: entry %zu of the Hessian of the logarithm is %.9g instead of %.9g", i, a, h[a], H[a]);
    free(g); free(h); sim_probe("den.derivatives");
}
static void sample(const struct den *q, int i)
{
    unsigned s = (unsigned)sim_choose(1000); if (!q->gauss) return;
    srand(s); double z[PD], x[PD]; for (int k = 0; k < q->d; k++) z[k] = randn(); xof(q, z, x); for (int k = 0; k < q->d && q->tr; k++) {} 
    srand(s); double *o = probability_density_sample(P[i]); for (int k = 0; k < q->d; k++) SIM_CHECK(fabs(o[k] - x[k]) <= 1e-10 * (1 + fabs(x[k])), "den-sample", "density %d: component %d of a sample is %.12g, the normal draws give %.12g", i, k, o[k], x[k]); free(o); sim_probe("den.sample");
}
static void transform(struct den *q, int i)
{
    if (!q->tr) return;
    struct LinearTransform *lt = P[i]->lt; size_t d = (size_t)q->d;
    for (size_t a = 0; a < d; a++) { SIM_CHECK(fabs(lt->b[a] - q->b[a]) < 1e-12, "den-transform", "density %d: offset %zu is %.12g instead of %.12g", i, a, lt->b[a], q->b[a]); for (size_t c = 0; c < d; c++) SIM_CHECK(fabs(lt->A[a + c * d] - (c <= a ? q->L[a + c * d] : 0)) < 1e-9, "den-transform", "density %d: factor %zu,%zu is %.12g instead of %.12g", i, a, c, lt->A[a + c * d], c <= a ? q->L[a + c * d] : 0); }
    if (sim_choose(2)) { struct LinearTransform *c = linear_transform_copy(lt); linear_transform_free(lt); P[i]->lt = lt = c; sim_probe("den.transform_copied"); }
    if (sim_choose(2)) linear_transform_invert(lt);
    if (lt->Ainv) { double x[PD], *y, *z; for (size_t a = 0; a < d; a++) x[a] = sim_double(-2, 2); y = linear_transform_apply(d, d, lt->A, x, lt->b); z = linear_transform_apply(d, d, lt->Ainv, y, lt->binv); for (size_t a = 0; a < d; a++) SIM_CHECK(fabs(z[a] - x[a]) < 1e-8 * (1 + fabs(x[a])), "den-transform", "density %d: the inverse transform takes the image of %.12g to %.12g", i, x[a], z[a]); free(y); free(z); }
}
struct lap { size_t d; double m[PD], H[PD * PD]; };
static double lapf(size_t d, const double *x, double *g, void *a) { struct lap *l = a; double f = 0; for (size_t i = 0; i < d; i++) { double s = 0; for (size_t j = 0; j < d; j++) s += l->H[i + j * d] * (x[j] - l->m[j]); f += 0.5 * s * (x[i] - l->m[i]); if (g) g[i] = s; } return f; }
static double *laph(double *x, void *a) { (void)x; struct lap *l = a; double *h = calloc_double(l->d * l->d); memcpy(h, l->H, l->d * l->d * 8); return h; }
static void laplace(void)
{
    struct lap l = { 0 }; size_t d = l.d = sim_range(1, 2); double L[4] = { 0 }; for (size_t i = 0; i < d; i++) { l.m[i] = sim_flip(1, 4) ? sim_double(-40, 40) : sim_double(-2, 2); for (size_t j = 0; j <= i; j++) L[i + j * d] = i == j ? sim_double(0.7, 1.5) : sim_double(-0.5, 0.5); }
    for (size_t a = 0; a < d; a++) for (size_t c = 0; c < d; c++) for (size_t k = 0; k < d; k++) l.H[a + c * d] += L[a + k * d] * L[c + k * d];
    double st[PD]; for (size_t i = 0; i < d; i++) st[i] = l.m[i] + (sim_flip(1, 3) ? sim_double(-30, 30) : sim_double(-1, 1));
    struct ProbabilityDensity *p = probability_density_laplace(lapf, laph, &l, d, st); double det = 1; for (size_t k = 0; k < d; k++) det *= L[k + k * d];
    for (int t = 0; t < 3; t++) { double x[PD], s = 0; for (size_t i = 0; i < d; i++) x[i] = l.m[i] + sim_double(-1, 1); s = lapf(d, x, NULL, &l); double w = det * exp(-s) / pow(2 * M_PI, 0.5 * (double)d), v = probability_density_eval(p, x); SIM_CHECK(fabs(v - w) <= 2e-3 * det, "den-laplace", "the Laplace approximation of a Gaussian is %.9g instead of %.9g", v, w); }
    probability_density_free(p); sim_probe("den.laplace");
}
void scn_density(int inc)
{
    struct dst *S = sim_state(sizeof *S); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m = sim_heap_mark();
    for (int i = 0; i < 2; i++) {
        struct den *q = &S->q[i]; if (inc == 0) { if (i == 0 || sim_choose(2)) make(q, i); continue; }
        if (!q->on) continue;
        if (!q->saved) { q->on = 0; continue; }
        P[i] = probability_density_load(q->file); SIM_CHECK(P[i], "den-load", "density %d cannot be loaded after the restart", i); if (!q->gauss) function_train_deserialize(q->bytes, &base[i]); sim_probe("den.restarted");
    }
    sim_nontrivial();
    for (size_t n = sim_range(2, 14); n; n--) {
        int i = (int)sim_choose(2); struct den *q = &S->q[i]; if (!q->on) continue;
        switch (sim_choose(9)) {
        case 0: case 1: case 2: eval(q, i); break;
        case 3: deriv(q, i); break;
        case 4: sample(q, i); break;
        case 5: transform(q, i); break;
        case 6: { double *l = probability_density_lb_base(P[i]), *u = probability_density_ub_base(P[i]); for (int k = 0; k < q->d; k++) SIM_CHECK(l[k] == q->lb[k] && u[k] == q->ub[k], "den-bounds", "density %d: bounds of variable %d are %g and %g", i, k, l[k], u[k]); free(l); free(u); break; }
        case 7: if (!q->gauss || sim_flip(1, 3)) { SIM_CHECK(probability_density_save(P[i], q->file) == 1, "den-save", "density %d cannot be saved", i); q->saved = 1; if (sim_choose(2)) { probability_density_free(P[i]); P[i] = probability_density_load(q->file); SIM_CHECK(P[i], "den-load", "density %d cannot be loaded", i); sim_probe("den.loaded"); } } break;
        default: sim_heap_fill(sim_choose(1000)); if (q->saved && inc < 2 && sim_flip(1, 3)) { sim_fault(F_CRASH); sim_crash(); } else if (sim_flip(1, 8)) laplace(); break;
        }
    }
    for (int i = 0; i < 2; i++) if (S->q[i].on) { eval(&S->q[i], i); probability_density_free(P[i]); function_train_free(base[i]); }
    char rp[300]; sim_heap_report_since(m, rp, sizeof rp); SIM_CHECK(sim_heap_live_since(m) == 0, "den-leak", "%zu blocks left: %s", sim_heap_live_since(m), rp);
    sim_sample("%s density of %d variables%s", S->q[0].gauss ? "Gaussian" : "general", S->q[0].d, S->q[0].tr ? ", transformed" : "");
}
