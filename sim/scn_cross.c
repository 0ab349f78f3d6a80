/* Cross approximation driven by the user's function: where it is asked, how often, and what comes back. */
#include "cx.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>

static double tolscale(const struct cx *c) { double m = 0; for (size_t i = 0; i < c->calls; i++) if (fabs(c->v[i]) > m) m = fabs(c->v[i]); return m; }
static struct FunctionTrain *go(struct cx *c)
{
    c->calls = c->batches = 0; c->qh = 0xcbf29ce484222325ULL; c->limit = cx_limit(c);
    struct FunctionTrain *ft = c3approx_do_cross(c->a, c->fw, c->adapt);
    sim_log("%s %s %s dim %zu rank %zu adapt %d maxrank %zu kick %zu maxiter %zu grid %d opt %d het %d: %zu evaluations", c->who, fk_name[c->fk], wk_name[c->wk], c->dim, c->rank, c->adapt, c->maxrank, c->kick, c->maxiter, c->grid, c->optnodes, c->het, c->calls);
    return ft;
}
static void judge(struct cx *c, struct FunctionTrain *ft, int fresh)
{
    double sc = tolscale(c); size_t first = c->calls;
    SIM_CHECK(ft && ft->dim == c->dim && ft->ranks[0] == 1 && ft->ranks[c->dim] == 1, "cross-shape", "result is not a function of %zu variables", c->dim);
    for (size_t k = 1; k < c->dim; k++) {
        SIM_CHECK(ft->ranks[k] == ft->cores[k]->nrows && ft->ranks[k] == ft->cores[k - 1]->ncols, "cross-shape", "rank %zu does not fit the cores", k);
        if (c->adapt) SIM_CHECK(ft->ranks[k] <= c->maxrank, "cross-rank-limit", "rank %zu is %zu, the limit is %zu", k, ft->ranks[k], c->maxrank);
        else if (fresh) SIM_CHECK(ft->ranks[k] == c->ranks[k], "cross-rank", "rank %zu is %zu instead of %zu", k, ft->ranks[k], c->ranks[k]);
    }
    if (c->grid && !c->adapt) {                    /* the last core holds the function on its last fibers: reproduced whatever the function is */
        size_t n = ft->ranks[1] * c->N[0]; double worst = 0; size_t wi = 0;
        for (size_t i = first - n; i < first; i++) { double e = fabs(function_train_eval(ft, c->q[i]) - c->v[i]); if (!(e <= worst)) { worst = e; wi = i; } }
        sim_log("fiber error %.3g scale %.3g", worst, sc);
        SIM_CHECK(worst <= 1e-7 * sc, "cross-fiber", "%s function: at the last evaluated point %zu the result differs by %.3g (scale %.3g)", fk_name[c->fk], wi, worst, sc);
        sim_probe("cross.fiber");
    }
}

/* requests of one pass over all cores and back with these ranks */
static size_t pass(const struct cx *c, const size_t *r) { size_t n = 0; for (size_t k = 0; k < c->dim; k++) n += 2 * r[k] * r[k + 1] * c->N[k]; return n; }
/* the same approximation with other limits: with q passes, no tolerance and no adaptation, or (q == 0) as it is, of the rough function number seed */
static struct FunctionTrain *again(const struct cx *c, size_t q, double seed, size_t *calls)
{
    struct cx *d = xmalloc(sizeof *d); *d = *c; d->q = NULL; d->v = NULL; d->cap = 0; d->seed = seed; if (q) { d->ctol = 0; d->adapt = 0; d->maxiter = q; } d->calls = 0;
    memset(d->o, 0, sizeof d->o); memset(d->ov, 0, sizeof d->ov); memset(d->nd, 0, sizeof d->nd); cx_wrap(d); cx_open(d);
    struct FunctionTrain *f = go(d); *calls = d->calls; cx_close(d); xfree(d); return f;
}
static struct FunctionTrain *limited(const struct cx *c, size_t q, size_t *calls) { return again(c, q, c->seed, calls); }
static int same_ranks(const struct FunctionTrain *f, const size_t *r) { for (size_t k = 1; k < f->dim; k++) if (f->ranks[k] != r[k]) return 0; return 1; }
/* the number of passes is what the limits and tolerances say */
static void passes(struct cx *c, struct FunctionTrain *ft)
{
    if (!c->grid) return;
    size_t r[CXD + 1], n = 0, per; memcpy(r, c->ranks, sizeof r);
    if (c->adapt && (c->fk != FK_ROUGH || c->ctol != 0 || c->rtol > 1e-9)) return;
    function_train_free(limited(c, 1, &per));
    if (c->adapt) {
        if (per != pass(c, r)) return; /* passes are counted differently */
        for (;;) { int up = 0; n += c->maxiter * pass(c, r); for (size_t k = 1; k < c->dim; k++) if (r[k] < c->maxrank) { r[k] = r[k] + c->kick < c->maxrank ? r[k] + c->kick : c->maxrank; up = 1; } if (!up) break; }
        /* by chance one function may have a singular value small enough to be rounded away, which ends the adaptation; three will not */
        size_t calls = c->calls; int ok = calls == n && same_ranks(ft, r);
        for (int t = 1; !ok && t < 3; t++) { struct FunctionTrain *g = again(c, 0, c->seed + 1000.5 * t, &calls); ok = calls == n && same_ranks(g, r); function_train_free(g); }
        SIM_CHECK(ok, "cross-passes", "adaptation in steps of %zu up to rank %zu with %zu passes each asks for %zu values instead of %zu, or ends with other ranks", c->kick, c->maxrank, c->maxiter, calls, n); sim_probe("cross.kicks");
        return;
    }
    n = per; size_t j = c->calls / n;
    SIM_CHECK(c->calls == j * n && j >= 1 && j <= c->maxiter && (j == c->maxiter || c->ctol > 0), "cross-passes", "%zu values asked for in passes of %zu, at most %zu passes, tolerance %g", c->calls, n, c->maxiter, c->ctol);
    if (c->ctol == 0 || !sim_flip(1, 4)) return;
    struct FunctionTrain *f[16] = { NULL }; double tol = c->ctol; uint64_t h = ft_hash(ft); if (j > 15) return;
    for (size_t q = 1; q <= j; q++) { f[q] = limited(c, q, &per); if (q == j) SIM_CHECK(ft_hash(f[q]) == h, "cross-passes", "stopping after %zu passes by tolerance or by limit gives different results", j); }
    for (size_t q = 2; q <= j; q++) {
        double a = function_train_relnorm2diff(f[q], f[q - 1]), b = q > 2 ? function_train_relnorm2diff(f[q], f[q - 2]) : a, m = a > b ? a : b; sim_log("pass %zu changes %g %g", q, a, b);
        if (q == j && j < c->maxiter) { SIM_CHECK(m < tol * 1.000001, "cross-passes", "stopped after pass %zu, which changed the result by %g with tolerance %g", q, m, tol); sim_probe("cross.stop_tol"); }
        if (q > 2 && q < j) SIM_CHECK(m >= tol * 0.999999, "cross-passes", "went on after pass %zu, which changed the result by %g with tolerance %g", q, m, tol);
    }
    for (size_t q = 1; q <= j; q++) function_train_free(f[q]);
}
static void exactness(struct cx *c, struct FunctionTrain *ft)
{
    size_t R = c->fk == FK_CONST ? 1 : c->R;
    for (size_t k = 1; k < c->dim; k++) if (c->ranks[k] < R) return;
    if (!c->grid || (c->fk != FK_CONST && c->fk != FK_LOWRANK)) return;
    double sc = tolscale(c), worst = 0;
    for (int t = 0; t < 30; t++) {
        double x[CXD]; for (size_t k = 0; k < c->dim; k++) x[k] = c->nodes[k][sim_choose(c->N[k])];
        double e = fabs(function_train_eval(ft, x) - cx_f(c, c->which, x)); if (!(e <= worst)) worst = e;
    }
    sim_log("exactness error %.3g scale %.3g", worst, sc);
    double tol = 1e-5 * sc + (c->adapt ? 100 * sqrt(c->rtol * function_train_norm2(ft)) : 0);   /* rounding may drop squared singular values up to tolerance times norm */
    SIM_CHECK(worst <= tol, "cross-exact", "%s function of rank %zu: error %.3g at a node (scale %.3g)", fk_name[c->fk], R, worst, sc);
    sim_probe("cross.exact");
}
/* the wrapper still stands for the whole function afterwards */
static void wrapper_intact(struct cx *c)
{
    double x[3 * CXD], v[3]; size_t n = sim_range(1, 3);
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k < c->dim; k++) x[i * c->dim + k] = c->nodes[k][sim_choose(c->N[k])];
    size_t before = c->calls; c->limit = 0;
    SIM_CHECK(fwrap_eval(n, x, v, c->fw) == 0 && c->calls == before + n, "cross-wrapper", "after the approximation the wrapper evaluates %zu points instead of %zu", c->calls - before, n);
    for (size_t i = 0; i < n; i++) SIM_CHECK(same_bits(v[i], cx_f(c, c->wk == W_MOVEC || c->wk == W_ARRAY ? c->which : 0, x + i * c->dim)), "cross-wrapper", "after the approximation the wrapper gives another value");
}
void scn_cross(int inc)
{
    (void)inc; sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    struct cx *c = xmalloc(sizeof *c); cx_make(c, 0);
    uint64_t m0 = sim_heap_mark(); struct FunctionTrain *keep = NULL; uint64_t kh = 0;
    cx_wrap(c); cx_open(c); sim_nontrivial();
    size_t rounds = sim_range(1, 3); int fresh = 1;
    for (size_t r = 0; r < rounds; r++) {
        struct FunctionTrain *ft = go(c); judge(c, ft, fresh); if (fresh) passes(c, ft); exactness(c, ft); wrapper_intact(c);
        if (keep) { SIM_CHECK(ft_hash(keep) == kh, "cross-alias", "an earlier result changed during a later approximation"); function_train_free(keep); }
        keep = ft; kh = ft_hash(ft);
        if (r + 1 == rounds) break;
        fresh = 0;
        if (sim_flip(1, 2)) { c->fk = (enum fkind)sim_choose(FK_NK); c->seed += 1; sim_probe("cross.second_function"); }       /* another function, index sets kept from the first */
        if (sim_flip(1, 2)) { cx_init_cross(c); fresh = 1; sim_probe("cross.reinit"); }
        if (!fresh && c->adapt) c->adapt = (int)sim_choose(2) | 1;
    }
    if (sim_choose(2)) { cx_close(c); SIM_CHECK(ft_hash(keep) == kh, "cross-alias", "a result changed when the approximation objects were released"); function_train_free(keep); }
    else { function_train_free(keep); cx_close(c); }
    char rep[400]; sim_heap_report_since(m0, rep, sizeof rep);
    SIM_CHECK(sim_heap_live_since(m0) == 0, "cross-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep);
    sim_sample("%s function of %zu variables, rank %zu, %s", fk_name[c->fk], c->dim, c->rank, wk_name[c->wk]); xfree(c);
}
/* every way of supplying the same function gives the same requests and the same result, bit for bit */
void scn_crossforms(int inc)
{
    (void)inc; sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    struct cx *c = xmalloc(sizeof *c), *p = xmalloc(sizeof *p); cx_make(p, 0); p->which = 0; p->nwhich = sim_range(1, 3);
    uint64_t h = 0, q = 0; size_t calls = 0; int n = 0; uint64_t m0 = sim_heap_mark();
    for (int w = 0; w < W_NK; w++) {
        if (w && sim_flip(1, 2)) continue;
        *c = *p; c->wk = (enum wkind)w; if (w != W_MOVEC && w != W_ARRAY) c->nwhich = 1;
        cx_wrap(c); cx_open(c); struct FunctionTrain *ft = go(c); uint64_t fh = ft_hash(ft); sim_log("requests %llx result %llx", (unsigned long long)c->qh, (unsigned long long)fh);
        if (n++) {
            SIM_CHECK(c->calls == calls && c->qh == q, "forms-requests", "form %s is asked for other points than form %s", wk_name[w], wk_name[0]);
            SIM_CHECK(fh == h, "forms-result", "form %s gives another result than form %s", wk_name[w], wk_name[0]);
        }
        h = fh; q = c->qh; calls = c->calls; function_train_free(ft); cx_close(c);
    }
    if (n > 1) sim_nontrivial();
    SIM_CHECK(sim_heap_live_since(m0) == 0, "cross-leak", "%zu blocks left", sim_heap_live_since(m0));
    sim_sample("%s function of %zu variables in %d forms", fk_name[p->fk], p->dim, n); xfree(c); xfree(p);
}

/* ---- function wrappers: fiber sessions against a model -------------------- */
#define WF 40
#define WD 10
#define WN 300
struct wf {
    size_t d; int type; size_t nout, which; struct Fwrap *fw; double x[WN][WD]; size_t xi[WN][WD]; size_t nexp, seen; int expecting, ret; double (*val)(const double *, size_t); const char *who; int multi;
    double fib[WF][WD]; size_t fibi[WF][WD]; size_t fdim, nf, on; int fiber;
};
static double wval(const double *x, size_t d, size_t which) { double s = 0.25 * (double)which; for (size_t k = 0; k < d; k++) s += (double)(k + 1) * x[k]; return s; }
static void expect(struct wf *w, const double *x, size_t which)
{
    SIM_CHECK(w->expecting, "fwrap-unasked", "%s: the function was evaluated although nothing was asked", w->who);
    SIM_CHECK(w->seen < w->nexp, "fwrap-points", "%s: more than %zu points evaluated", w->who, w->nexp);
    SIM_CHECK(which == w->which, "fwrap-which", "%s: output %zu evaluated instead of %zu", w->who, which, w->which);
    for (size_t k = 0; k < w->d; k++) SIM_CHECK(same_bits(x[k], w->x[w->seen][k]), "fwrap-points", "%s: point %zu coordinate %zu is %a instead of %a", w->who, w->seen, k, x[k], w->x[w->seen][k]);
    w->seen++;
}
static double w_scalar(const double *x, void *a) { struct wf *w = a; expect(w, x, w->which); sim_yield(); return wval(x, w->d, w->which); }
static double w_index(const size_t *x, void *a)
{
    struct wf *w = a; SIM_CHECK(w->expecting && w->seen < w->nexp, "fwrap-points", "index function evaluated too often");
    double y[WD]; for (size_t k = 0; k < w->d; k++) { SIM_CHECK(x[k] == w->xi[w->seen][k], "fwrap-points", "%s: index point %zu coordinate %zu is %zu instead of %zu", w->who, w->seen, k, x[k], w->xi[w->seen][k]); y[k] = (double)x[k]; }
    w->seen++; sim_yield(); return wval(y, w->d, w->which);
}
static int w_do(struct wf *w, size_t n, const double *x, double *out, size_t which)
{
    SIM_CHECK(w->seen + n <= w->nexp, "fwrap-points", "%s: %zu points in one call, %zu asked for", w->who, n, w->nexp);
    for (size_t i = 0; i < n; i++) { expect(w, x + i * w->d, which); out[i] = wval(x + i * w->d, w->d, which); }
    sim_yield(); if (w->ret) sim_fault(F_CB_ERROR); return w->ret;
}
static int w_vec(size_t n, const double *x, double *out, void *a) { struct wf *w = a; return w_do(w, n, x, out, w->which); }
static int w_mo(size_t n, size_t which, const double *x, double *out, void *a) { return w_do(a, n, x, out, which); }
struct warg { struct wf *w; size_t i; };
static int w_arr(size_t n, const double *x, double *out, void *a) { struct warg *g = a; return w_do(g->w, n, x, out, g->i); }
static void wsession(void *arg)
{
    struct wf *w = arg; static const char *tn[] = { "general", "general-vec", "python", "mo-vec", "array-vec", "general-index" }; struct warg wa[4];
    int big = sim_flip(1, 8); w->d = sim_range(1, big ? WD : 4); w->type = (int)sim_choose(6); w->nout = w->type == 3 || w->type == 4 ? sim_range(1, 4) : 1; w->which = 0;
    w->fw = fwrap_create(w->d, tn[w->type]); int idx = w->type == 5;
    switch (w->type) {
    case 0: fwrap_set_f(w->fw, w_scalar, w); break;
    case 1: case 2: fwrap_set_fvec(w->fw, w_vec, w); break;
    case 3: fwrap_set_mofvec(w->fw, w_mo, w); break;
    case 5: fwrap_set_findex(w->fw, w_index, w); break;
    default: if (sim_flip(1, 8)) { fwrap_destroy(w->fw); sim_probe("fwrap.unused"); return; }
        fwrap_set_num_funcs(w->fw, w->nout); for (size_t i = 0; i < w->nout; i++) { wa[i].w = w; wa[i].i = i; fwrap_set_func_array(w->fw, i, w_arr, &wa[i]); }
    }
    SIM_CHECK(fwrap_get_d(w->fw) == w->d, "fwrap-dim", "dimension %zu instead of %zu", fwrap_get_d(w->fw), w->d);
    sim_log("%s wrapper %s of %zu variables, %zu outputs", w->who, tn[w->type], w->d, w->nout);
    for (size_t op = 0, ops = sim_range(2, 14); op < ops; op++) {
        sim_yield();
        unsigned o = (unsigned)sim_choose(6);
        if (o == 0 && w->nout > 1) { w->which = sim_choose(w->nout); fwrap_set_which_eval(w->fw, w->which); SIM_CHECK(fwrap_get_which_eval(w->fw) == w->which, "fwrap-which", "selected output not kept"); }
        else if (o == 1 && !w->fiber) {
            w->fdim = sim_choose(w->d); w->nf = sim_range(1, big ? WF : 5); fwrap_initialize_fiber_approx(w->fw, w->fdim, w->nf); w->fiber = 1; w->on = w->nf;
            for (size_t j = 0; j < w->nf; j++) {
                double l[WD], r[WD]; size_t li[WD], ri[WD];
                for (size_t k = 0; k < w->d; k++) { w->fib[j][k] = sim_value(); w->fibi[j][k] = sim_choose(50); if (k < w->fdim) { l[k] = w->fib[j][k]; li[k] = w->fibi[j][k]; } if (k > w->fdim) { r[k - w->fdim - 1] = w->fib[j][k]; ri[k - w->fdim - 1] = w->fibi[j][k]; } }
                size_t nl = w->fdim, nr = w->d - w->fdim - 1;
                fwrap_add_fiber(w->fw, j, nl, nl ? (idx ? (void *)li : (void *)l) : NULL, nr, nr ? (idx ? (void *)ri : (void *)r) : NULL);
                memset(l, 0xee, sizeof l); memset(r, 0xee, sizeof r); memset(li, 0xee, sizeof li); memset(ri, 0xee, sizeof ri);      /* the values are copied */
            }
            sim_probe("fwrap.fibers");
        } else if (o == 2 && w->fiber) { w->on = sim_choose(w->nf); fwrap_set_which_fiber(w->fw, w->on); }
        else if (o == 3 && w->fiber) { fwrap_clean_fiber_approx(w->fw); w->fiber = 0; sim_probe("fwrap.cleaned"); }
        else {
            if (w->fiber && w->on >= w->nf) { w->on = sim_choose(w->nf); fwrap_set_which_fiber(w->fw, w->on); }
            size_t n = sim_range(1, 8); if (big && sim_flip(1, 3)) { n = sim_choose(2) ? 16 * sim_range(1, WN / 16) : sim_range(9, WN); sim_probe("fwrap.many_points"); }
            double *in = xcalloc(n * w->d, 8), *out = xcalloc(n + 1, 8); size_t *ini = xcalloc(n * w->d, sizeof *ini);
            for (size_t i = 0; i < n; i++) {
                if (w->fiber) {
                    in[i] = sim_value(); ini[i] = sim_choose(50);
                    for (size_t k = 0; k < w->d; k++) { w->x[i][k] = k == w->fdim ? in[i] : w->fib[w->on][k]; w->xi[i][k] = k == w->fdim ? ini[i] : w->fibi[w->on][k]; }
                } else for (size_t k = 0; k < w->d; k++) { w->x[i][k] = in[i * w->d + k] = sim_value(); w->xi[i][k] = ini[i * w->d + k] = sim_choose(50); }
            }
            w->nexp = n; w->seen = 0; w->expecting = 1; w->ret = w->type && w->type != 5 && sim_flip(1, 10) ? (int)sim_range(1, 9) - 5 : 0; out[n] = 4.5;
            int r = fwrap_eval(n, idx ? (void *)ini : (void *)in, out, w->fw); w->expecting = 0;
            SIM_CHECK(w->seen == n, "fwrap-points", "%s: %zu of %zu points evaluated", w->who, w->seen, n);
            SIM_CHECK((r != 0) == (w->ret != 0), "fwrap-status", "%s: status %d returned, the function reported %d", w->who, r, w->ret);
            SIM_CHECK(out[n] == 4.5, "fwrap-overrun", "value written behind the results");
            for (size_t i = 0; i < n && !w->ret; i++) { double y[WD]; for (size_t k = 0; k < w->d; k++) y[k] = idx ? (double)w->xi[i][k] : w->x[i][k]; SIM_CHECK(same_bits(out[i], wval(y, w->d, w->which)), "fwrap-value", "%s: value %zu is %a", w->who, i, out[i]); }
            xfree(in); xfree(out); xfree(ini);
            sim_log("%s eval %zu%s -> %d", w->who, n, w->fiber ? " on a fiber" : "", r);
        }
    }
    if (w->fiber) fwrap_clean_fiber_approx(w->fw);
    fwrap_destroy(w->fw);
}
void scn_fwrap(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    size_t nt = sim_flip(1, 2) ? 2 : 1; struct wf *w[2]; void *a[2]; sim_task_fn fn[2] = { wsession, wsession };
    for (size_t i = 0; i < nt; i++) { a[i] = w[i] = xcalloc(1, sizeof **w); w[i]->who = i ? "B" : "A"; }
    sim_nontrivial(); if (nt == 2) { sim_tasks_run(2, fn, a); sim_probe("fwrap.two_interleaved"); } else wsession(a[0]);
    SIM_CHECK(sim_heap_live_since(m0) == 0, "fwrap-leak", "%zu blocks left", sim_heap_live_since(m0));
    sim_sample("%zu wrapper session(s), first of %zu variables", nt, w[0]->d); for (size_t i = 0; i < nt; i++) xfree(w[i]);
}

/* ---- a function that reports a failure never leads to a result ------------- */
struct failing { size_t batches, fail_at; int failed; double lb, ub; };
static int ff_vec(size_t n, const double *x, double *out, void *a)
{
    struct failing *f = a; f->batches++;
    for (size_t i = 0; i < n; i++) { SIM_CHECK(x[i] >= f->lb - 1e-12 && x[i] <= f->ub + 1e-12, "approx-outside", "function requested at %a outside [%a,%a]", x[i], f->lb, f->ub); out[i] = sin(3 * x[i]) + 1.5; }
    if (f->batches == f->fail_at) { f->failed = 1; sim_fault(F_CB_ERROR); sim_allow_failstop(1); return (int)sim_range(1, 7) - 8 * (int)sim_choose(2); }
    return 0;
}

static int ff_mo(size_t n, size_t which, const double *x, double *out, void *a) { int r = ff_vec(n, x, out, a); for (size_t i = 0; i < n; i++) out[i] += (double)which; return r; }
void scn_cbfail(int inc)
{
    (void)inc; sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    sim_nontrivial();
    if (sim_flip(1, 2)) {
        struct cx *c = xmalloc(sizeof *c); cx_make(c, 0); if (c->wk == W_GENERAL) c->wk = W_VEC;
        c->fail_at = sim_range(1, sim_flip(1, 2) ? 12 : 200);
        cx_wrap(c); cx_open(c); size_t b = 0; struct FunctionTrain *ft = NULL;
        for (int r = 0; r < 2; r++) { ft = go(c); b += c->batches; SIM_CHECK(!c->failed || ft == NULL, "failure-ignored", "the function reported a failure in call %zu, yet a cross approximation was returned", c->fail_at); if (ft) function_train_free(ft); }
        sim_probe("cbfail.not_reached"); sim_sample("cross approximation, failure planned at call %zu of %zu", c->fail_at, b); cx_close(c); xfree(c); return;
    }
    struct failing *f = xcalloc(1, sizeof *f); f->lb = sim_double(-2, 0); f->ub = f->lb + sim_double(0.5, 3); f->fail_at = sim_range(1, sim_flip(1, 2) ? 6 : 60); sim_nontrivial();
    size_t N = sim_range(3, 12); double *x = linspace(f->lb, f->ub, N); x[N - 1] = f->ub; struct OneApproxOpts *o = NULL; unsigned kind = (unsigned)sim_choose(6); size_t k; void *res = NULL;
    static const char *kn[] = { "linear elements", "adaptive linear elements", "constant elements", "Legendre", "Chebyshev", "piecewise" };
    switch (kind) {
    case 0: o = one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc(N, x)); break;
    case 1: o = one_approx_opts_alloc(LINELM, lin_elem_exp_aopts_alloc_adapt(sim_choose(2) ? N : 0, x, f->lb, f->ub, 1e-2, (f->ub - f->lb) / 40)); break;
    case 2: o = one_approx_opts_alloc(CONSTELM, const_elem_exp_aopts_alloc(N, x)); break;
    case 5: { struct PwPolyOpts *p = pw_poly_opts_alloc(LEGENDRE, f->lb, f->ub); pw_poly_opts_set_minsize(p, 0.1); pw_poly_opts_set_maxorder(p, 5); pw_poly_opts_set_tol(p, 1e-3); pw_poly_opts_set_nregions(p, sim_range(1, 3)); o = one_approx_opts_alloc(PIECEWISE, p); break; }
    default: { struct OpeOpts *p = ope_opts_alloc(kind == 3 ? LEGENDRE : CHEBYSHEV); ope_opts_set_lb(p, f->lb); ope_opts_set_ub(p, f->ub); ope_opts_set_start(p, sim_range(2, 6)); ope_opts_set_maxnum(p, 12); ope_opts_set_tol(p, sim_choose(2) ? 1e-12 : 1e-2); ope_opts_set_coeffs_check(p, sim_range(0, 2)); o = one_approx_opts_alloc(POLYNOMIAL, p); }
    }
    k = sim_choose(3); struct Fwrap *fw;
    if (k == 0) { fw = fwrap_create(1, "general-vec"); fwrap_set_fvec(fw, ff_vec, f); struct GenericFunction *g = generic_function_approximate1d(o->fc, o->aopts, fw); res = g; if (!f->failed) generic_function_free(g); }
    else {
        fw = fwrap_create(1, "mo-vec"); fwrap_set_mofvec(fw, ff_mo, f); size_t d = sim_range(2, 4); struct MultiApproxOpts *m = multi_approx_opts_alloc(d); multi_approx_opts_set_all_same(m, o);
        struct FunctionTrain *ft = k == 1 ? function_train_rankone(m, fw) : function_train_initsum(m, fw); res = ft; if (!f->failed) function_train_free(ft); multi_approx_opts_free(m);
    }
    SIM_CHECK(!f->failed || res == NULL, "failure-ignored", "%s: the function reported a failure in call %zu, yet an approximation was returned", kn[kind], f->fail_at);
    sim_probe("cbfail.not_reached"); sim_sample("%s, failure planned at call %zu of %zu", kn[kind], f->fail_at, f->batches);
    fwrap_destroy(fw); one_approx_opts_free_deep(&o); free(x); xfree(f);
}

/* ---- cross approximation by hand: arguments with a limit per dimension, index sets, fiber options, and copies of all of them ---- */
static struct FunctionTrain *byhand(struct cx *c, struct FtCrossArgs *fa, struct CrossIndex **l, struct CrossIndex **r, struct MultiApproxOpts *mo, struct FiberOptArgs *fo, struct FunctionTrain *ref)
{
    c->calls = c->batches = 0; c->qh = 0xcbf29ce484222325ULL; c->limit = 4 * cx_limit(c);
    return c->adapt || sim_flip(1, 2) ? ftapprox_cross_rankadapt(c->fw, fa, l, r, mo, fo, ref) : ftapprox_cross(c->fw, fa, l, r, mo, fo, ref);
}
void scn_crossargs(int inc)
{
    (void)inc; sim_step_limit(3000000000ULL, "no-termination"); sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    struct cx *c = xmalloc(sizeof *c); cx_make(c, 1); size_t d = c->dim, nmin = CXN, lim[CXD] = { 0 }, r[CXD + 1], n = 0, top = c->maxrank;
    for (size_t k = 0; k < d; k++) if (c->N[k] < nmin) nmin = c->N[k];
    for (size_t k = 1; k < d; k++) { lim[k] = sim_flip(1, 3) ? c->maxrank : c->ranks[k] + sim_choose(5); if (lim[k] >= nmin) lim[k] = nmin - 1; if (sim_flip(1, 8) && lim[k] > 1) lim[k] = sim_range(1, lim[k]); if (lim[k] > top) top = lim[k]; }
    c->maxrank = top; c->optnodes = 1;
    uint64_t m0 = sim_heap_mark(); cx_wrap(c); cx_open(c); sim_nontrivial();
    struct MultiApproxOpts *mo = multi_approx_opts_alloc(d); for (size_t k = 0; k < d; k++) multi_approx_opts_set_dim(mo, k, c->o[k]);
    struct FiberOptArgs *fo; if (sim_choose(2)) { fo = fiber_opt_args_init(d); for (size_t j = d; j--;) fiber_opt_args_set_dim(fo, j, c->ov[j]); } else fo = fiber_opt_args_bf(d, c->ov);
    for (size_t k = 0; k < d; k++) SIM_CHECK(fiber_opt_args_get_opts(fo, k) == (void *)c->ov[k], "cross-args", "the search options of variable %zu are not those that were set", k);
    struct FtCrossArgs *fa = ft_cross_args_alloc(d, c->het ? 1 : c->rank); if (c->het) for (size_t k = 1; k < d; k++) ft_cross_args_set_rank(fa, k, c->ranks[k]);
    ft_cross_args_set_maxrank_all(fa, top); for (size_t k = 1; k < d; k++) ft_cross_args_set_maxrank_ind(fa, lim[k], k - 1);
    ft_cross_args_set_kickrank(fa, c->kick); ft_cross_args_set_maxiter(fa, c->maxiter); ft_cross_args_set_cross_tol(fa, c->ctol); ft_cross_args_set_round_tol(fa, c->rtol); ft_cross_args_set_verbose(fa, 0);
    if (c->adapt) ft_cross_args_set_adaptation(fa); else ft_cross_args_set_no_adaptation(fa);
    SIM_CHECK(!memcmp(ft_cross_args_get_ranks(fa), c->ranks, (d + 1) * sizeof(size_t)), "cross-args", "the starting ranks are not those that were set");
    double *st[CXD]; for (size_t k = 0; k < d; k++) { size_t ns = c->rank > 4 ? c->rank : 4; st[k] = xmalloc(ns * 8); for (size_t j = 0; j < ns; j++) st[k][j] = c->nodes[k][(j * (c->N[k] - 1)) / (ns - 1)]; }
    struct CrossIndex *l[CXD] = { NULL }, *rt[CXD] = { NULL }, *l2[CXD], *r2[CXD]; memcpy(r, c->ranks, sizeof r);
    cross_index_array_initialize(d, rt, 0, 1, r, (void **)st, sizeof(double)); cross_index_array_initialize(d, l, 0, 0, r + 1, (void **)st, sizeof(double)); for (size_t k = 0; k < d; k++) xfree(st[k]);
    for (size_t k = 0; k < d; k++) { l2[k] = cross_index_copy(l[k]); r2[k] = cross_index_copy(rt[k]); }
    struct FtCrossArgs *fb = ft_cross_args_copy(fa); struct FunctionTrain *ref = function_train_constant(1.0, mo);
    struct FunctionTrain *ft = byhand(c, fa, l, rt, mo, fo, ref);
    sim_log("dim %zu adapt %d kick %zu maxiter %zu %s: %zu evaluations", d, c->adapt, c->kick, c->maxiter, fk_name[c->fk], c->calls);
    judge(c, ft, 0);
    for (size_t k = 1; k < d; k++) { size_t m = c->adapt && lim[k] > c->ranks[k] ? lim[k] : c->ranks[k]; SIM_CHECK(ft->ranks[k] <= m && (c->adapt || ft->ranks[k] == m), "cross-rank-limit", "rank %zu is %zu, the limit set for it is %zu", k, ft->ranks[k], m); if (ft->ranks[k] == lim[k]) sim_probe("cross.at_its_limit"); }
    exactness(c, ft);
    if (c->adapt && c->fk == FK_ROUGH && c->ctol == 0 && c->rtol <= 1e-9) {
        for (;;) { int up = 0; n += c->maxiter * pass(c, r); for (size_t k = 1; k < d; k++) if (r[k] < lim[k]) { r[k] = r[k] + c->kick < lim[k] ? r[k] + c->kick : lim[k]; up = 1; } if (!up) break; }
        if (same_ranks(ft, r)) { SIM_CHECK(c->calls == n, "cross-passes", "adaptation in steps of %zu asks for %zu values instead of %zu", c->kick, c->calls, n); sim_probe("cross.kicks_each"); }
    }
    size_t calls = c->calls; uint64_t q = c->qh, h = ft_hash(ft);
    if (sim_choose(2)) { ft_cross_args_free(fa); fa = NULL; for (size_t k = 0; k < d; k++) { cross_index_free(l[k]); cross_index_free(rt[k]); l[k] = rt[k] = NULL; } }
    struct FunctionTrain *f2 = byhand(c, fb, l2, r2, mo, fo, ref);
    SIM_CHECK(c->calls == calls && c->qh == q, "cross-args", "a copy of the arguments and index sets asks for other points: %zu instead of %zu", c->calls, calls);
    SIM_CHECK(ft_hash(f2) == h && ft_hash(ft) == h, "cross-args", "a copy of the arguments and index sets gives another result"); wrapper_intact(c);
    function_train_free(ft); function_train_free(f2); function_train_free(ref); ft_cross_args_free(fa); ft_cross_args_free(fb); for (size_t k = 0; k < d; k++) { cross_index_free(l[k]); cross_index_free(rt[k]); cross_index_free(l2[k]); cross_index_free(r2[k]); }
    fiber_opt_args_free(fo); multi_approx_opts_free(mo); cx_close(c);
    char rep[400]; sim_heap_report_since(m0, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m0) == 0, "cross-leak", "%zu blocks left: %s", sim_heap_live_since(m0), rep);
    sim_sample("%s function of %zu variables with limits %zu %zu", fk_name[c->fk], d, lim[1], lim[2]); xfree(c);
}
