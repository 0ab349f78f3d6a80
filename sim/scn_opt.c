/* Optimisers under hostile but legal user functions: noise, plateaus, jumps,
 * infinite walls, misleading derivatives, undefined values. */
#include "gen.h"
#include <float.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>

#define OD 16
#define SN 512
static size_t vars(void) { if (!sim_flip(1, 12)) return sim_range(1, 5); sim_probe("opt.many_variables"); return sim_range(6, OD); }
enum okind { O_QUAD, O_ROSEN, O_LINEAR, O_PLATEAU, O_QUARTIC, O_NONCONVEX, O_JUMP, O_WALL, O_LIE, O_NOISE, O_NAN, O_NK };
static const char *oname[] = { "quadratic", "curved valley", "linear", "plateau", "quartic", "nonconvex", "jump", "infinite wall", "misleading gradient", "noise", "undefined value" };
struct ev { double x[OD], g[OD], f; int hasg; };
struct obj {
    enum okind k; size_t d; double c[OD], s[OD], scale, off; uint64_t nseed; size_t nan_at; int gsign[OD]; double gfac;
    const double *lb, *ub; int bounded;
    struct ev *e; size_t n, cap, ng, limit; int reent; struct obj *inner; int quiet;
};
static const char *alg_name(enum c3opt_alg a) { return a == BFGS ? "bfgs" : a == LBFGS ? "lbfgs" : a == BATCHGRAD ? "gradient" : a == BRUTEFORCE ? "brute force" : "sgd"; }

static double base(const struct obj *o, const double *x, double *g)
{
    double f = o->off; size_t d = o->d; double dummy[OD]; if (!g) g = dummy;
    for (size_t i = 0; i < d; i++) g[i] = 0;
    switch (o->k) {
    case O_LINEAR: for (size_t i = 0; i < d; i++) { f += o->scale * o->s[i] * x[i]; g[i] = o->scale * o->s[i]; } break;
    case O_PLATEAU: for (size_t i = 0; i < d; i++) { double t = fabs(x[i] - o->c[i]) - 0.5; if (t > 0) { f += o->scale * o->s[i] * t * t; g[i] = 2 * o->scale * o->s[i] * t * (x[i] > o->c[i] ? 1 : -1); } } break;
    case O_QUARTIC: for (size_t i = 0; i < d; i++) { double t = x[i] - o->c[i]; f += o->scale * o->s[i] * t * t * t * t; g[i] = 4 * o->scale * o->s[i] * t * t * t; } break;
    case O_NONCONVEX: for (size_t i = 0; i < d; i++) { double t = x[i] - o->c[i]; f += o->scale * (0.1 * t * t + sin(3 * t) * o->s[i]); g[i] = o->scale * (0.2 * t + 3 * cos(3 * t) * o->s[i]); } break;
    case O_ROSEN:
        for (size_t i = 0; i < d; i++) { double t = x[i] - o->c[i]; f += o->scale * t * t; g[i] += 2 * o->scale * t; }
        for (size_t i = 0; i + 1 < d; i++) { double t = x[i + 1] - x[i] * x[i]; f += 10 * o->scale * t * t; g[i + 1] += 20 * o->scale * t; g[i] -= 40 * o->scale * t * x[i]; }
        break;
    default: for (size_t i = 0; i < d; i++) { double t = x[i] - o->c[i]; f += o->scale * o->s[i] * t * t; g[i] = 2 * o->scale * o->s[i] * t; }
    }
    return f;
}
static double call(struct obj *o, size_t d, const double *x, double *grad)
{
    SIM_CHECK(d == o->d, "opt-dim", "objective called with %zu variables instead of %zu", d, o->d);
    for (size_t i = 0; i < d; i++) {
        if (!o->bounded && !(fabs(x[i]) < 1e60)) { sim_allow_failstop(1); sim_probe("opt.diverged"); exit(1); }   /* diverged from an unbounded start: the user's function gives up */
        SIM_CHECK(isfinite(x[i]), "opt-nonfinite-point", "objective (%s) evaluated at a non-finite point, coordinate %zu, evaluation %zu", oname[o->k], i, o->n);
        if (o->bounded) SIM_CHECK(x[i] >= o->lb[i] && x[i] <= o->ub[i], "opt-out-of-bounds", "objective (%s) evaluated at coordinate %zu = %a outside [%a,%a], evaluation %zu", oname[o->k], i, x[i], o->lb[i], o->ub[i], o->n);
    }
    SIM_CHECK(o->n < o->limit, "opt-unbounded", "more than %zu evaluations of the objective (%s)", o->limit, oname[o->k]);
    double gg[OD], f = base(o, x, gg);
    if (o->k == O_JUMP) { double t = 0; for (size_t i = 0; i < d; i++) t += x[i] * o->gfac; if (fmod(fabs(t), 1.0) > 0.5) { f += o->scale; sim_fault(F_CB_JUMP); } }
    if (o->k == O_WALL) { double r = 0; for (size_t i = 0; i < d; i++) r += (x[i] - o->c[i]) * (x[i] - o->c[i]); if (o->n > 0 && r > o->gfac) { f = INFINITY; sim_fault(F_CB_INF); } }
    if (o->k == O_LIE) { for (size_t i = 0; i < d; i++) gg[i] *= o->gsign[i] * o->gfac; sim_fault(F_CB_NOISE); }
    if (o->k == O_NOISE) { uint64_t h = (o->nseed + o->n) * 0x9e3779b97f4a7c15ULL; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32; f += o->gfac * ((double)(h % 2001) / 1000.0 - 1.0); for (size_t i = 0; i < d; i++) gg[i] += o->gfac * ((double)((h >> (7 * (i + 1)) % 50) % 2001) / 1000.0 - 1.0); sim_fault(F_CB_NOISE); }
    if (o->k == O_NAN && o->n == o->nan_at) { f = NAN; sim_fault(F_CB_NAN); sim_allow_failstop(1); }
    if (o->n == o->cap) { o->cap = o->cap ? 2 * o->cap : 256; o->e = __real_realloc(o->e, o->cap * sizeof *o->e); }
    struct ev *e = &o->e[o->n++]; memcpy(e->x, x, d * 8); e->f = f; e->hasg = grad != NULL; memcpy(e->g, gg, sizeof gg);
    if (grad) { o->ng++; memcpy(grad, gg, d * 8); }
    if (!o->quiet && o->n < 40) sim_log("eval %zu f=%a x0=%a%s", o->n, f, x[0], grad ? " g" : "");
    if (o->inner && o->n == 2) { struct obj *in = o->inner; o->inner = NULL; in->reent = 1; }
    sim_yield();
    return f;
}
static double cb(size_t d, const double *x, double *grad, void *arg) { return call(arg, d, x, grad); }

struct setup { enum c3opt_alg alg; enum c3opt_ls_alg ls; size_t maxiter, lsmax, nvec; double gtol, ftol, xtol, lb[OD], ub[OD], x0[OD], alpha, beta; int scale, depr, bounded, trace; };

static void mk(struct obj *o, struct setup *s, int hostile)
{
    memset(o, 0, sizeof *o); memset(s, 0, sizeof *s);
    o->d = vars(); o->k = (enum okind)sim_choose(hostile ? O_NK : O_JUMP);
    o->scale = pow(10.0, (double)sim_choose(5) - 2); o->off = sim_flip(1, 2) ? sim_double(-3, 3) : 0; o->gfac = sim_double(0.1, 2); o->nseed = sim_choose(1000); o->nan_at = sim_choose(40);
    s->bounded = sim_flip(2, 3);
    for (size_t i = 0; i < o->d; i++) {
        o->c[i] = sim_double(-2, 2); o->s[i] = sim_double(0.1, 2); o->gsign[i] = sim_choose(2) ? 1 : -1;
        s->lb[i] = -1e30; s->ub[i] = 1e30; s->x0[i] = sim_double(-3, 3);
        if (s->bounded) {
            double w = sim_flip(1, 12) ? 0 : sim_double(0.01, 4); s->lb[i] = sim_double(-3, 2); s->ub[i] = s->lb[i] + w;
            switch (sim_choose(4)) { case 0: s->x0[i] = s->lb[i]; break; case 1: s->x0[i] = s->ub[i]; break; default: s->x0[i] = s->lb[i] + w * sim_double(0, 1); if (s->x0[i] > s->ub[i]) s->x0[i] = s->ub[i]; }
        }
    }
    if (o->k == O_LINEAR && !s->bounded) o->k = O_QUAD;       /* unbounded below */
    if (o->k == O_LIE && !s->bounded) o->k = O_NONCONVEX;
    o->lb = s->lb; o->ub = s->ub; o->bounded = s->bounded;
    s->alg = (enum c3opt_alg[]){ BFGS, LBFGS, BATCHGRAD }[sim_choose(3)]; s->ls = (enum c3opt_ls_alg[]){ WEAKWOLFE, BACKTRACK, STRONGWOLFE }[sim_choose(3)];
    s->maxiter = sim_flip(1, 20) ? sim_range(61, 400) : sim_range(1, 60); s->lsmax = (size_t[]){ 500, 2, 5, 20, 100 }[sim_choose(5)]; s->nvec = sim_flip(1, 2) ? 40 : sim_range(1, 6);
    s->gtol = (double[]){ 1e-12, 0, 1e-3, 1e-30 }[sim_choose(4)]; s->ftol = (double[]){ 1e-8, 0, 1e-3, 1e-14 }[sim_choose(4)]; s->xtol = (double[]){ 1e-8, 0, 1e-3, 1e-20 }[sim_choose(4)];
    s->alpha = sim_flip(1, 2) ? 0 : sim_double(0.001, 0.45); s->beta = sim_flip(1, 2) ? 0 : sim_double(0.5, 0.95);
    s->scale = (int)sim_choose(2); s->depr = (int)sim_choose(2); s->trace = (int)sim_choose(2);
    o->limit = (s->maxiter + 3) * (2 * s->lsmax + 400) + 100;
}
static struct c3Opt *mkopt(struct obj *o, struct setup *s)
{
    struct c3Opt *opt; int order = (int)sim_choose(2);
    if (s->depr) opt = c3opt_alloc(s->alg, o->d); else { opt = c3opt_create(s->alg); c3opt_set_nvars(opt, o->d); }
    if (order && s->trace) c3opt_set_storage_options(opt, 1, 1, 1);
    c3opt_set_maxiter(opt, s->maxiter); c3opt_set_gtol(opt, s->gtol); c3opt_set_relftol(opt, s->ftol); c3opt_set_absxtol(opt, s->xtol); c3opt_set_verbose(opt, 0);
    c3opt_ls_set_alg(opt, s->ls); c3opt_ls_set_maxiter(opt, s->lsmax); if (s->alpha > 0) c3opt_ls_set_alpha(opt, s->alpha); if (s->beta > 0) c3opt_ls_set_beta(opt, s->beta);
    c3opt_set_nvectors_store(opt, s->nvec); c3opt_set_lbfgs_scale(opt, s->scale);
    if (s->bounded) { c3opt_add_lb(opt, s->lb); c3opt_add_ub(opt, s->ub); }
    if (!order && s->trace) c3opt_set_storage_options(opt, 1, 1, 1);
    c3opt_add_objective(opt, cb, o);
    sim_log("%s ls %d maxiter %zu lsmax %zu nvec %zu tol %g %g %g d %zu %s scale %g bounded %d trace %d", alg_name(s->alg), (int)s->ls, s->maxiter, s->lsmax, s->nvec, s->gtol, s->ftol, s->xtol, o->d, oname[o->k], o->scale, s->bounded, s->trace);
    return opt;
}
static int in_history(const struct obj *o, const double *x, double f)
{
    for (size_t i = o->n; i-- > 0;) if (same_bits(o->e[i].f, f) && memcmp(o->e[i].x, x, o->d * 8) == 0) return 1;
    return 0;
}
static void obs_run(struct obj *o, struct setup *s, struct c3Opt *opt, double *x, double *f, int *ret)
{
    memcpy(x, s->x0, o->d * 8); *f = -12345.678; o->n = o->ng = 0;
    if (o->k == O_WALL && s->alg != BATCHGRAD) o->e = o->e;
    *ret = c3opt_minimize(opt, x, f);
    sim_log("return %d f=%a evals %zu grads %zu iters %zu", *ret, *f, o->n, o->ng, c3opt_get_niters(opt));
    sim_log_doubles("  x", o->d, x);
}
/* parse the printed trace */
static size_t trace(struct c3Opt *opt, size_t d, double *tf, double *tg, double *tx, size_t max)
{
    FILE *fp = fopen("trace", "w"); c3opt_print_stored_values(opt, fp, 3, 17); fclose(fp);
    size_t len = sim_disk_size("trace"); char *t = xcalloc(len + 1, 1); memcpy(t, sim_disk_data("trace"), len);
    char *p = strchr(t, '\n'); size_t n = 0; SIM_CHECK(p, "opt-trace", "trace has no header"); p++;
    while (*p) {
        char *e; size_t it = strtoul(p, &e, 10); SIM_CHECK(e != p && it == n && n < max, "opt-trace", "trace line %zu malformed", n); p = e;
        tf[n] = strtod(p, &e); p = e; for (size_t i = 0; i < d; i++) { tg[n * d + i] = strtod(p, &e); p = e; } for (size_t i = 0; i < d; i++) { tx[n * d + i] = strtod(p, &e); p = e; }
        while (*p == ' ') p++;
        SIM_CHECK(*p == '\n', "opt-trace", "trace line %zu malformed", n); p++; n++;
    }
    xfree(t); return n;
}

static int near(size_t d, const double *a, const double *b)      /* the quasi-Newton update leaves rounding in the gradient it keeps */
{
    double m = 0, e = 0; for (size_t i = 0; i < d; i++) { m = fmax(m, fabs(a[i])); e = fmax(e, fabs(a[i] - b[i])); }
    return e <= 1e-6 * m + 1e-9;
}
/* evaluations stay inside the box, whatever the objective does */
void scn_optbounds(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    struct obj o; struct setup s; mk(&o, &s, 1); struct c3Opt *opt = mkopt(&o, &s); sim_nontrivial(); if (s.bounded) sim_probe("opt.bounded"); sim_allow_failstop(1);
    double x[OD], f; int ret; obs_run(&o, &s, opt, x, &f, &ret);
    for (size_t i = 0; i < o.d && s.bounded; i++) SIM_CHECK(x[i] >= s.lb[i] && x[i] <= s.ub[i], "opt-out-of-bounds", "returned coordinate %zu = %a outside [%a,%a]", i, x[i], s.lb[i], s.ub[i]);
    for (size_t i = 0; i < o.d; i++) if (x[i] == s.lb[i] || x[i] == s.ub[i]) { sim_probe("opt.ends_on_bound"); break; }
    c3opt_free(opt); sim_sample("%s on %s, %zu evaluations", alg_name(s.alg), oname[o.k], o.n);
}
/* what is returned is what was seen */
void scn_opttruth(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    struct obj o; struct setup s; mk(&o, &s, 1); if (s.maxiter <= 60) s.maxiter = 1 + s.maxiter % 25; struct c3Opt *opt = mkopt(&o, &s); c3opt_set_maxiter(opt, s.maxiter); sim_nontrivial();
    double x[OD], f; int ret; obs_run(&o, &s, opt, x, &f, &ret);
    SIM_CHECK(in_history(&o, x, f), "opt-value", "%s on %s returns %a, never observed at the returned point", alg_name(s.alg), oname[o.k], f);
    SIM_CHECK(c3opt_get_nevals(opt) == o.n && c3opt_get_ngvals(opt) == o.ng, "opt-counters", "counters say %zu evaluations and %zu gradients, there were %zu and %zu", c3opt_get_nevals(opt), c3opt_get_ngvals(opt), o.n, o.ng);
    size_t it = c3opt_get_niters(opt);
    SIM_CHECK(it >= 1 && it <= s.maxiter + 2, "opt-iterations", "%zu iterates recorded with a limit of %zu iterations", it, s.maxiter);
    SIM_CHECK(ret == C3OPT_MAXITER_REACHED || ret == C3OPT_FTOL_REACHED || ret == C3OPT_XTOL_REACHED || ret == C3OPT_GTOL_REACHED, "opt-code", "return code %d", ret);
    if (ret == C3OPT_MAXITER_REACHED) { SIM_CHECK(it >= s.maxiter, "opt-code", "iteration limit %zu reported after %zu iterates", s.maxiter, it); sim_probe("opt.maxiter"); }
    if (s.trace) {
        size_t d = o.d, max = it + 4; double *tf = xcalloc(max, 8), *tg = xcalloc(max * d, 8), *tx = xcalloc(max * d, 8);
        size_t n = trace(opt, d, tf, tg, tx, max);
        SIM_CHECK(n == it, "opt-trace", "%zu iterates, %zu trace lines", it, n);
        SIM_CHECK(memcmp(tx, s.x0, d * 8) == 0 && same_bits(tf[0], o.e[0].f), "opt-trace", "trace does not begin at the start point");
        SIM_CHECK(memcmp(tx + (n - 1) * d, x, d * 8) == 0 && same_bits(tf[n - 1], f), "opt-trace", "trace does not end at the returned point");
        for (size_t i = 0; i < n; i++) {
            SIM_CHECK(same_bits(tf[i], c3opt_get_stored_function(opt, i)), "opt-trace", "stored function value %zu differs from the printed one", i);
            SIM_CHECK(in_history(&o, tx + i * d, tf[i]), "opt-trace", "%s on %s: iterate %zu of the trace pairs a value with a point where it was not observed", alg_name(s.alg), oname[o.k], i);
            size_t k; for (k = 0; k < o.n; k++) if (o.e[k].hasg && memcmp(o.e[k].x, tx + i * d, d * 8) == 0 && near(d, o.e[k].g, tg + i * d)) break;
            SIM_CHECK(k < o.n, "opt-trace", "%s on %s: iterate %zu of the trace has a gradient not observed at its point", alg_name(s.alg), oname[o.k], i);
        }
        for (size_t i = 1; i + 1 < n; i++) {             /* a run goes on only as long as its criteria are not met */
            double df = fabs(tf[i] - tf[i - 1]); if (fabs(tf[i - 1]) > 1e-10) df /= fabs(tf[i - 1]);
            SIM_CHECK(!(df < s.ftol * (1 - 1e-9)), "opt-code", "%s goes on after iterate %zu although the value changed by %g only (tolerance %g)", alg_name(s.alg), i, df, s.ftol);
            double dx = 0, gg = 0; int onb = 0; for (size_t k = 0; k < d; k++) { dx += pow(tx[i * d + k] - tx[(i - 1) * d + k], 2); gg += tg[i * d + k] * tg[i * d + k]; if (tx[i * d + k] <= s.lb[k] || tx[i * d + k] >= s.ub[k]) onb = 1; }
            if (s.alg != BFGS || onb) SIM_CHECK(!(sqrt(dx) < s.xtol * (1 - 1e-9)), "opt-code", "%s goes on after iterate %zu although it moved by %g only (tolerance %g)", alg_name(s.alg), i, sqrt(dx), s.xtol);
            if (s.alg == BATCHGRAD && !onb) SIM_CHECK(!(sqrt(gg) < s.gtol * (1 - 1e-9)), "opt-code", "%s goes on after iterate %zu although the gradient is %g (tolerance %g)", alg_name(s.alg), i, sqrt(gg), s.gtol);
        }
        if (n >= 2 && ret == C3OPT_GTOL_REACHED) for (size_t k = 0; k < d; k++) SIM_CHECK(tx[(n - 1) * d + k] > s.lb[k] && tx[(n - 1) * d + k] < s.ub[k], "opt-code", "stop on the gradient reported on a bound");
        if (n >= 2 && ret != C3OPT_MAXITER_REACHED) {
            double df = fabs(tf[n - 1] - tf[n - 2]), dx = 0; if (fabs(tf[n - 2]) > 1e-10) df /= fabs(tf[n - 2]);
            for (size_t i = 0; i < d; i++) dx += pow(tx[(n - 1) * d + i] - tx[(n - 2) * d + i], 2);
            dx = sqrt(dx);
            if (ret == C3OPT_FTOL_REACHED) { SIM_CHECK(df < s.ftol * (1 + 1e-9), "opt-code", "stop on value change %g with tolerance %g", df, s.ftol); sim_probe("opt.ftol"); }
            if (ret == C3OPT_XTOL_REACHED) { SIM_CHECK(dx < s.xtol * (1 + 1e-9), "opt-code", "stop on step %g with tolerance %g", dx, s.xtol); sim_probe("opt.xtol"); }
            if (ret == C3OPT_GTOL_REACHED && s.alg == BATCHGRAD) { double gg = 0; for (size_t i = 0; i < d; i++) gg += tg[(n - 1) * d + i] * tg[(n - 1) * d + i]; SIM_CHECK(sqrt(gg) <= s.gtol * (1 + 1e-9), "opt-code", "stop on gradient %g with tolerance %g", sqrt(gg), s.gtol); }
            if (ret == C3OPT_GTOL_REACHED) sim_probe("opt.gtol");
        }
        sim_probe("opt.trace"); xfree(tf); xfree(tg); xfree(tx);
    }
    c3opt_free(opt); SIM_CHECK(sim_heap_live_since(m0) == 0, "opt-leak", "%zu blocks left after %s", sim_heap_live_since(m0), alg_name(s.alg));
    sim_sample("%s on %s, %zu evaluations, code %d", alg_name(s.alg), oname[o.k], o.n, ret);
}
/* brute force: every candidate once, the best one returned */
void scn_optbrute(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    struct obj o; struct setup s; mk(&o, &s, 1); if (o.k == O_NAN || o.k == O_NOISE) o.k = O_NONCONVEX;
    o.bounded = 0; size_t n = sim_flip(1, 12) ? sim_range(41, 500) : sim_range(1, 40), d = o.d; double *loc = malloc(n * d * 8);
    for (size_t i = 0; i < n * d; i++) loc[i] = sim_flip(1, 5) && i >= d ? loc[i - d] : sim_double(-3, 3);
    struct c3Opt *opt = c3opt_alloc(BRUTEFORCE, d); int rounds = (int)sim_range(1, 2);
    for (int r = 0; r < rounds; r++) { c3opt_set_brute_force_vals(opt, n, loc); }
    c3opt_add_objective(opt, cb, &o); struct c3Opt *cp = sim_flip(1, 2) ? c3opt_copy(opt) : NULL;
    if (cp) { c3opt_free(opt); opt = cp; sim_probe("opt.brute_copy"); }
    double x[OD], f; o.n = 0; int ret = c3opt_minimize(opt, x, &f); sim_nontrivial(); sim_probe("opt.brute");
    SIM_CHECK(ret == 0, "opt-code", "brute force returns %d", ret);
    SIM_CHECK(o.n == n && c3opt_get_nevals(opt) == n, "opt-brute", "%zu candidates, %zu evaluations, counter %zu", n, o.n, c3opt_get_nevals(opt));
    int *used = xcalloc(n, sizeof(int));
    for (size_t i = 0; i < n; i++) { size_t k; for (k = 0; k < n; k++) if (!used[k] && memcmp(o.e[k].x, loc + i * d, d * 8) == 0) { used[k] = 1; break; } SIM_CHECK(k < n, "opt-brute", "candidate %zu not evaluated exactly once", i); }
    double best = INFINITY; for (size_t i = 0; i < n; i++) if (o.e[i].f < best) best = o.e[i].f;
    SIM_CHECK(same_bits(best, f) || (best == INFINITY && f == INFINITY), "opt-brute", "best candidate has %a, returned %a", best, f); SIM_CHECK(in_history(&o, x, f), "opt-value", "brute force returns a value not observed at the returned point");
    xfree(used); free(loc); c3opt_free(opt); SIM_CHECK(sim_heap_live_since(m0) == 0, "opt-leak", "%zu blocks left after brute force", sim_heap_live_since(m0));
    sim_sample("brute force over %zu candidates", n);
}
/* termination within the configured limits */
void scn_optlive(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    struct obj o; struct setup s; mk(&o, &s, 1); o.quiet = !sim_verbose; struct c3Opt *opt = mkopt(&o, &s); sim_step_limit(400000000ULL, "opt-unbounded"); sim_nontrivial();
    double x[OD], f; int ret; obs_run(&o, &s, opt, x, &f, &ret);
    SIM_CHECK(c3opt_get_niters(opt) <= s.maxiter + 2, "opt-iterations", "%zu iterates with a limit of %zu", c3opt_get_niters(opt), s.maxiter);
    if ((o.k == O_QUAD || o.k == O_LINEAR || o.k == O_PLATEAU || (o.k == O_QUARTIC && o.scale <= 1)) && s.lsmax == 500) SIM_CHECK(f <= o.e[0].f + 1e-9 * (fabs(o.e[0].f) + o.scale), "opt-ascent", "%s (line search %d) on convex %s ends at %.17g, above the start %.17g", alg_name(s.alg), (int)s.ls, oname[o.k], f, o.e[0].f);
    c3opt_free(opt); sim_probe(alg_name(s.alg)); sim_sample("%s on %s, %zu evaluations within %zu", alg_name(s.alg), oname[o.k], o.n, o.limit);
}
/* a strongly convex problem is solved */
struct cvx { size_t d; double A[OD * OD], c[OD]; size_t n; };
static double cvxcb(size_t d, const double *x, double *grad, void *arg)
{
    struct cvx *q = arg; double f = 0, g[OD]; q->n++;
    for (size_t i = 0; i < d; i++) { g[i] = 0; for (size_t j = 0; j < d; j++) g[i] += q->A[i * d + j] * (x[j] - q->c[j]); f += 0.5 * g[i] * (x[i] - q->c[i]); }
    if (grad) memcpy(grad, g, d * 8);
    return f;
}
static double cvxf(double *x, void *a) { struct cvx *q = a; return cvxcb(q->d, x, NULL, q); }
static int cvxg(double *x, double *g, void *a) { struct cvx *q = a; cvxcb(q->d, x, g, q); return 0; }
static int cvxh(double *x, double *h, void *a) { struct cvx *q = a; (void)x; memcpy(h, q->A, q->d * q->d * 8); return 0; }
static void cvx_old(struct cvx *q, double *lb, double *ub, double *x, double lmax, double cond)
{
    size_t d = q->d; double grad[OD], space[4 * OD], hess[OD * OD] = { 0 }, f; unsigned which = (unsigned)sim_choose(4); for (size_t i = 0; i < d; i++) hess[i * d + i] = 1;
    double tol = 1e-10 * lmax, al = sim_double(0.05, 0.4), be = sim_double(0.3, 0.8); int ret; q->n = 0; static const char *nm[] = { "box_damp_bfgs", "box_damp_newton", "gradient_descent", "box_pg_descent" };
    switch (which) {
    case 0: ret = box_damp_bfgs(d, lb, ub, x, &f, grad, hess, space, cvxf, q, cvxg, tol, 5000, 500, al, be, 0); break;
    case 1: ret = box_damp_newton(d, lb, ub, x, &f, grad, hess, space, cvxf, q, cvxg, q, cvxh, q, tol, 5000, 500, al, be, 0); break;
    case 2: ret = gradient_descent(d, x, &f, grad, space, cvxf, q, cvxg, q, tol, 20000, 500, al, be, 0); break;
    default: ret = box_pg_descent(d, lb, ub, x, &f, grad, space, cvxf, q, cvxg, q, tol, 20000, 500, al, be, 0);
    }
    double g[OD], gn = 0; size_t n = q->n; cvxcb(d, x, g, q); for (size_t i = 0; i < d; i++) gn = fmax(gn, fabs(g[i]));
    sim_log("%s d %zu cond %g -> %d f %g evals %zu g %g", nm[which], d, cond, ret, f, n, gn / lmax);
    SIM_CHECK(gn <= 1e-3 * lmax, "opt-no-minimum", "%s stops with code %d at gradient %g on a convex quadratic of curvature %g and condition %g", nm[which], ret, gn, lmax, cond);
    if (which < 2) SIM_CHECK(n <= (which ? 200 : 5000), "opt-slow", "%s needs %zu evaluations for %zu variables and condition %g", nm[which], n, d, cond);
    sim_probe(nm[which]); sim_sample("%s solves a quadratic of condition %.3g", nm[which], cond);
}
void scn_optconv(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    struct cvx q = { .d = vars() }; size_t d = q.d; double lmax = pow(10.0, sim_double(-1, 1)), cond = pow(10.0, sim_double(0, 1.5)), ev[OD], Q[OD * OD] = { 0 }, lb[OD], ub[OD], x[OD], f; int bounded = (int)sim_choose(2);
    for (size_t i = 0; i < d; i++) { ev[i] = lmax * pow(cond, -(double)i / (d > 1 ? (double)d - 1 : 1)); Q[i * d + i] = 1; q.c[i] = sim_double(-2, 2); x[i] = sim_double(-3, 3); }
    for (int r = 0; r < 6 && d > 1; r++) { size_t a = sim_choose(d), b = (a + 1 + sim_choose(d - 1)) % d; double t = sim_double(0, 6.3), cs = cos(t), sn = sin(t); for (size_t k = 0; k < d; k++) { double u = Q[k * d + a], v = Q[k * d + b]; Q[k * d + a] = cs * u - sn * v; Q[k * d + b] = sn * u + cs * v; } }
    for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) for (size_t k = 0; k < d; k++) q.A[i * d + j] += Q[i * d + k] * ev[k] * Q[j * d + k];
    if (bounded) for (size_t i = 0; i < d; i++) { lb[i] = q.c[i] - sim_double(0.5, 3); ub[i] = q.c[i] + sim_double(0.5, 3); if (x[i] < lb[i]) x[i] = lb[i]; if (x[i] > ub[i]) x[i] = ub[i]; }
    sim_step_limit(2000000000ULL, "opt-unbounded"); sim_nontrivial();
    if (bounded && sim_flip(1, 3)) { cvx_old(&q, lb, ub, x, lmax, cond); return; }
    enum c3opt_alg alg = (enum c3opt_alg[]){ BFGS, LBFGS, BATCHGRAD }[sim_choose(3)]; enum c3opt_ls_alg ls = (enum c3opt_ls_alg[]){ WEAKWOLFE, BACKTRACK, STRONGWOLFE }[sim_choose(3)];
    struct c3Opt *opt = c3opt_alloc(alg, d); c3opt_add_objective(opt, cvxcb, &q); c3opt_ls_set_alg(opt, ls); c3opt_ls_set_maxiter(opt, 500); c3opt_set_maxiter(opt, 20000); c3opt_set_relftol(opt, 0); c3opt_set_absxtol(opt, 1e-14); c3opt_set_gtol(opt, 1e-9 * lmax);
    if (bounded) { c3opt_add_lb(opt, lb); c3opt_add_ub(opt, ub); }
    double f0 = cvxcb(d, x, NULL, &q); q.n = 0; int ret = c3opt_minimize(opt, x, &f);
    double g[OD], gn = 0; cvxcb(d, x, g, &q); for (size_t i = 0; i < d; i++) gn = fmax(gn, fabs(g[i]));
    sim_log("converge %s ls %d d %zu cond %g bounded %d: ret %d iters %zu evals %zu f0 %g f %g g %g", alg_name(alg), (int)ls, d, cond, bounded, ret, c3opt_get_niters(opt), q.n, f0, f, gn / lmax);
    SIM_CHECK(gn <= 1e-3 * lmax, "opt-no-minimum", "%s (line search %d) stops with code %d at gradient %g on a convex quadratic of curvature %g and condition %g", alg_name(alg), (int)ls, ret, gn, lmax, cond);
    if (alg != BATCHGRAD) SIM_CHECK(c3opt_get_niters(opt) <= 400, "opt-slow", "%s (line search %d) needs %zu iterations for %zu variables and condition %g", alg_name(alg), (int)ls, c3opt_get_niters(opt), d, cond);
    sim_probe("opt.converged"); sim_sample("%s solves a quadratic of condition %.3g in %zu iterations", alg_name(alg), cond, c3opt_get_niters(opt));
    c3opt_free(opt);
}
/* reuse and copies repeat the run exactly; copies are independent */
static void same_run(const char *how, struct obj *o, struct ev *e0, size_t n0, const double *x0, double f0, int r0, const double *x, double f, int r)
{
    SIM_CHECK(o->n == n0, "opt-repeat", "%s: %zu evaluations, first run had %zu", how, o->n, n0);
    for (size_t i = 0; i < n0; i++) SIM_CHECK(memcmp(o->e[i].x, e0[i].x, o->d * 8) == 0, "opt-repeat", "%s: evaluation %zu at a different point", how, i);
    SIM_CHECK(r == r0 && same_bits(f, f0) && memcmp(x, x0, o->d * 8) == 0, "opt-repeat", "%s: returns (%d,%a), first run (%d,%a)", how, r, f, r0, f0);
}
void scn_optrepeat(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    struct obj o, o2; struct setup s, s2; mk(&o, &s, 1); if (o.k == O_NAN) o.k = O_QUAD;
    struct c3Opt *opt = mkopt(&o, &s), *cp = NULL; double x0[OD], f0, x[OD], f; int r0, r; int early = (int)sim_choose(2);
    if (early) cp = c3opt_copy(opt);
    obs_run(&o, &s, opt, x0, &f0, &r0); size_t n0 = o.n, it0 = c3opt_get_niters(opt); struct ev *e0 = xmalloc((n0 + 1) * sizeof *e0); memcpy(e0, o.e, n0 * sizeof *e0); sim_nontrivial();
    size_t ops = sim_range(1, 4);
    for (size_t k = 0; k < ops; k++) switch (sim_choose(4)) {
        case 0: obs_run(&o, &s, opt, x, &f, &r); same_run("same optimiser again", &o, e0, n0, x0, f0, r0, x, f, r); SIM_CHECK(c3opt_get_niters(opt) == it0, "opt-repeat", "iteration count changes on reuse"); sim_probe("opt.reuse"); break;
        case 1: if (!cp) cp = c3opt_copy(opt);
            obs_run(&o, &s, cp, x, &f, &r); same_run("copied optimiser", &o, e0, n0, x0, f0, r0, x, f, r); SIM_CHECK(c3opt_get_niters(cp) == it0, "opt-repeat", "iteration count of a copy differs"); sim_probe("opt.copy"); break;
        case 2: if (!cp) break;                          /* changing the copy leaves the original alone */
            { double l2[OD]; for (size_t i = 0; i < o.d; i++) l2[i] = s.x0[i]; c3opt_add_lb(cp, l2); c3opt_set_maxiter(cp, 2); c3opt_set_relftol(cp, 0.5); c3opt_ls_set_maxiter(cp, 3); c3opt_free(cp); cp = NULL; sim_probe("opt.copy_changed"); } break;
        default: mk(&o2, &s2, 1); if (o2.k == O_NAN) o2.k = O_QUAD;   /* an unrelated optimisation in between */
            { struct c3Opt *op2 = mkopt(&o2, &s2); obs_run(&o2, &s2, op2, x, &f, &r); c3opt_free(op2); xfree(o2.e); sim_probe("opt.interleaved"); } break;
    }
    if (s.trace && cp == NULL) {
        cp = c3opt_copy(opt);
        for (size_t i = 0; i < it0; i++) SIM_CHECK(same_bits(c3opt_get_stored_function(cp, i), c3opt_get_stored_function(opt, i)), "opt-copy-trace", "entry %zu of %zu of the stored trace is lost in a copy", i, it0);
        sim_probe("opt.copy_trace");
    }
    xfree(e0); c3opt_free(cp); c3opt_free(opt); SIM_CHECK(sim_heap_live_since(m0) == 0, "opt-leak", "%zu blocks left", sim_heap_live_since(m0));
    sim_sample("%s on %s repeated, %zu evaluations each", alg_name(s.alg), oname[o.k], n0);
}

/* ---- stochastic gradient descent -------------------------------------------- */
struct sg { size_t d, n; double y[SN], X[SN][OD]; struct { size_t i; int g; double f, x[OD], gr[OD]; } *h; size_t nh, cap; double lastx[OD]; };
static double sgcb(size_t d, size_t ind, const double *x, double *grad, void *arg)
{
    struct sg *s = arg; SIM_CHECK(d == s->d && ind < s->n, "sgd-index", "sample %zu of %zu requested", ind, s->n);
    double r = -s->y[ind]; for (size_t i = 0; i < d; i++) r += s->X[ind][i] * x[i];
    if (grad) for (size_t i = 0; i < d; i++) grad[i] = 2 * r * s->X[ind][i];
    if (s->nh == s->cap) { s->cap = s->cap ? 2 * s->cap : 512; s->h = __real_realloc(s->h, s->cap * sizeof *s->h); }
    s->h[s->nh].i = ind; s->h[s->nh].g = grad != NULL; memcpy(s->h[s->nh].x, x, d * 8); if (grad) memcpy(s->h[s->nh].gr, grad, d * 8); s->h[s->nh++].f = r * r; memcpy(s->lastx, x, d * 8); return r * r;
}
void scn_sgd(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    struct sg s = { .d = vars(), .n = sim_flip(1, 16) ? sim_range(61, SN) : sim_range(2, 60) };
    for (size_t i = 0; i < s.n; i++) { s.y[i] = sim_double(-1, 1); for (size_t k = 0; k < s.d; k++) s.X[i][k] = sim_double(-1, 1); }
    int ext = sim_flip(1, 2); if (ext) sim_rand_mode(R_EXTREME); else sim_rand_reseed((unsigned)sim_choose(100000));
    struct c3Opt *opt = c3opt_alloc(SGD, s.d), *cp = NULL; size_t me = sim_flip(1, 16) && s.n <= 60 ? sim_range(25, 160) : sim_range(1, 24);
    c3opt_set_maxiter(opt, me); c3opt_set_sgd_nsamples(opt, s.n); double lr = sim_double(1e-4, 0.2), ftol = (double[]){ 1e-8, 0, 1e-2 }[sim_choose(3)], xtol = (double[]){ 1e-20, 1e-4 }[sim_choose(2)], gtol = (double[]){ 1e-30, 1e-2 }[sim_choose(2)]; c3opt_set_sgd_learn_rate(opt, lr); c3opt_set_relftol(opt, ftol); c3opt_set_absxtol(opt, xtol); c3opt_set_gtol(opt, gtol);
    c3opt_add_objective_stoch(opt, sgcb, &s); int tr = sim_flip(1, 2); if (tr) c3opt_set_storage_options(opt, 1, 0, 0);
    if (sim_flip(1, 2)) { cp = c3opt_copy(opt); c3opt_free(opt); opt = cp; sim_probe("sgd.copy"); }
    size_t runs = sim_range(1, 2);
    for (size_t r = 0; r < runs; r++) {
        double x[OD], f; for (size_t i = 0; i < s.d; i++) x[i] = sim_double(-1, 1);
        s.nh = 0; int ret = c3opt_minimize(opt, x, &f); sim_log("sgd ret %d f=%a calls %zu", ret, f, s.nh); sim_log_doubles("  x", s.d, x);
        SIM_CHECK(c3opt_get_nevals(opt) == s.nh, "opt-counters", "%zu evaluations counted, %zu made", c3opt_get_nevals(opt), s.nh);
        size_t ng = 0; for (size_t i = 0; i < s.nh; i++) ng += (size_t)s.h[i].g;
        SIM_CHECK(c3opt_get_ngvals(opt) == ng, "opt-counters", "%zu gradients counted, %zu made", c3opt_get_ngvals(opt), ng);
        size_t p = 0, epochs = 0; char seen[SN], tset[SN]; double err = 0, perr = 0, rate = lr, xd = 0;
        if (tr) { memset(seen, 0, sizeof seen); for (size_t i = 0; i < s.n; i++, p++) { SIM_CHECK(p < s.nh && !s.h[p].g && !seen[s.h[p].i], "sgd-epoch", "initial error estimate does not visit each sample once"); seen[s.h[p].i] = 1; } }
        while (p < s.nh) {
            memset(tset, 0, sizeof tset); memset(seen, 0, sizeof seen); size_t nt = 0;
            for (size_t q = p; q < s.nh && s.h[q].g; q++) {           /* the first ten epochs are plain steps, later ones use momentum */
                SIM_CHECK(q + 1 < s.nh, "sgd-epoch", "epoch %zu ends without an error estimate", epochs); xd = 0;
                for (size_t k = 0; k < s.d; k++) {
                    double want = s.h[q].x[k] - rate * s.h[q].gr[k], got = s.h[q + 1].x[k]; xd += (got - s.h[q].x[k]) * (got - s.h[q].x[k]);
                    if (epochs < 10) SIM_CHECK(fabs(got - want) <= 1e-9 * (fabs(want) + fabs(rate * s.h[q].gr[k])) + 1e-300 || want != want, "sgd-step", "step %zu of epoch %zu moves coordinate %zu to %.17g instead of %.17g", q - p, epochs, k, got, want);
                }
            }
            rate *= 0.993; perr = err;
            while (p < s.nh && s.h[p].g) { SIM_CHECK(!tset[s.h[p].i], "sgd-epoch", "sample %zu used twice in epoch %zu of %zu samples", s.h[p].i, epochs, s.n); tset[s.h[p].i] = 1; p++; nt++; }
            SIM_CHECK(nt >= 1 && nt <= s.n, "sgd-epoch", "%zu gradient steps in epoch %zu", nt, epochs);
            SIM_CHECK(nt == (size_t)lrint((double)s.n / 1.1), "sgd-epoch", "%zu of %zu samples trained on in epoch %zu", nt, s.n, epochs);
            err = 0; for (size_t i = 0; i < s.n; i++, p++) { SIM_CHECK(p < s.nh && !s.h[p].g && !seen[s.h[p].i], "sgd-epoch", "error estimate of epoch %zu does not visit each sample exactly once", epochs); seen[s.h[p].i] = 1; if (tset[s.h[p].i]) err += s.h[p].f; }
            err /= (double)nt; epochs++;
        }
        SIM_CHECK(epochs <= me, "opt-iterations", "%zu epochs with a limit of %zu", epochs, me);
        SIM_CHECK(c3opt_get_niters(opt) == epochs + (size_t)tr, "opt-iterations", "%zu epochs, %zu counted", epochs, c3opt_get_niters(opt));
        SIM_CHECK(fabs(f - err) <= 1e-12 * (1 + fabs(err)) || f != f, "opt-value", "returned %a, training error of the last epoch %a", f, err);
        SIM_CHECK(memcmp(x, s.lastx, s.d * 8) == 0, "opt-value", "returned point is not the one whose error was measured");
        if (ret == C3OPT_MAXITER_REACHED) SIM_CHECK(epochs == me, "opt-code", "epoch limit reported after %zu of %zu", epochs, me);
        if (ret == C3OPT_FTOL_REACHED) { double df = fabs(err - perr); if (perr > 1e-10) df /= err; SIM_CHECK(df < ftol * (1 + 1e-6), "opt-code", "stop on error change %g with tolerance %g", df, ftol); sim_probe("sgd.ftol"); }
        if (ret == C3OPT_XTOL_REACHED) { SIM_CHECK(xd < xtol * (1 + 1e-6), "opt-code", "stop on step %g with tolerance %g", xd, xtol); sim_probe("sgd.xtol"); }
        if (ret == C3OPT_GTOL_REACHED) sim_probe("sgd.gtol");
        sim_probe_n("sgd.epochs", epochs);
    }
    sim_nontrivial(); c3opt_free(opt); xfree(s.h); SIM_CHECK(sim_heap_live_since(m0) == 0, "opt-leak", "%zu blocks left", sim_heap_live_since(m0));
    sim_sample("%zu samples, up to %zu epochs, %s random numbers", s.n, me, ext ? "extreme" : "seeded");
}

/* ---- stand-alone routines: bounds, failure codes, truth ------------------------ */
struct lg { struct obj o; size_t gfail, hfail, ng, nh; int code; int failed; };
static double lf(double *x, void *a) { struct lg *l = a; return call(&l->o, l->o.d, x, NULL); }
static int lgf(double *x, double *g, void *a)
{
    struct lg *l = a; for (size_t i = 0; i < l->o.d; i++) SIM_CHECK(!l->o.bounded || (x[i] >= l->o.lb[i] && x[i] <= l->o.ub[i]), "opt-out-of-bounds", "gradient requested outside the box");
    if (l->ng++ == l->gfail) { l->failed = 1; sim_fault(F_CB_ERROR); for (size_t i = 0; i < l->o.d; i++) g[i] = 0; return l->code; }
    base(&l->o, x, g); return 0;
}
static int lhf(double *x, double *h, void *a)
{
    struct lg *l = a; size_t d = l->o.d; (void)x; if (l->nh++ == l->hfail) { l->failed = 1; sim_fault(F_CB_ERROR); for (size_t i = 0; i < d * d; i++) h[i] = i % (d + 1) == 0; return l->code; }
    for (size_t i = 0; i < d * d; i++) h[i] = 0;
    for (size_t i = 0; i < d; i++) h[i * d + i] = 2 * l->o.scale * l->o.s[i];
    return 0;
}
void scn_optold(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    struct lg l; memset(&l, 0, sizeof l); struct setup s; mk(&l.o, &s, 0); if (l.o.k == O_LINEAR && !s.bounded) l.o.k = O_QUAD; l.o.lb = s.lb; l.o.ub = s.ub;
    size_t d = l.o.d; double *x = malloc(d * 8), *grad = calloc(d, 8), *space = calloc(4 * d, 8), *hess = calloc(d * d, 8), f = 0; memcpy(x, s.x0, d * 8);
    for (size_t i = 0; i < d; i++) hess[i * d + i] = 1;
    l.gfail = sim_flip(1, 3) ? sim_choose(12) : 1000000; l.hfail = sim_flip(1, 4) ? sim_choose(8) : 1000000; l.code = (int)sim_range(1, 5);
    unsigned which = (unsigned)sim_choose(4); double al = sim_double(0.01, 0.45), be = sim_double(0.3, 0.9), tol = (double[]){ 1e-8, 1e-3, 1e-14 }[sim_choose(3)]; size_t mi = sim_range(2, 80), ms = sim_range(3, 200); int ret;
    if (which == 1) l.o.k = O_QUAD;
    if (which == 2) l.o.bounded = 0;
    l.o.limit = (mi + 2) * (ms + 4) + 10; sim_nontrivial();
    switch (which) {
    case 0: ret = box_damp_bfgs(d, s.lb, s.ub, x, &f, grad, hess, space, lf, &l, lgf, tol, mi, ms, al, be, 0); break;
    case 1: ret = box_damp_newton(d, s.lb, s.ub, x, &f, grad, hess, space, lf, &l, lgf, &l, lhf, &l, tol, mi, ms, al, be, 0); break;
    case 2: ret = gradient_descent(d, x, &f, grad, space, lf, &l, lgf, &l, tol, mi, ms, al, be, 0); break;
    default: ret = box_pg_descent(d, s.lb, s.ub, x, &f, grad, space, lf, &l, lgf, &l, tol, mi, ms, al, be, 0);
    }
    sim_log("standalone %u -> %d f=%a evals %zu grads %zu hess %zu failed %d", which, ret, f, l.o.n, l.ng, l.nh, l.failed);
    if (l.failed) { SIM_CHECK(ret != 0 && ret != 1, "opt-callback-failure", "stand-alone routine %u returns %d after a derivative callback failed with %d", which, ret, l.code); sim_probe("opt.callback_failure"); }
    else SIM_CHECK(ret >= -3 && ret <= 1, "opt-code", "return code %d", ret);
    if (l.o.n) SIM_CHECK(in_history(&l.o, x, f), "opt-value", "stand-alone routine %u returns a value not observed at the returned point", which);
    free(x); free(grad); free(space); free(hess); SIM_CHECK(sim_heap_live_since(m0) == 0, "opt-leak", "stand-alone routine %u leaves %zu blocks", which, sim_heap_live_since(m0));
    sim_probe("opt.standalone"); sim_sample("stand-alone routine %u on %s, %zu evaluations", which, oname[l.o.k], l.o.n);
}
