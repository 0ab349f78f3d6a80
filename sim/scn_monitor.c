/* Recording monitor: every distinct point reaches the user's function exactly once,
 * recalls are exact, the dump lists each recorded point once, whatever the table
 * size, the order of requests, and re-entrant use from inside the user's function. */
#include "gen.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>

#define MAXP 1500
struct mon;
struct ctx {
    size_t dim, n; double x[MAXP][MAXD]; double v[MAXP]; int called[MAXP]; int want[MAXP]; int dep[MAXP];
    int reent, depth; struct FunctionMonitor *fm; const char *who; int yields;
};
static size_t which(struct ctx *c, const double *x)
{
    for (size_t i = 0; i < c->n; i++) if (memcmp(c->x[i], x, c->dim * sizeof(double)) == 0) return i;
    sim_violation("monitor-foreign-point", "monitored function called at a point nobody asked for");
}
static void ask(struct ctx *c, size_t i)
{
    double q[MAXD]; memcpy(q, c->x[i], sizeof q);
    double v = function_monitor_eval(q, c->fm);
    SIM_CHECK(memcmp(q, c->x[i], c->dim * sizeof(double)) == 0, "monitor-modifies-point", "the requested point was modified");
    SIM_CHECK(v == c->v[i] || (v != v && c->v[i] != c->v[i]), "monitor-value", "%s: request %zu returned %a, the function's value there is %a (%s)", c->who, i, v, c->v[i], c->want[i] ? "recall" : "first request");
    if (c->want[i]) sim_probe("monitor.recall");
    c->want[i] = 1;
    SIM_CHECK(c->called[i] == 1, "monitor-calls", "%s: point %zu evaluated %d times", c->who, i, c->called[i]);
    sim_log("%s ask %zu -> %a", c->who, i, v);
}
static double userf(const double *x, void *arg)
{
    struct ctx *c = arg; size_t i = which(c, x);
    if (++c->called[i] > 1) sim_violation("monitor-calls", "%s: point %zu evaluated a second time", c->who, i);
    if (c->yields) sim_yield();
    if (c->reent && c->dep[i] >= 0 && c->depth < 12) {       /* memoised recursion: lower-numbered points only */
        c->depth++; sim_fault(F_REENTRANT); ask(c, (size_t)c->dep[i]); c->depth--;
    }
    if (!isfinite(c->v[i])) sim_fault(c->v[i] != c->v[i] ? F_CB_NAN : F_CB_INF);
    return c->v[i];
}
static void make_points(struct ctx *c)
{
    c->dim = sim_range(1, MAXD); size_t n = sim_range(1, sim_flip(1, 4) ? 160 : 24); c->n = 0;
    int big = sim_flip(1, 24); if (big) { n = sim_range(161, MAXP); if (c->dim > 3) c->dim = sim_range(1, 3); sim_probe("monitor.many_points"); }
    while (c->n < n) {
        size_t i = c->n; int fresh = 1;
        if (i > 0 && sim_flip(1, 2)) {                        /* close to, or a permutation of, an earlier point */
            size_t j = sim_choose(i); memcpy(c->x[i], c->x[j], sizeof c->x[i]); size_t k = sim_choose(c->dim);
            unsigned how = (unsigned)sim_choose(4);
            if (how == 0) c->x[i][k] *= 1.0 + ldexp(1.0, -(int)sim_range(3, 44));
            else if (how == 1) c->x[i][k] = -c->x[i][k];
            else if (how == 2) { size_t l = sim_choose(c->dim); double t = c->x[i][k]; c->x[i][k] = c->x[i][l]; c->x[i][l] = t; }
            else c->x[i][k] = ldexp(c->x[i][k], (int)sim_choose(3) - 1);
        } else for (size_t k = 0; k < c->dim; k++) c->x[i][k] = sim_value();
        for (size_t k = 0; k < c->dim; k++) c->x[i][k] += 0.0;    /* no negative zeros: they compare equal to zero */
        for (size_t j = 0; j < i && fresh; j++) {             /* the same, or closer than the monitor can tell apart? */
            int far = 0;
            for (size_t k = 0; k < c->dim; k++) { double d = fabs(c->x[i][k] - c->x[j][k]); if (d > 4e-14 * fmax(fabs(c->x[i][k]), fabs(c->x[j][k]))) far = 1; }
            fresh = far;
        }
        if (!fresh) { n--; continue; }
        c->v[i] = sim_flip(1, 16) ? (sim_choose(2) ? NAN : sim_choose(2) ? INFINITY : -INFINITY) : sim_flip(1, 16) ? ldexp(sim_double(-1, 1), -(int)sim_range(1000, 1070)) : sim_flip(1, 16) ? sim_double(-1.7e308, 1.7e308) : sim_value();
        c->called[i] = c->want[i] = 0; c->dep[i] = i ? (int)sim_choose(i) : -1; c->n++;
    }
}
static double rows[MAXP][MAXD + 1]; static char vis[MAXP];
static int fits(struct ctx *c, size_t i, const double *row)
{
    if (!c->want[i]) return 0;
    for (size_t k = 0; k < c->dim; k++) if (!(fabs(row[k] - c->x[i][k]) <= 2e-15 + 1e-13 * fabs(c->x[i][k]))) return 0;
    double v = c->v[i], w = row[c->dim];
    return isfinite(v) ? fabs(w - v) <= 2e-15 + 1e-14 * fabs(v) : v != v ? w != w : w == v;
}
static int augment(struct ctx *c, size_t r, int *seen)
{
    for (size_t i = 0; i < c->n; i++) if (!vis[i] && fits(c, i, rows[r])) {
        vis[i] = 1;
        if (seen[i] < 0 || augment(c, (size_t)seen[i], seen)) { seen[i] = (int)r; return 1; }
    }
    return 0;
}
static void check_dump(struct ctx *c)
{
    char name[24]; snprintf(name, sizeof name, "dump-%s", c->who);
    FILE *fp = fopen(name, "w"); function_monitor_print_to_file(c->fm, fp); fclose(fp);
    size_t len = sim_disk_size(name); char *t = xcalloc(len + 1, 1); memcpy(t, sim_disk_data(name), len);
    char *p = strchr(t, '\n'); SIM_CHECK(p, "monitor-dump", "dump without header"); p++;
    size_t expect = 0, got = 0; int *seen = xcalloc(c->n, sizeof(int));
    for (size_t i = 0; i < c->n; i++) expect += (size_t)c->want[i];
    SIM_CHECK(nstored_hashtable_cp(c->fm->evals) == expect, "monitor-count", "%zu points recorded, %zu evaluated", nstored_hashtable_cp(c->fm->evals), expect);
    while (*p) {
        double row[MAXD + 1]; char *nl = strchr(p, '\n'); SIM_CHECK(nl, "monitor-dump", "unterminated dump line"); *nl = 0;
        for (size_t k = 0; k <= c->dim; k++) { char *e; row[k] = strtod(p, &e); SIM_CHECK(e != p, "monitor-dump", "dump line %zu has fewer than %zu fields", got, c->dim + 1); p = e; }
        while (*p == ' ') p++;
        SIM_CHECK(*p == 0, "monitor-dump", "dump line %zu has extra fields", got);
        p = nl + 1;
        SIM_CHECK(got < expect, "monitor-dump", "%zu points recorded, more dumped", expect);
        memcpy(rows[got++], row, sizeof row);
    }
    SIM_CHECK(got == expect, "monitor-dump", "%zu points recorded, %zu dumped", expect, got);
    for (size_t i = 0; i < c->n; i++) seen[i] = -1;
    for (size_t r = 0; r < got; r++) {                         /* one line per point: bipartite matching, since lines are rounded */
        memset(vis, 0, sizeof vis);
        SIM_CHECK(augment(c, r, seen), "monitor-dump", "dump line %zu (x0 = %a, value %a) matches no recorded point, or one listed already", r, rows[r][0], rows[r][c->dim]);
    }
    xfree(seen); xfree(t); sim_probe("monitor.dump");
}
static void session(void *arg)
{
    struct ctx *c = arg; size_t ops = sim_range(2, 3 * c->n + 2), cs = c->n > 160 ? 400 : 24, tsize = sim_flip(1, 3) ? 1 : sim_range(1, sim_flip(1, 2) ? 7 : 2000);
    c->fm = function_monitor_initnd(userf, c, c->dim, tsize);
    if (tsize == 1) sim_probe("monitor.single_bucket");
    for (size_t o = 0; o < ops; o++) {
        if (c->yields) sim_yield();
        if (sim_flip(1, cs)) check_dump(c); else ask(c, sim_choose(c->n));
    }
    check_dump(c);
    function_monitor_free(c->fm); c->fm = NULL;
}
void scn_monitor(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000));
    size_t nt = sim_flip(1, 3) ? 2 : 1; struct ctx *c[2]; sim_task_fn fn[2] = { session, session }; void *a[2];
    uint64_t m0 = sim_heap_mark();
    for (size_t i = 0; i < nt; i++) { c[i] = xcalloc(1, sizeof **c); c[i]->who = i ? "B" : "A"; make_points(c[i]); c[i]->reent = sim_flip(1, 3); c[i]->yields = nt > 1; a[i] = c[i]; }
    sim_nontrivial();
    if (nt == 1) session(c[0]); else { sim_tasks_run(nt, fn, a); sim_probe("monitor.two_interleaved"); }
    SIM_CHECK(sim_heap_live_since(m0) == 0, "monitor-leak", "%zu blocks left after the monitors were freed", sim_heap_live_since(m0));
    sim_sample("%zu monitor(s), %zu points in %zu dimensions", nt, c[0]->n, c[0]->dim);
    for (size_t i = 0; i < nt; i++) xfree(c[i]);
}

/* a plain list of stored evaluations keeps everything pushed, newest first */
void scn_storevals(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); uint64_t m0 = sim_heap_mark();
    struct storevals *h = NULL; size_t n = sim_range(1, 40), d = sim_range(2, MAXD); double x[40][MAXD], f[40];
    for (size_t i = 0; i < n; i++) { double t[MAXD]; for (size_t k = 0; k < d; k++) t[k] = x[i][k] = sim_value(); f[i] = sim_value(); PushVal(&h, d, t, f[i]); for (size_t k = 0; k < d; k++) t[k] = -77; }
    size_t i = n;
    for (struct storevals *c = h; c; c = c->next) {
        SIM_CHECK(i-- > 0, "storevals", "more stored values than pushed");
        SIM_CHECK(c->dim == d && same_bits(c->f, f[i]) && memcmp(c->x, x[i], d * 8) == 0, "storevals", "stored evaluation %zu differs from what was pushed", i);
    }
    SIM_CHECK(i == 0, "storevals", "%zu stored evaluations lost", i);
    DeleteStoredVals(&h); SIM_CHECK(h == NULL && sim_heap_live_since(m0) == 0, "monitor-leak", "stored values leak");
    sim_nontrivial(); sim_probe("monitor.storevals"); sim_sample("%zu stored values", n);
}
