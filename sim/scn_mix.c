/* Independent computations side by side (C17) and running out of memory (C18). */
#include "prog.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
struct mixjob { struct prog *p; struct trace *t; };
static void mixjob(void *a) { struct mixjob *j = a; prog_run(j->p, j->t); }
static void compare(const struct prog *p, const struct trace *a, const struct trace *b, const char *how)
{
    size_t n = a->n < b->n ? a->n : b->n;
    for (size_t i = 0; i < n; i++) {
        SIM_CHECK(!strcmp(a->lab[i], b->lab[i]), "mix-influence", "%s %s: %s records '%s' instead of '%s' at %zu", p->who, prog_name[p->kind], how, b->lab[i], a->lab[i], i);
        SIM_CHECK(a->v[i] == b->v[i], "mix-influence", "%s %s: %s, '%s' (number %zu) is %016llx instead of %016llx", p->who, prog_name[p->kind], how, a->lab[i], i, (unsigned long long)b->v[i], (unsigned long long)a->v[i]);
    }
    SIM_CHECK(a->n == b->n, "mix-influence", "%s %s: %s records %zu observations instead of %zu", p->who, prog_name[p->kind], how, b->n, a->n);
}
static void disturb(void)
{
    sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); if (sim_choose(2)) { sim_clock_jump((int64_t)sim_choose(1000000000)); sim_fault(F_CLOCK_JUMP); }
    for (uint64_t i = sim_choose(4); i; i--) { rand(); sim_fault(F_RAND_FOREIGN); }
}
static void leak(uint64_t m, const char *what) { char rep[300]; sim_heap_report_since(m, rep, sizeof rep); SIM_CHECK(sim_heap_live_since(m) == 0, "mix-leak", "%s: %zu blocks left: %s", what, sim_heap_live_since(m), rep); SIM_CHECK(sim_open_files() == 0, "mix-leak", "%s: files left open", what); }
void scn_mix(int inc)
{
    (void)inc; sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); size_t n = sim_range(2, 3); static const char *nm[3] = { "A", "B", "C" }; struct prog p[3]; struct trace *t = xcalloc(6, sizeof *t); sim_task_fn f[3]; void *a[3]; struct mixjob j[3];
    int same = (int)sim_choose(3) == 0, k0 = (int)sim_choose((uint64_t)prog_kinds);
    for (size_t i = 0; i < n; i++) { prog_make(&p[i], same ? k0 : (int)sim_choose((uint64_t)prog_kinds), nm[i]); sim_log("%s: %s", nm[i], prog_name[p[i].kind]); }
    sim_nontrivial(); uint64_t m = sim_heap_mark();
    for (size_t i = 0; i < n; i++) { prog_run(&p[i], &t[i]); leak(m, prog_name[p[i].kind]); sim_log("%s: %zu observations", nm[i], t[i].n); }
    disturb();
    if (sim_choose(3)) { for (size_t i = 0; i < n; i++) { j[i] = (struct mixjob){ &p[i], &t[3 + i] }; f[i] = mixjob; a[i] = &j[i]; } sim_tasks_run(n, f, a); for (size_t i = 0; i < n; i++) compare(&p[i], &t[i], &t[3 + i], "interleaved with the others"); sim_probe("mix.interleaved"); }
    else for (size_t r = sim_range(2, 5); r; r--) { size_t i = sim_choose(n); disturb(); prog_run(&p[i], &t[3]); compare(&p[i], &t[i], &t[3], "run again after the others"); sim_probe("mix.again"); }
    leak(m, "all of them"); for (size_t i = 0; i < n; i++) prog_free(&p[i]);
    sim_sample("%s next to %s", prog_name[p[0].kind], prog_name[p[1].kind]); xfree(t);
}
/* ---- memory exhaustion ---------------------------------------------------------------- */
void scn_oom(int inc)
{
    if (inc) return;                                                   /* the library stopped the process: nothing was delivered */
    sim_heap_fill(sim_choose(1000)); struct prog p; struct trace *t = xcalloc(2, sizeof *t); prog_make(&p, (int)sim_choose((uint64_t)prog_kinds), "A"); sim_log("%s", prog_name[p.kind]);
    uint64_t a0 = sim_alloc_calls(); prog_run(&p, &t[0]); uint64_t n = sim_alloc_calls() - a0; sim_log("%llu allocations", (unsigned long long)n); if (!n) return;
    sim_nontrivial(); uint64_t at = sim_choose(n); sim_allow_failstop(3); sim_alloc_fail_run((int64_t)at, sim_choose(3) ? 1 : 1 + (int64_t)sim_choose(4)); prog_run(&p, &t[1]); sim_alloc_fail_at(-1);
    size_t k = 0; sim_probe("oom.survived");
    for (size_t i = 0; i < t[1].n; i++) {
        size_t k0 = k; while (k < t[0].n && strcmp(t[0].lab[k], t[1].lab[i])) k++;
        SIM_CHECK(k < t[0].n, "oom-result", "%s: after a failed allocation the computation records '%s' (number %zu), which it does not without", prog_name[p.kind], t[1].lab[i], i); (void)k0;
        SIM_CHECK(t[0].v[k] == t[1].v[i], "oom-result", "%s: after a failed allocation the computation goes on and '%s' (number %zu) is %016llx instead of %016llx", prog_name[p.kind], t[1].lab[i], i, (unsigned long long)t[1].v[i], (unsigned long long)t[0].v[k]); k++;
    }
    sim_sample("%s, allocation %llu of %llu fails", prog_name[p.kind], (unsigned long long)at, (unsigned long long)n); prog_free(&p); xfree(t);
}
