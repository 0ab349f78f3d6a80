/* Storage: saving and loading dense arrays, function trains, arrays of
 * function trains and probability densities on a faulty simulated disk. */
#include "gen.h"
#include <float.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>

enum kind { K_NONE, K_DARR, K_FT, K_FT1D, K_PDF, K_NKINDS };
static const char *kname[] = { "none", "array", "ft", "ft-array", "density" };
#define NPT 4
#define NSLOT 4
#define MAXOBS 8000
/* what an observer can see of an object; lives in the simulator, survives crashes */
struct obs {
    int kind; size_t n, m, dim; int cls;
    size_t nobs; double v[MAXOBS];
};
struct fstate { int state; /* 0 absent, 1 holds obs exactly, 2 damaged/unknown */ struct obs o; };
struct st { uint64_t oldhash; int phase; int pending; int pend_fresh; struct fstate f[NSLOT]; struct obs next; uint64_t ops; };

struct obj { enum kind k; void *p; size_t n, m; double lb[MAXD], ub[MAXD]; int cls; };

static const double LBS[] = { -1.0, 0.0, -2.0, 0.5 }, UBS[] = { 1.0, 1.0, 3.0, 4.0 };
static void doms(size_t d, double *lb, double *ub)
{
    for (size_t i = 0; i < d; i++) { size_t k = sim_choose(4); lb[i] = LBS[k]; ub[i] = UBS[k]; }
}
static void push(struct obs *o, double v) { if (o->nobs < MAXOBS) o->v[o->nobs++] = v; }

static void obs_ft(struct obs *o, struct FunctionTrain *ft)
{
    push(o, (double)ft->dim);
    double x[MAXD];
    size_t np = function_train_get_nparams(ft);
    push(o, (double)np);
    double *par = xcalloc(np + 1, 8);
    size_t got = function_train_get_params(ft, par);
    push(o, (double)got);
    for (size_t i = 0; i < np && i < 60; i++) push(o, par[i]);
    double s = 0; for (size_t i = 60; i < np; i++) s += par[i] * (double)(i % 7 + 1);
    push(o, s); xfree(par);
    for (size_t i = 0; i <= ft->dim; i++) push(o, (double)ft->ranks[i]);
    for (size_t k = 0; k < ft->dim; k++) {
        struct GenericFunction *g = ft->cores[k]->funcs[ft->cores[k]->nrows * ft->cores[k]->ncols - 1];
        push(o, (double)generic_function_get_fc(g)); push(o, generic_function_get_lb(g)); push(o, generic_function_get_ub(g));
    }
    for (int p = 0; p < NPT; p++) {
        for (size_t k = 0; k < ft->dim; k++) {
            double lb = generic_function_get_lb(ft->cores[k]->funcs[0]), ub = generic_function_get_ub(ft->cores[k]->funcs[0]);
            if (lb < -50) lb = -2;
            if (ub > 50) ub = 2;
            double t = p == 0 ? 0.0 : p == 1 ? 1.0 : fmod(0.37 * p + 0.61803398875 * (double)(k + 1), 1.0);
            x[k] = lb + t * (ub - lb); if (p == 1) x[k] = ub;
        }
        push(o, function_train_eval(ft, x));
    }
    push(o, function_train_integrate(ft));
}
static void observe(const struct obj *ob, struct obs *o)
{
    memset(o, 0, sizeof *o); o->kind = ob->k; o->n = ob->n; o->m = ob->m; o->cls = ob->cls;
    if (ob->k == K_DARR) { const double *a = ob->p; for (size_t i = 0; i < ob->n * ob->m; i++) push(o, a[i]); }
    else if (ob->k == K_FT) obs_ft(o, ob->p);
    else if (ob->k == K_FT1D) { struct FT1DArray *a = ob->p; push(o, (double)a->size); for (size_t i = 0; i < a->size; i++) obs_ft(o, a->ft[i]); }
    else if (ob->k == K_PDF) {
        struct ProbabilityDensity *d = ob->p; struct LinearTransform *lt = d->lt;
        push(o, d->transform); push(o, (double)d->type); obs_ft(o, d->pdf);
        push(o, lt != NULL);
        if (lt) {
            push(o, (double)lt->dimin); push(o, (double)lt->dimout); push(o, (double)lt->mt); push(o, lt->det);
            for (size_t i = 0; i < lt->dimin * lt->dimout; i++) push(o, lt->A[i]);
            for (size_t i = 0; i < lt->dimout; i++) push(o, lt->b[i]);
            push(o, lt->Ainv != NULL);
            if (lt->Ainv) {
                push(o, (double)lt->mti); push(o, lt->detinv);
                for (size_t i = 0; i < lt->dimin * lt->dimout; i++) push(o, lt->Ainv[i]);
                for (size_t i = 0; i < lt->dimin; i++) push(o, lt->binv[i]);
            }
        }
    }
}
static void obj_make(struct obj *ob, int kindsel, int cls)
{
    memset(ob, 0, sizeof *ob);
    ob->k = kindsel ? (enum kind)kindsel : (enum kind)(1 + sim_choose(K_NKINDS - 1));
    size_t d = sim_flip(1, 25) ? sim_range(5, MAXD) : sim_range(1, 4); doms(d, ob->lb, ob->ub); ob->cls = cls; gen_large = 1;
    if (ob->k == K_DARR) {
        ob->n = sim_range(0, 9); ob->m = sim_range(1, 6);
        if (sim_flip(1, 12)) { ob->n = sim_range(40, 90); ob->m = sim_flip(1, 4) ? 40 : 6; }
        double *a = calloc(ob->n * ob->m + 1, sizeof *a);
        for (size_t i = 0; i < ob->n * ob->m; i++) a[i] = sim_value();
        ob->p = a;
    } else if (ob->k == K_FT) ob->p = gen_ft(d, d > 4 ? 2 : sim_flip(1, 25) ? 9 : 4, cls, ob->lb, ob->ub, 0);
    else if (ob->k == K_FT1D) { ob->n = sim_flip(1, 25) ? sim_range(4, 24) : sim_range(1, 3); if (ob->n > 3 && d > 2) d = 2; ob->p = gen_ft1d(ob->n, d, 2, cls, ob->lb, ob->ub, 0); }
    else {
        struct ProbabilityDensity *p = probability_density_alloc();
        p->pdf = gen_ft(d, 3, cls, ob->lb, ob->ub, 0);
        double A[MAXD * MAXD], b[MAXD];
        for (size_t i = 0; i < d * d; i++) A[i] = sim_value();
        for (size_t i = 0; i < d; i++) { b[i] = sim_value(); A[i * d + i] += 3.0; }
        p->transform = !sim_flip(1, 4); p->type = sim_choose(2) ? GAUSSIAN : GENERAL;
        if (p->transform) {
            p->lt = linear_transform_alloc(d, d, A, b, sim_value()); p->lt->mt = ((enum lt_matrix_type[]){ LT, SYMMETRIC, GEN })[sim_choose(3)];
            if (p->lt->mt == LT && sim_flip(1, 2)) linear_transform_invert(p->lt);
        }
        ob->p = p;
    }
}
static void obj_free(struct obj *ob)
{
    if (ob->k == K_DARR) free(ob->p);
    else if (ob->k == K_FT) function_train_free(ob->p);
    else if (ob->k == K_FT1D) ft1d_array_free(ob->p);
    else if (ob->k == K_PDF) probability_density_free(ob->p);
    ob->p = NULL; ob->k = K_NONE;
}
static int obj_save(struct obj *ob, char *name)
{
    switch (ob->k) {
    case K_DARR: return darray_save(ob->n, ob->m, ob->p, name, 0);
    case K_FT: return function_train_save(ob->p, name);
    case K_FT1D: return ft1d_array_save(ob->p, name);
    default: return probability_density_save(ob->p, name);
    }
}
static void obj_load(struct obj *ob, const struct obs *like, char *name)
{
    memset(ob, 0, sizeof *ob); ob->k = (enum kind)like->kind; ob->n = like->n; ob->m = like->m; ob->cls = like->cls;
    switch (ob->k) {
    case K_DARR: ob->p = darray_load(name, 0); break;
    case K_FT: ob->p = function_train_load(name); break;
    case K_FT1D: ob->p = ft1d_array_load(name); break;
    default: ob->p = probability_density_load(name);
    }
}
static void check_same(const struct obj *ob, const struct obs *want, const char *how)
{
    struct obs *o = xmalloc(sizeof *o); observe(ob, o);
    SIM_CHECK(o->nobs == want->nobs, "roundtrip-shape", "%s of %s: %zu observations against %zu", how, kname[want->kind], o->nobs, want->nobs);
    for (size_t i = 0; i < o->nobs; i++)
        SIM_CHECK(same_bits(o->v[i], want->v[i]), "roundtrip-value", "%s of %s (class %d): observation %zu is %a, was %a", how, kname[want->kind], want->cls, i, o->v[i], want->v[i]);
    sim_log_doubles("  restored", o->nobs > 6 ? 6 : o->nobs, o->v + (o->nobs > 6 ? o->nobs - 6 : 0));
    xfree(o);
}
static char fnames[NSLOT][16] = { "alpha.c3", "beta.c3", "gamma.c3", "delta.c3" };

static void env(void)
{
    sim_heap_fill(sim_choose(1000)); sim_dirty_stack(sim_choose(1000)); sim_io_reset();
}
static void benign(void)
{
    sim_io.chunk = 0;
    if (sim_flip(1, 2)) { sim_io.chunk = (int)sim_range(1, 64); if (sim_flip(1, 3)) sim_io.chunk = (int)sim_range(65, 4000); }
}

/* ---- faithful storage -------------------------------------------------- */
static int gfunc_text_ok(int cls) { return cls != G_KERNEL; }

static void text_roundtrip(struct obj *ob)
{
    struct FunctionTrain *ft = ob->p; size_t prec = sim_flip(1, 4) ? sim_range(4, 16) : sim_range(17, 21);
    char *fn = "text.c3"; int two = sim_flip(1, 3);
    FILE *fp = fopen(fn, "w");
    function_train_savetxt(ft, fp, prec);
    if (two) { fprintf(fp, "\n"); function_train_savetxt(ft, fp, prec); }
    fclose(fp); benign();
    fp = fopen(fn, "r");
    for (int k = 0; k < 1 + two; k++) {
        struct FunctionTrain *g = function_train_loadtxt(fp);
        SIM_CHECK(g != NULL, "text-null", "text form of a function train does not load");
        SIM_CHECK(g->dim == ft->dim, "text-shape", "text load changes dimension %zu to %zu", ft->dim, g->dim);
        for (size_t i = 0; i <= ft->dim; i++) SIM_CHECK(g->ranks[i] == ft->ranks[i], "text-shape", "text load changes a rank");
        size_t n = function_train_get_nparams(ft);
        SIM_CHECK(function_train_get_nparams(g) == n, "text-shape", "text load changes the number of parameters");
        double *a = xcalloc(n + 1, 8), *b = xcalloc(n + 1, 8); function_train_get_params(ft, a); function_train_get_params(g, b);
        for (size_t i = 0; i < n; i++) {
            int ok = prec >= 17 ? same_bits(a[i], b[i]) || (a[i] == 0 && b[i] == 0) : fabs(a[i] - b[i]) <= pow(10.0, -(double)prec + 1.0) * fabs(a[i]);
            SIM_CHECK(ok, "text-value", "parameter %zu written with %zu digits: %a comes back as %a", i, prec, a[i], b[i]);
        }
        xfree(a); xfree(b);
        struct obj o2 = *ob; o2.p = g;
        if (prec >= 17) { struct obs *w = xmalloc(sizeof *w); observe(ob, w); check_same(&o2, w, "text round trip"); xfree(w); sim_probe("io.text_exact"); }
        else {
            double x[MAXD], lo[MAXD], hi[MAXD];
            for (size_t i = 0; i < ft->dim; i++) { lo[i] = generic_function_get_lb(g->cores[i]->funcs[0]); hi[i] = generic_function_get_ub(g->cores[i]->funcs[0]); }
            for (size_t i = 0; i < ft->dim; i++) { double l0 = generic_function_get_lb(ft->cores[i]->funcs[0]); SIM_CHECK(fabs(lo[i] - l0) <= 1e-2 * (1.0 + fabs(l0)), "text-domain", "lower bound %a becomes %a", l0, lo[i]); x[i] = 0.5 * (lo[i] + hi[i]); }
            (void)function_train_eval(g, x); sim_probe("io.text_rounded");
        }
        function_train_free(g);
    }
    fclose(fp);
}
static void bytes_roundtrip(struct obj *ob, const struct obs *w)
{
    /* serialise next to a guard: nothing outside [0,size) may be written, the end pointer must match */
    size_t n = 0, used; unsigned char *b, *e; struct obj o2 = *ob; o2.p = NULL;
    switch (ob->k) {
    case K_FT: function_train_serialize(NULL, ob->p, &n); break;
    case K_FT1D: ft1d_array_serialize(NULL, ob->p, &n); break;
    case K_PDF: probability_density_serialize(NULL, ob->p, &n); break;
    default: return;
    }
    b = malloc(n ? n : 1);
    switch (ob->k) {
    case K_FT: e = function_train_serialize(b, ob->p, NULL); used = (size_t)(e - b); e = function_train_deserialize(b, (struct FunctionTrain **)&o2.p); break;
    case K_FT1D: e = ft1d_array_serialize(b, ob->p, NULL); used = (size_t)(e - b); e = ft1d_array_deserialize(b, (struct FT1DArray **)&o2.p); break;
    default: e = probability_density_serialize(b, ob->p, NULL); used = (size_t)(e - b); e = probability_density_deserialize(b, (struct ProbabilityDensity **)&o2.p); break;
    }
    SIM_CHECK(used <= n, "serialize-size", "%s announced %zu bytes and wrote %zu", kname[ob->k], n, used);
    SIM_CHECK((size_t)(e - b) == used, "serialize-size", "%s wrote %zu bytes but reads back %zu", kname[ob->k], used, (size_t)(e - b));
    memset(b, 0xee, n); free(b);              /* the object must not refer to the buffer */
    check_same(&o2, w, "byte round trip"); obj_free(&o2);
    sim_probe("io.bytes_roundtrip");
}
static void gf_roundtrip(void)
{
    double lb[MAXD], ub[MAXD]; doms(1, lb, ub); gen_large = 1;
    enum gen_cls c = (enum gen_cls)sim_choose(G_NCLS); struct GenericFunction *g = gen_func(c, lb[0], ub[0], 0), *h = NULL;
    size_t n; serialize_generic_function(NULL, g, &n); unsigned char *b = malloc(n ? n : 1);
    unsigned char *e = serialize_generic_function(b, g, NULL); SIM_CHECK((size_t)(e - b) <= n, "serialize-size", "%s function announced %zu bytes and wrote %zu", gen_cls_name[c], n, (size_t)(e - b));
    deserialize_generic_function(b, &h); free(b);
    SIM_CHECK(generic_function_get_fc(h) == generic_function_get_fc(g), "gf-class", "function class changes in a byte round trip");
    size_t np = generic_function_get_num_params(g); SIM_CHECK(generic_function_get_num_params(h) == np, "gf-params", "%s: %zu parameters become %zu", gen_cls_name[c], np, generic_function_get_num_params(h));
    double *p = xcalloc(np + 1, 8), *q = xcalloc(np + 1, 8); generic_function_get_params(g, p); generic_function_get_params(h, q);
    for (size_t i = 0; i < np; i++) SIM_CHECK(same_bits(p[i], q[i]), "gf-params", "%s parameter %zu: %a becomes %a", gen_cls_name[c], i, p[i], q[i]);
    for (int i = 0; i <= 8; i++) {
        double x = lb[0] + (ub[0] - lb[0]) * i / 8.0; if (i == 8) x = ub[0];
        double u = generic_function_1d_eval(g, x), v = generic_function_1d_eval(h, x);
        SIM_CHECK(same_bits(u, v), "gf-eval", "%s at %g: %a becomes %a after a byte round trip", gen_cls_name[c], x, u, v);
        /* scalar and batched evaluation of the restored function agree with the original */
        double w; generic_function_1d_evalN(h, 1, &x, 1, &w, 1);
        double w0; generic_function_1d_evalN(g, 1, &x, 1, &w0, 1);
        SIM_CHECK(same_bits(w, w0), "gf-eval", "%s batched evaluation at %g: %a becomes %a", gen_cls_name[c], x, w0, w);
    }
    SIM_CHECK(same_bits(generic_function_integrate(g), generic_function_integrate(h)), "gf-eval", "integral changes in a byte round trip");
    xfree(p); xfree(q); generic_function_free(g); generic_function_free(h); sim_probe("io.gf_roundtrip");
}
static void arr_text(struct obj *ob)
{
    char *fn = "arr.txt"; SIM_CHECK(darray_save(ob->n, ob->m, ob->p, fn, 1) == 1, "arr-text", "text save fails on a healthy disk");
    const char *s = (const char *)sim_disk_data(fn); size_t len = sim_disk_size(fn);
    char *t = xcalloc(len + 1, 1); memcpy(t, s, len); const double *a = ob->p;
    char *line = t, *nl = strchr(line, '\n'); SIM_CHECK(nl != NULL, "arr-text", "no header line");
    line = nl + 1;
    for (size_t i = 0; i < ob->n; i++) for (size_t j = 0; j < ob->m; j++) {
        char *end; double v = strtod(line, &end); double w = a[j * ob->n + i];
        SIM_CHECK(end != line, "arr-text", "row %zu column %zu missing", i, j); line = end;
        SIM_CHECK(fabs(v - w) <= 1e-15 * fabs(w), "arr-text", "row %zu column %zu: %a printed as %a", i, j, w, v);
    }
    while (*line == ' ' || *line == '\n') line++;
    SIM_CHECK(*line == 0, "arr-text", "extra data in the text file");
    xfree(t); sim_probe("io.array_text");
}

void scn_roundtrip(int inc)
{
    struct st *s = sim_state(sizeof *s); env();
    struct obj live = { 0 }; (void)inc;
    size_t left = inc == 0 ? sim_range(2, 12) : 0;
    if (inc == 0) s->ops = left;
    while (s->ops > 0) {
        s->ops--;
        unsigned op = (unsigned)sim_choose(8); int slot = (int)sim_choose(NSLOT); benign();
        if (op <= 2 || !live.p) {           /* new object, save it */
            if (live.p) obj_free(&live);
            int cls = sim_flip(1, 4) ? -1 : (int)sim_choose(G_NCLS); obj_make(&live, 0, cls); observe(&live, &s->next);
            sim_log("new %s class %d", kname[live.k], live.cls);
            if (op == 2) continue;
            int ok = obj_save(&live, fnames[slot]); sim_log("save slot %d -> %d", slot, ok);
            SIM_CHECK(ok == 1, "save-refused", "save of %s fails on a healthy disk", kname[live.k]);
            s->f[slot].state = 1; s->f[slot].o = s->next; sim_nontrivial(); sim_probe("io.save");
            check_same(&live, &s->next, "saving changed the in-memory object: observation");
        } else if (op == 3) {               /* load one of the files into the live slot */
            if (s->f[slot].state != 1) continue;
            struct obj o; obj_load(&o, &s->f[slot].o, fnames[slot]); sim_log("load slot %d", slot);
            SIM_CHECK(o.p != NULL, "load-null", "intact file of %s does not load", kname[s->f[slot].o.kind]);
            check_same(&o, &s->f[slot].o, "save and load"); obj_free(&live); live = o; s->next = s->f[slot].o; sim_probe("io.load");
        } else if (op == 4) { bytes_roundtrip(&live, &s->next); check_same(&live, &s->next, "serialising changed the in-memory object: observation"); }
        else if (op == 5) {
            if (live.k == K_FT && live.cls >= 0 && gfunc_text_ok(live.cls)) text_roundtrip(&live);
            else if (live.k == K_DARR) arr_text(&live);
            else gf_roundtrip();
        } else if (op == 6) gf_roundtrip();
        else {                              /* the process ends; only the disk survives */
            sim_log("restart"); sim_probe("io.restart"); SIM_CHECK(sim_open_files() == 0, "handle-leak", "%d files left open", sim_open_files()); sim_crash();
        }
    }
    for (int i = 0; i < NSLOT; i++) if (s->f[i].state == 1) {   /* at the end everything ever saved is still there */
        struct obj o; benign(); obj_load(&o, &s->f[i].o, fnames[i]);
        SIM_CHECK(o.p != NULL, "load-null", "intact file of %s does not load", kname[s->f[i].o.kind]);
        check_same(&o, &s->f[i].o, "save and load"); obj_free(&o); sim_probe("io.final_load");
    }
    if (live.p) obj_free(&live);
    SIM_CHECK(sim_open_files() == 0, "handle-leak", "%d files left open", sim_open_files());
    sim_sample("round trips, %d restarts, last object %s", inc, kname[s->next.kind]);
}

/* ---- damaged files are refused ------------------------------------------ */
void scn_damaged(int inc)
{
    struct st *s = sim_state(sizeof *s); env();
    if (inc == 0) {
        /* two intact files, then overwrite one of them in a process that dies in the middle, or damage it afterwards */
        for (int i = 0; i < 2; i++) {
            struct obj o; obj_make(&o, 0, sim_flip(1, 4) ? -1 : (int)sim_choose(G_NCLS)); observe(&o, &s->f[i].o);
            SIM_CHECK(obj_save(&o, fnames[i]) == 1, "save-refused", "save fails on a healthy disk"); s->f[i].state = 1; obj_free(&o);
        }
        s->phase = 1; s->oldhash = sim_disk_hash(fnames[0]);
        unsigned how = (unsigned)sim_choose(3);
        if (how == 0) {                     /* crash during an overwrite */
            struct obj o; obj_make(&o, (int)s->f[0].o.kind, sim_flip(1, 4) ? -1 : (int)sim_choose(G_NCLS)); observe(&o, &s->next); s->f[0].state = 2; s->pending = 1;
            sim_io_reset(); sim_io.crash_at = (int64_t)sim_choose(5); sim_log("overwrite, crash at system call %d", (int)sim_io.crash_at);
            (void)obj_save(&o, fnames[0]); sim_io_reset(); sim_log("overwrite survived"); s->pending = 0; s->f[0].state = 1; s->f[0].o = s->next; obj_free(&o);
            sim_probe("io.crash_missed");
        } else if (how == 1) {              /* lost tail */
            size_t len = sim_disk_size(fnames[0]), cut = sim_choose(len);
            if (sim_flip(1, 3) && len > 1) cut = len - 1 - sim_choose(len > 40 ? 40 : len - 1);
            if (sim_flip(1, 4)) cut = sim_choose(len < 24 ? len : 24);
            sim_disk_truncate(fnames[0], cut); sim_fault(F_TRUNCATE); s->f[0].state = 3; sim_log("file of %s cut from %zu to %zu bytes", kname[s->f[0].o.kind], len, cut);
        } else { sim_disk_remove(fnames[0]); sim_fault(F_MISSING); s->f[0].state = 3; sim_log("file removed"); }
    }
    if (s->f[0].state == 2 && sim_disk_hash(fnames[0]) == s->oldhash) { s->f[0].state = 1; sim_probe("io.torn_old_kept"); }   /* died before the old contents were touched */
    /* recovery: any number of attempts, also with read errors, must never produce a wrong object */
    size_t tries = sim_range(1, 3);
    for (size_t t = 0; t < tries; t++) {
        sim_io_reset(); benign();
        struct fstate *f = &s->f[0]; struct obj o; int eio = 0;
        if (sim_flip(1, 4)) { sim_io.read_eio_at = (int64_t)sim_choose(3); eio = 1; }
        uint64_t e0 = sim_fault_count(F_READ_EIO);
        struct obs like = f->state == 2 ? s->next : f->o; like.kind = f->o.kind;
        if (f->state == 2) { like.n = s->next.n; like.m = s->next.m; }
        obj_load(&o, &like, fnames[0]); sim_io_reset();
        eio = sim_fault_count(F_READ_EIO) != e0;
        sim_log("load damaged (state %d, eio %d) -> %s", f->state, eio, o.p ? "object" : "NULL"); sim_nontrivial();
        SIM_CHECK(sim_open_files() == 0, "handle-leak", "%d files left open by a load", sim_open_files());
        if (f->state == 3) { SIM_CHECK(o.p == NULL, "damaged-accepted", "file of %s with missing bytes loads as an object", kname[f->o.kind]); sim_probe("io.damaged_refused"); }
        else if (f->state == 2) {
            if (o.p) { check_same(&o, &s->next, "torn overwrite: load"); sim_probe("io.torn_complete"); } else sim_probe("io.torn_refused");
        } else { if (o.p) check_same(&o, &f->o, "load"); else SIM_CHECK(eio, "load-null", "intact file does not load"); }
        if (eio && !o.p) sim_probe("io.read_error_refused");
        if (o.p) obj_free(&o);
        /* the other file is unaffected, now and after any number of failures */
        obj_load(&o, &s->f[1].o, fnames[1]); SIM_CHECK(o.p != NULL, "load-null", "intact file does not load after a failed load");
        check_same(&o, &s->f[1].o, "load beside a damaged file"); obj_free(&o);
    }
    if (sim_flip(1, 2)) {                   /* faults stop: saving again repairs the file */
        struct obj o; sim_io_reset(); obj_make(&o, (int)s->f[0].o.kind, (int)sim_choose(G_NCLS)); observe(&o, &s->next);
        SIM_CHECK(obj_save(&o, fnames[0]) == 1, "save-refused", "save fails on a healthy disk"); obj_free(&o);
        obj_load(&o, &s->next, fnames[0]); SIM_CHECK(o.p != NULL, "load-null", "file saved again does not load"); check_same(&o, &s->next, "save after damage"); obj_free(&o); sim_probe("io.repaired");
    }
    sim_sample("damage state %d of %s, %d restarts", s->f[0].state, kname[s->f[0].o.kind], inc);
}

/* ---- saves tell the truth ------------------------------------------------- */
void scn_savefail(int inc)
{
    struct st *s = sim_state(sizeof *s); env(); (void)inc;
    struct obj keep; obj_make(&keep, 0, sim_flip(1, 4) ? -1 : (int)sim_choose(G_NCLS)); observe(&keep, &s->f[1].o);
    SIM_CHECK(obj_save(&keep, fnames[1]) == 1, "save-refused", "save fails on a healthy disk"); obj_free(&keep);
    uint64_t h1 = sim_disk_hash(fnames[1]);
    struct obj o; obj_make(&o, 0, sim_flip(1, 4) ? -1 : (int)sim_choose(G_NCLS)); observe(&o, &s->next); int text = o.k == K_DARR && sim_flip(1, 3);
    size_t n = sim_range(1, 4);
    for (size_t t = 0; t < n; t++) {
        sim_io_reset(); unsigned how = (unsigned)sim_choose(6);
        if (how == 0) sim_io.open_fail = 1;
        else if (how == 1) sim_io.write_limit = (int64_t)sim_choose(sim_flip(1, 2) ? 64 : 6000);
        else if (how == 2) sim_io.write_eio_at = (int64_t)sim_choose(2);
        else if (how == 3) sim_io.close_fail = 1;
        uint64_t f0 = sim_fault_count(F_OPEN_FAIL) + sim_fault_count(F_WRITE_NOSPC) + sim_fault_count(F_WRITE_EIO) + sim_fault_count(F_CLOSE_FAIL);
        if (how == 5) { sim_allow_failstop(3); sim_alloc_fail_at((int64_t)sim_choose(sim_flip(1, 2) ? 3 : 40)); }
        uint64_t a0 = sim_fault_count(F_ALLOC_FAIL); int ok = text ? darray_save(o.n, o.m, o.p, fnames[0], 1) : obj_save(&o, fnames[0]);
        int starved = sim_fault_count(F_ALLOC_FAIL) != a0; if (how == 5) { sim_alloc_fail_at(-1); sim_allow_failstop(0); }
        if (starved) sim_probe(ok ? "io.save_starved_ok" : "io.save_starved_reported");
        int faulted = sim_fault_count(F_OPEN_FAIL) + sim_fault_count(F_WRITE_NOSPC) + sim_fault_count(F_WRITE_EIO) + sim_fault_count(F_CLOSE_FAIL) != f0;
        sim_io_reset(); sim_log("save %s (fault mode %u, hit %d) -> %d", kname[o.k], how, faulted, ok); sim_nontrivial();
        if (faulted) { SIM_CHECK(ok == 0, "save-lies", "save of %s returns %d although the data did not reach the disk", kname[o.k], ok); sim_probe("io.save_failure_reported"); }
        else if (!starved) SIM_CHECK(ok == 1, "save-refused", "save of %s returns %d although nothing failed", kname[o.k], ok);
        SIM_CHECK(sim_open_files() == 0, "handle-leak", "%d files left open by a save", sim_open_files());
        SIM_CHECK(sim_disk_hash(fnames[1]) == h1, "other-file", "saving changed another file");
        check_same(&o, &s->next, "a failing save changed the in-memory object: observation");
        if (ok == 1 && !text) { struct obj l; obj_load(&l, &s->next, fnames[0]); SIM_CHECK(l.p != NULL, "save-lies", "save returned success, the file does not load"); check_same(&l, &s->next, "save and load"); obj_free(&l); }
    }
    /* once faults stop the next save succeeds */
    SIM_CHECK((text ? darray_save(o.n, o.m, o.p, fnames[0], 1) : obj_save(&o, fnames[0])) == 1, "no-recovery", "save still fails after the faults stopped");
    if (!text) { struct obj l; obj_load(&l, &s->next, fnames[0]); SIM_CHECK(l.p != NULL, "no-recovery", "file does not load after the faults stopped"); check_same(&l, &s->next, "save and load"); obj_free(&l); }
    sim_sample("%zu saves of %s under disk faults", n, kname[o.k]);
    obj_free(&o);
}
