#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

const char *sim_fault_names[F_NKINDS] = {
    "open_fail", "write_enospc", "write_eio", "close_fail", "short_read", "read_eio", "small_chunk",
    "crash", "torn_write", "truncated_file", "missing_file", "restart", "alloc_fail", "heap_dirt", "stack_dirt",
    "callback_error", "callback_nan", "callback_inf", "callback_noise", "callback_jump", "clock_jump",
    "foreign_rand_use", "extreme_rand", "preempt", "reentrant_call", "address_reuse"};

/* ------------------------------------------------------------------ shared */
#define MAXCHOICES (1u << 17)
#define LOGCAP (1u << 20)
#define NPROBES 256
#define NFILES 24
#define FILECAP (1u << 20)
#define STATECAP (1u << 20)
#define COVN (1u << 20)

enum status { ST_RUNNING, ST_DONE, ST_CRASH, ST_VIOLATION, ST_FAILSTOP, ST_HARNESS };

struct sfile { char name[64]; int exists; uint32_t len; uint32_t cap_used; };

struct shared {
    /* choices */
    uint32_t nchoices, pos;
    int replay;
    uint64_t rng[2];
    /* history */
    uint64_t hash, steps, sched_hash, switches;
    uint32_t loglen; int log_overflow;
    int status, allow_failstop, nontrivial, incarnation;
    char sig[128], msg[1024], sample[512], crashinfo[512];
    uint64_t faults[F_NKINDS];
    uint64_t fillxor;
    uint64_t known;
    char known_id[64];
    struct sfile files[NFILES];
    uint32_t state_used;
    /* accumulated over the worker's life (not reset) */
    struct { char name[48]; uint64_t n; } probes[NPROBES];
    unsigned char cov[COVN];
};
static struct shared *S;
static uint64_t *CH;          /* choice list   */
static char *LOG;             /* history text  */
static unsigned char *FD;     /* file contents */
static unsigned char *STATE;
int sim_verbose = 0;
static int quiet_accum = 0;   /* do not accumulate probes (gating reruns, minimisation) */

static uint64_t now_ms(void)
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}

/* ------------------------------------------------------------------ choices */
static uint64_t rng_next(void)
{
    uint64_t s1 = S->rng[0], s0 = S->rng[1];
    S->rng[0] = s0; s1 ^= s1 << 23;
    S->rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return S->rng[1] + s0;
}

uint64_t sim_choose(uint64_t n)
{
    uint64_t v;
    if (n <= 1) return 0;
    if (S->replay) {
        v = S->pos < S->nchoices ? CH[S->pos] % n : 0;
        S->pos++;
    } else {
        v = (rng_next() >> 11) % n;
        if (S->nchoices < MAXCHOICES) CH[S->nchoices] = v; else v = 0;
        if (S->nchoices < MAXCHOICES) S->nchoices++;
        S->pos++;
    }
    return v;
}
int sim_flip(unsigned num, unsigned den) { return sim_choose(den) >= den - num; }
size_t sim_range(size_t lo, size_t hi) { return lo + sim_choose(hi - lo + 1); }
double sim_double(double lo, double hi)
{
    uint64_t k = sim_choose(65537);
    if (k == 65536) return hi;
    return lo + (hi - lo) * ((double)k / 65536.0);
}
double sim_value(void)
{
    switch (sim_choose(8)) {
    case 0: return 0.0;
    case 1: return (double)sim_choose(10);
    case 2: return -(double)sim_choose(10);
    case 3: case 4: return sim_double(-1.0, 1.0);
    case 5: return sim_double(-1.0, 1.0) / 3.0;
    case 6: return sim_double(-1000.0, 1000.0) * 1.1;
    default: return ldexp(1.0 + sim_double(0, 1) / 3.0, (int)sim_choose(80) - 40) * (sim_choose(2) ? -1 : 1);
    }
}

/* ------------------------------------------------------------------ history */
static void log_raw(const char *s, size_t n)
{
    uint64_t h = S->hash;
    for (size_t i = 0; i < n; i++) { h ^= (unsigned char)s[i]; h *= 0x100000001b3ULL; }
    S->hash = h;
    if (S->loglen + n < LOGCAP) { memcpy(LOG + S->loglen, s, n); S->loglen += n; }
    else S->log_overflow = 1;
}
void sim_log(const char *fmt, ...)
{
    char b[2048]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
    if (n < 0) n = 0;
    if ((size_t)n > sizeof b - 2) n = sizeof b - 3;
    b[n++] = '\n';
    log_raw(b, (size_t)n);
}
void sim_log_doubles(const char *what, size_t n, const double *x)
{
    char b[64]; log_raw(what, strlen(what));
    for (size_t i = 0; i < n; i++) {
        int k = x[i] != x[i] ? snprintf(b, sizeof b, " nan") : snprintf(b, sizeof b, " %a", x[i]);
        log_raw(b, (size_t)k);
    }
    log_raw("\n", 1);
}
void sim_violation(const char *sig, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
    snprintf(S->sig, sizeof S->sig, "%s", sig);
    for (char *p = S->msg; *p; p++) if (*p == '\n') *p = ' ';
    sim_log("VIOLATION %s: %s", sig, S->msg);
    S->status = ST_VIOLATION;
    _exit(0);
}
void sim_probe_n(const char *name, uint64_t n)
{
    if (quiet_accum) return;
    for (int i = 0; i < NPROBES; i++) {
        if (!S->probes[i].name[0]) snprintf(S->probes[i].name, sizeof S->probes[i].name, "%s", name);
        if (!strncmp(S->probes[i].name, name, sizeof S->probes[i].name - 1)) { S->probes[i].n += n; return; }
    }
}
void sim_probe(const char *name) { sim_probe_n(name, 1); }
void sim_nontrivial(void) { S->nontrivial = 1; }
void sim_sample(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(S->sample, sizeof S->sample, fmt, ap); va_end(ap);
}
void sim_known(const char *id) { S->known++; snprintf(S->known_id, sizeof S->known_id, "%s", id); }
void sim_fault(enum sim_fault k) { S->faults[k]++; }
uint64_t sim_fault_count(enum sim_fault k) { return S->faults[k]; }
uint64_t sim_steps(void) { return S->steps; }
void *sim_state(size_t bytes)
{
    if (bytes > STATECAP) { fprintf(stderr, "state too big\n"); _exit(3); }
    if (bytes > S->state_used) S->state_used = (uint32_t)bytes;
    return STATE;
}
void sim_allow_failstop(int on) { S->allow_failstop = on; }

void sim_crash(void)
{
    sim_log("-- process dies");
    S->status = ST_CRASH;
    _exit(0);
}

static void failstop(const char *what)
{
    if (S->allow_failstop) {
        sim_log("-- library stops the process: %s", what);
        S->status = ST_FAILSTOP;
        _exit(0);
    }
    sim_violation("failstop", "library stopped the process: %s", what);
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { char b[64]; snprintf(b, sizeof b, "exit(%d)", c); failstop(b); for (;;); }
void __wrap_abort(void) { failstop("abort()"); for (;;); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    char b[512]; (void)l; (void)f;
    snprintf(b, sizeof b, "assertion '%s' in %s", e, fn);
    failstop(b); for (;;);
}

/* ------------------------------------------------------------------ steps, preemption */
#define DEFAULT_STEP_LIMIT 400000000ULL
static uint64_t step_limit = DEFAULT_STEP_LIMIT;
static const char *step_sig = "no-termination";
void sim_step_limit(uint64_t l, const char *sig)
{
    step_limit = l ? S->steps + l : DEFAULT_STEP_LIMIT; step_sig = sig ? sig : "no-termination";
}
#define MAXTASKS 8
static struct { sem_t sem; int done, started; sim_task_fn fn; void *arg; pthread_t th; } T[MAXTASKS];
static int ntasks, nopreempt;
static volatile int sched_on;
static sem_t main_sem;
static __thread int my_id = -1;
static int64_t countdown;
uint64_t sim_switches(void) { return S->switches; }
void sim_no_preempt(int on) { nopreempt += on ? 1 : -1; }

static void draw_countdown(void)
{
    unsigned e = (unsigned)sim_choose(15);
    countdown = e == 0 ? 100000000 : (int64_t)1 + (int64_t)sim_choose(1u << e);
}
static void switch_to(int next)
{
    int me = my_id;
    if (next == me) return;
    sem_post(&T[next].sem);
    while (sem_wait(&T[me].sem) != 0) {}
}
void sim_yield(void)
{
    if (!sched_on || my_id < 0) return;
    int live[MAXTASKS], n = 0;
    for (int i = 0; i < ntasks; i++) if (!T[i].done) live[n++] = i;
    int next = live[sim_choose((uint64_t)n)];
    draw_countdown();
    if (next != my_id) {
        S->switches++; sim_fault(F_PREEMPT);
        S->sched_hash = mix(S->sched_hash ^ ((uint64_t)next << 56) ^ S->steps);
    }
    switch_to(next);
}
static void *task_main(void *p)
{
    int id = (int)(intptr_t)p;
    my_id = id;
    while (sem_wait(&T[id].sem) != 0) {}
    T[id].fn(T[id].arg);
    T[id].done = 1;
    int live[MAXTASKS], n = 0;
    for (int i = 0; i < ntasks; i++) if (!T[i].done) live[n++] = i;
    if (!n) { sched_on = 0; sem_post(&main_sem); }
    else { int next = live[sim_choose((uint64_t)n)]; draw_countdown(); sem_post(&T[next].sem); }
    return NULL;
}
void sim_tasks_run(size_t n, sim_task_fn *fn, void **arg)
{
    ntasks = (int)n;
    sem_init(&main_sem, 0, 0);
    for (int i = 0; i < ntasks; i++) {
        sem_init(&T[i].sem, 0, 0); T[i].done = 0; T[i].fn = fn[i]; T[i].arg = arg[i];
    }
    for (int i = 0; i < ntasks; i++) pthread_create(&T[i].th, NULL, task_main, (void *)(intptr_t)i);
    draw_countdown();
    sched_on = 1;
    sem_post(&T[sim_choose(n)].sem);
    while (sem_wait(&main_sem) != 0) {}
    for (int i = 0; i < ntasks; i++) pthread_join(T[i].th, NULL);
}

void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void)
{
    if (!S) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    S->steps++;
    S->cov[(pc ^ (pc >> 20)) & (COVN - 1)] = 1;
    if (S->steps > step_limit)
        sim_violation(step_sig, "still running after %llu basic blocks", (unsigned long long)step_limit);
    if (sched_on && my_id >= 0 && !nopreempt && --countdown <= 0) sim_yield();
}

/* ------------------------------------------------------------------ heap seam */
struct blk { void *p; size_t n; uint64_t seq; void *site; };
static struct blk *B; static size_t bcap, bcount;
static uint64_t alloc_seq = 1, fillstate; static int64_t fail_in = -1, fail_more;
static int fill_on = 0;

static size_t bslot(void *p) { return (size_t)(mix((uint64_t)(uintptr_t)p) & (bcap - 1)); }
static void badd(void *p, size_t n, void *site)
{
    if (!p) return;
    if (!B || bcount * 2 >= bcap) {
        size_t oc = bcap; struct blk *ob = B;
        bcap = oc ? oc * 2 : 4096; B = __real_calloc(bcap, sizeof *B); bcount = 0;
        for (size_t i = 0; i < oc; i++) if (ob[i].p && ob[i].p != (void *)1) {
            size_t s = bslot(ob[i].p); while (B[s].p) s = (s + 1) & (bcap - 1);
            B[s] = ob[i]; bcount++;
        }
        __real_free(ob);
    }
    size_t s = bslot(p);
    while (B[s].p && B[s].p != (void *)1) s = (s + 1) & (bcap - 1);
    if (!B[s].p) bcount++;
    B[s].p = p; B[s].n = n; B[s].seq = alloc_seq; B[s].site = site;
}
static int bdel(void *p, size_t *n)
{
    if (!B || !p) return 0;
    size_t s = bslot(p);
    while (B[s].p) {
        if (B[s].p == p) { if (n) *n = B[s].n; B[s].p = (void *)1; return 1; }
        s = (s + 1) & (bcap - 1);
    }
    return 0;
}
static void dirt(void *p, size_t n)
{
    if (!fill_on || !p) return;
    unsigned char *c = p; uint64_t x = mix(fillstate + alloc_seq);
    /* a mixture of small doubles, tiny integers and wild bytes */
    for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) x = mix(x); c[i] = (unsigned char)(x >> ((i & 7) * 8)); }
    if (x & 1) for (size_t i = 0; i + 8 <= n; i += 8) { double d = (double)(x >> 40) / 1024.0 + 1.0; memcpy(c + i, &d, 8); }
}
static int failing(void)
{
    alloc_seq++;
    if (fail_in < 0) return 0;
    if (fail_in-- == 0) { if (fail_more) { fail_more--; fail_in = 0; } sim_fault(F_ALLOC_FAIL); sim_log("-- allocation fails"); return 1; }
    return 0;
}
/* Freed blocks come back at once for the next request of their size, as with an ordinary allocator
 * (the sanitizer keeps them away otherwise), so that nothing may be remembered by its address. */
#define NBIN 128
static struct { void *p; size_t n; } bin[NBIN]; static size_t binat; static int reuse_on;   /* 1: the latest first, 2: the oldest first */
void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t);
static void *recycled(size_t n)
{
    if (!reuse_on) return NULL;
    for (size_t k = 0; k < NBIN; k++) {
        size_t i = reuse_on == 1 ? (binat + NBIN - 1 - k) % NBIN : (binat + k) % NBIN; if (!bin[i].p || bin[i].n != n) continue;
        void *p = bin[i].p; bin[i].p = NULL; __asan_unpoison_memory_region(p, n); sim_fault(F_ADDR_REUSE); return p;
    }
    return NULL;
}
static int keep(void *p, size_t n)
{
    for (size_t i = 0; i < NBIN; i++) if (bin[i].p == p) { __asan_unpoison_memory_region(p, bin[i].n); __real_free(p); return 0; }   /* freed twice: the caller frees it again */
    if (!reuse_on || !n) return 0;
    if (bin[binat].p) { __asan_unpoison_memory_region(bin[binat].p, bin[binat].n); __real_free(bin[binat].p); }
    bin[binat].p = p; bin[binat].n = n; binat = (binat + 1) % NBIN; __asan_poison_memory_region(p, n); return 1;
}
void *__wrap_malloc(size_t n)
{
    if (!S) return __real_malloc(n);
    if (failing()) { errno = ENOMEM; return NULL; }
    void *p = recycled(n); if (!p) p = __real_malloc(n);
    dirt(p, n); badd(p, n, __builtin_return_address(0)); return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (!S) return __real_calloc(a, b);
    if (failing()) { errno = ENOMEM; return NULL; }
    void *p = (b == 0 || a <= SIZE_MAX / b) ? recycled(a * b) : NULL;
    if (p) memset(p, 0, a * b); else p = __real_calloc(a, b);
    badd(p, a * b, __builtin_return_address(0)); return p;
}
void *__wrap_realloc(void *o, size_t n)
{
    if (!S) return __real_realloc(o, n);
    if (failing()) { errno = ENOMEM; return NULL; }
    size_t on = 0; int had = bdel(o, &on);
    void *p = __real_realloc(o, n);
    if (p && (had || !o) && n > on) dirt((char *)p + on, n - on);
    badd(p, n, __builtin_return_address(0)); return p;
}
void __wrap_free(void *p)
{
    size_t n = 0; int known = p && S ? bdel(p, &n) : 0;
    if (p && S && keep(p, known ? n : 0)) return;
    __real_free(p);
}
void sim_heap_fill(uint64_t s)
{
    fillstate = mix(s ^ S->fillxor); fill_on = 1; reuse_on = (int[]){ 0, 1, 1, 2 }[fillstate >> 7 & 3]; sim_fault(F_HEAP_DIRT);
}
size_t sim_heap_live_since(uint64_t m)
{
    size_t c = 0;
    for (size_t i = 0; i < bcap; i++) if (B[i].p && B[i].p != (void *)1 && B[i].seq >= m) c++;
    return c;
}
size_t sim_heap_live(void) { return sim_heap_live_since(0); }
uint64_t sim_heap_mark(void) { return alloc_seq + 1; }
uint64_t sim_alloc_calls(void) { return alloc_seq; }
void sim_alloc_fail_at(int64_t nth) { fail_in = nth; fail_more = 0; }
void sim_alloc_fail_run(int64_t nth, int64_t count) { fail_in = nth; fail_more = count - 1; }
void sim_heap_report_since(uint64_t m, char *buf, size_t n)
{
    size_t k = 0, shown = 0; buf[0] = 0;
    for (size_t i = 0; i < bcap && shown < 4; i++)
        if (B[i].p && B[i].p != (void *)1 && B[i].seq >= m) {
            k += (size_t)snprintf(buf + k, n - k, "%s%zu bytes allocated at pc=%p", shown ? "; " : "", B[i].n, B[i].site);
            shown++; if (k >= n) break;
        }
}
void __attribute__((noinline)) sim_dirty_stack(uint64_t seed)
{
    volatile unsigned char a[1 << 15]; uint64_t x = mix(seed ^ S->fillxor ^ 0x51ac);
    for (size_t i = 0; i < sizeof a; i++) { if ((i & 7) == 0) x = mix(x); a[i] = (unsigned char)(x >> ((i & 7) * 8)); }
    sim_fault(F_STACK_DIRT);
}

/* ------------------------------------------------------------------ disk seam */
struct sim_io_plan sim_io = { 0, -1, -1, 0, -1, 0, -1 };
static uint64_t ioc, nwrites, nreads; static int nopen;
void sim_io_reset(void)
{
    struct sim_io_plan z = { 0, -1, -1, 0, -1, 0, -1 }; sim_io = z; ioc = nwrites = nreads = 0;
}
uint64_t sim_io_calls(void) { return ioc; }
int sim_open_files(void) { return nopen; }
static struct sfile *ffind(const char *n, int create)
{
    struct sfile *fr = NULL;
    for (int i = 0; i < NFILES; i++) {
        if (S->files[i].name[0] && !strcmp(S->files[i].name, n)) return &S->files[i];
        if (!S->files[i].name[0] && !fr) fr = &S->files[i];
    }
    if (!create || !fr) return NULL;
    snprintf(fr->name, sizeof fr->name, "%s", n); return fr;
}
static unsigned char *fdata(struct sfile *f) { return FD + (size_t)(f - S->files) * FILECAP; }
struct ck { struct sfile *f; size_t pos; int wr, app; };
static void io_step(void)
{
    if (sim_io.crash_at >= 0 && (int64_t)ioc == sim_io.crash_at) { ioc++; sim_fault(F_CRASH); sim_crash(); }
    ioc++;
}
static ssize_t ck_read(void *c, char *buf, size_t n)
{
    struct ck *k = c; io_step();
    if (sim_io.read_eio_at >= 0 && (int64_t)nreads++ >= sim_io.read_eio_at) {
        sim_fault(F_READ_EIO); sim_log("-- read error"); errno = EIO; return -1;
    }
    size_t left = k->f->len > k->pos ? k->f->len - k->pos : 0;
    if (n > left) n = left;
    if (sim_io.chunk > 0 && n > (size_t)sim_io.chunk) { n = (size_t)sim_io.chunk; sim_fault(F_SHORT_READ); }
    memcpy(buf, fdata(k->f) + k->pos, n); k->pos += n;
    return (ssize_t)n;
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
    struct ck *k = c; size_t m = n;
    if (sim_io.crash_at >= 0 && (int64_t)ioc == sim_io.crash_at && n) {
        m = sim_choose(n + 1); sim_fault(F_TORN);
        sim_log("-- torn write: %zu of %zu bytes reach the disk", m, n);
    }
    if (sim_io.write_eio_at >= 0 && (int64_t)nwrites++ == sim_io.write_eio_at) {
        sim_fault(F_WRITE_EIO); sim_log("-- write error"); errno = EIO; return 0;
    }
    if (sim_io.write_limit >= 0 && (int64_t)m > sim_io.write_limit) {
        m = (size_t)sim_io.write_limit; sim_fault(F_WRITE_NOSPC);
        sim_log("-- disk full: %zu of %zu bytes written", m, n);
    }
    if (sim_io.write_limit >= 0) sim_io.write_limit -= (int64_t)m;
    if (k->app) k->pos = k->f->len;
    if (k->pos + m > FILECAP) { sim_log("harness: file too large"); S->status = ST_HARNESS; _exit(0); }
    memcpy(fdata(k->f) + k->pos, buf, m); k->pos += m;
    if (k->pos > k->f->len) k->f->len = (uint32_t)k->pos;
    io_step();
    if (m < n) errno = ENOSPC;
    return (ssize_t)m;
}
static int ck_seek(void *c, off64_t *o, int wh)
{
    struct ck *k = c; int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)k->pos : (int64_t)k->f->len;
    if (b + *o < 0) { errno = EINVAL; return -1; }
    k->pos = (size_t)(b + *o); *o = (off64_t)k->pos; return 0;
}
static int ck_close(void *c)
{
    struct ck *k = c; int bad = 0;
    io_step(); nopen--;
    if (k->wr && sim_io.close_fail > 0) {
        sim_io.close_fail--; sim_fault(F_CLOSE_FAIL); sim_log("-- close error");
        /* delayed allocation: what the failed close was to write back is lost */
        k->f->len -= (uint32_t)sim_choose(k->f->len + 1); errno = EIO; bad = -1;
    }
    __real_free(k); return bad;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *name, const char *mode)
{
    if (!S) return __real_fopen(name, mode);
    if (name[0] == '/' ) return NULL;           /* nothing outside the simulated disk */
    io_step();
    if (sim_io.open_fail > 0) {
        sim_io.open_fail--; sim_fault(F_OPEN_FAIL); sim_log("-- open fails"); errno = EMFILE; return NULL;
    }
    int wr = mode[0] != 'r' || strchr(mode, '+');
    struct sfile *f = ffind(name, mode[0] != 'r');
    if (!f || (mode[0] == 'r' && !f->exists)) { errno = ENOENT; return NULL; }
    if (mode[0] == 'w') f->len = 0;
    f->exists = 1;
    struct ck *k = __real_calloc(1, sizeof *k);
    k->f = f; k->wr = wr; k->app = mode[0] == 'a';
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *fp = fopencookie(k, mode, io);
    if (fp) nopen++;
    return fp;
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
int __wrap_remove(const char *n) { struct sfile *f = ffind(n, 0); if (!f || !f->exists) { errno = ENOENT; return -1; } f->exists = 0; f->len = 0; return 0; }
int __wrap_unlink(const char *n) { return __wrap_remove(n); }
int __wrap_rename(const char *a, const char *b)
{
    io_step();
    struct sfile *f = ffind(a, 0); if (!f || !f->exists) { errno = ENOENT; return -1; }
    struct sfile *g = ffind(b, 1); if (!g) return -1;
    memcpy(fdata(g), fdata(f), f->len); g->len = f->len; g->exists = 1; f->exists = 0; f->len = 0; return 0;
}
int sim_disk_exists(const char *n) { struct sfile *f = ffind(n, 0); return f && f->exists; }
size_t sim_disk_size(const char *n) { struct sfile *f = ffind(n, 0); return f && f->exists ? f->len : 0; }
void sim_disk_truncate(const char *n, size_t l) { struct sfile *f = ffind(n, 0); if (f && f->len > l) f->len = (uint32_t)l; }
void sim_disk_remove(const char *n) { struct sfile *f = ffind(n, 0); if (f) { f->exists = 0; f->len = 0; } }
const unsigned char *sim_disk_data(const char *n) { struct sfile *f = ffind(n, 0); return f ? fdata(f) : NULL; }
void sim_disk_put(const char *n, const void *d, size_t l)
{
    struct sfile *f = ffind(n, 1); memcpy(fdata(f), d, l); f->len = (uint32_t)l; f->exists = 1;
}
uint64_t sim_disk_hash(const char *n)
{
    struct sfile *f = ffind(n, 0); uint64_t h = 0xcbf29ce484222325ULL;
    if (!f || !f->exists) return 0;
    for (uint32_t i = 0; i < f->len; i++) { h ^= fdata(f)[i]; h *= 0x100000001b3ULL; }
    return h | 1;
}

/* ------------------------------------------------------------------ randomness and clock seam */
static uint64_t rstate = 1, rcalls, tcalls; static int rmode; static int64_t clk = 1700000000;
int __wrap_rand(void)
{
    rcalls++; rstate += 0x9e3779b97f4a7c15ULL; uint64_t x = mix(rstate);
    if (rmode == R_EXTREME) {
        unsigned k = (unsigned)(x >> 60);
        if (k == 0) { sim_fault(F_RAND_EXTREME); return 0; }
        if (k == 1) { sim_fault(F_RAND_EXTREME); return 2147483647; }
        if (k == 2) { sim_fault(F_RAND_EXTREME); return 1; }
    }
    int r = (int)((x >> 16) & 0x7fffffff); return r ? r : 1;      /* exact zeros only in the extreme mode */
}
void __wrap_srand(unsigned s) { rstate = mix(s); }
void sim_rand_reseed(unsigned s) { rstate = mix(s); }
void sim_rand_mode(enum sim_rand_mode m) { rmode = m; }
uint64_t sim_rand_calls(void) { return rcalls; }
time_t __wrap_time(time_t *t) { tcalls++; if (t) *t = (time_t)clk; return (time_t)clk; }
void sim_clock_set(int64_t t) { clk = t; }
void sim_clock_jump(int64_t d) { clk += d; sim_fault(F_CLOCK_JUMP); }
uint64_t sim_clock_reads(void) { return tcalls; }

/* ------------------------------------------------------------------ sanitizer glue */
const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:symbolize=0:print_summary=0:"
           "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=2:handle_abort=0:color=never";
}
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void on_asan(const char *r)
{
    const char *p = strstr(r, "AddressSanitizer: "); size_t n = 0;
    if (!S) return;
    if (p) { p += 18; while (p[n] && p[n] != ' ' && p[n] != '\n' && n < 60) n++; }
    snprintf(S->crashinfo, sizeof S->crashinfo, "memory error: %.*s", (int)n, p ? p : "");
    const char *q = p ? strstr(p, "SEGV on unknown address 0x") : NULL;
    if (q && strtoull(q + 24, NULL, 16) < (1u << 20)) snprintf(S->crashinfo, sizeof S->crashinfo, "null pointer access");
}

/* ------------------------------------------------------------------ one run */
struct result {
    int status; uint64_t hash, steps, sched_hash, switches; char sig[128], msg[1024], sample[512];
    int nontrivial; int incarnations; uint64_t faults[F_NKINDS]; uint64_t known; char known_id[64];
};
static void shared_init(void)
{
#define MAP(n) mmap(NULL, (n), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)
    CH = MAP(MAXCHOICES * sizeof *CH); LOG = MAP(LOGCAP);
    FD = MAP((size_t)NFILES * FILECAP); STATE = MAP(STATECAP);
    S = MAP(sizeof *S);
}
static void start(const struct sim_scenario *sc, int inc)
{
    if (!sim_verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd); }
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(on_asan);
    sc->fn(inc);
    S->status = ST_DONE;
    _exit(0);
}
static void one_pass(const struct sim_scenario *sc, uint64_t seed, int replay, uint32_t n, uint64_t fillxor, struct result *r)
{
    S->replay = replay; S->nchoices = replay ? n : 0; S->pos = 0;
    S->rng[0] = mix(seed); S->rng[1] = mix(seed ^ 0xabcdef) | 1;
    S->hash = 0xcbf29ce484222325ULL; S->steps = 0; S->sched_hash = 0; S->switches = 0;
    S->loglen = 0; S->log_overflow = 0; S->allow_failstop = 0; S->nontrivial = 0; S->known = 0;
    S->sig[0] = S->msg[0] = S->sample[0] = S->crashinfo[0] = 0;
    memset(S->faults, 0, sizeof S->faults); memset(S->files, 0, sizeof S->files);
    memset(STATE, 0, S->state_used); S->state_used = 0; S->fillxor = fillxor;
    memset(r, 0, sizeof *r);
    int inc = 0;
    for (;; inc++) {
        S->status = ST_RUNNING; S->incarnation = inc; S->allow_failstop = 0;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) { start(sc, inc); }
        int ws; uint64_t t0 = now_ms();
        /* wall-clock guard against a hang outside instrumented code: reported as a harness error, never as a verdict */
        for (;;) {
            pid_t w = waitpid(p, &ws, t0 + 1000 > now_ms() ? WNOHANG : WNOHANG);
            if (w == p) break;
            if (now_ms() - t0 > 120000) { kill(p, SIGKILL); waitpid(p, &ws, 0); S->status = ST_HARNESS; snprintf(S->msg, sizeof S->msg, "run exceeded 120 s wall clock"); break; }
            struct timespec ts = { 0, now_ms() - t0 < 20 ? 20000 : 500000 }; nanosleep(&ts, NULL);
        }
        if (S->status == ST_RUNNING) {
            if (WIFSIGNALED(ws)) snprintf(S->msg, sizeof S->msg, "process killed by signal %d", WTERMSIG(ws));
            else snprintf(S->msg, sizeof S->msg, "%s", S->crashinfo[0] ? S->crashinfo : "process ended unexpectedly");
            if (S->allow_failstop == 2 || (S->allow_failstop == 3 && (!S->crashinfo[0] || !strcmp(S->crashinfo, "null pointer access")))) { sim_log("-- process dies: %s", S->msg); S->status = ST_FAILSTOP; }
            else { snprintf(S->sig, sizeof S->sig, "crash"); sim_log("VIOLATION crash: %s", S->msg); S->status = ST_VIOLATION; }
        }
        if (S->status == ST_CRASH || S->status == ST_FAILSTOP) {
            if (inc >= 24) { S->status = ST_DONE; break; }
            sim_fault(F_RESTART);
            continue;
        }
        break;
    }
    r->status = S->status; r->hash = S->hash; r->steps = S->steps; r->sched_hash = S->sched_hash;
    r->switches = S->switches; r->nontrivial = S->nontrivial; r->incarnations = inc + 1;
    memcpy(r->sig, S->sig, sizeof r->sig); memcpy(r->msg, S->msg, sizeof r->msg);
    memcpy(r->sample, S->sample, sizeof r->sample); memcpy(r->faults, S->faults, sizeof r->faults);
    r->known = S->known; memcpy(r->known_id, S->known_id, sizeof r->known_id);
}
static char *LOG1; static uint32_t LOG1len;
static void one_run(const struct sim_scenario *sc, uint64_t seed, int replay, uint32_t n, struct result *r)
{
    one_pass(sc, seed, replay, n, 0, r);
    if (!sc->twice || r->status != ST_DONE) return;
    struct result r2; uint32_t nc = S->nchoices;
    if (!LOG1) LOG1 = __real_malloc(LOGCAP);
    memcpy(LOG1, LOG, S->loglen); LOG1len = S->loglen;
    int sv = quiet_accum; quiet_accum = 1;
    one_pass(sc, seed, 1, nc, 0x1234567, &r2);
    quiet_accum = sv;
    if (r2.status == ST_HARNESS) { *r = r2; return; }
    if (r2.hash != r->hash) {
        uint32_t i = 0, b = 0;
        while (i < LOG1len && i < S->loglen && LOG1[i] == LOG[i]) { if (LOG1[i] == '\n') b = i + 1; i++; }
        char l1[200] = "", l2[200] = "";
        for (uint32_t k = b; k < LOG1len && LOG1[k] != '\n' && k - b < 150; k++) { l1[k - b] = LOG1[k]; l1[k - b + 1] = 0; }
        for (uint32_t k = b; k < S->loglen && LOG[k] != '\n' && k - b < 150; k++) { l2[k - b] = LOG[k]; l2[k - b + 1] = 0; }
        r->status = ST_VIOLATION; snprintf(r->sig, sizeof r->sig, "depends-on-garbage");
        snprintf(r->msg, sizeof r->msg, "same operations, different contents of fresh memory, different history: '%s' against '%s'", l1, l2);
        r->hash ^= mix(r2.hash);
    }
    r->steps += r2.steps;
}

/* ------------------------------------------------------------------ minimiser */
static uint64_t cand[MAXCHOICES], best[MAXCHOICES];
static int reproduces(const struct sim_scenario *sc, uint32_t n, const char *sig, uint32_t *used)
{
    struct result r; memcpy(CH, cand, n * sizeof *CH);
    one_run(sc, 0, 1, n, &r);
    if (used) *used = S->pos < n ? S->pos : n;
    return r.status == ST_VIOLATION && !strcmp(r.sig, sig);
}
static uint32_t minimise(const struct sim_scenario *sc, uint32_t n, const char *sig, unsigned budget_ms, unsigned *tries)
{
    uint64_t end = now_ms() + budget_ms; uint32_t used; *tries = 0;
    memcpy(best, CH, n * sizeof *best);
    int improved = 1;
#define TRY(m) ((*tries)++, now_ms() < end && reproduces(sc, (m), sig, &used))
    while (improved && now_ms() < end) {
        improved = 0;
        for (uint32_t chunk = n; chunk >= 1; chunk /= 2) {
            for (uint32_t at = 0; at + chunk <= n && now_ms() < end;) {
                memcpy(cand, best, at * sizeof *cand);
                memcpy(cand + at, best + at + chunk, (n - at - chunk) * sizeof *cand);
                if (TRY(n - chunk)) { n -= chunk; if (used < n) n = used; memcpy(best, cand, n * sizeof *best); improved = 1; }
                else at += chunk;
            }
        }
        for (uint32_t chunk = n / 2 ? n / 2 : 1; chunk >= 1 && n; chunk /= 2)
            for (uint32_t at = 0; at + chunk <= n && now_ms() < end; at += chunk) {
                int nz = 0; for (uint32_t i = at; i < at + chunk; i++) nz |= best[i] != 0;
                if (!nz) continue;
                memcpy(cand, best, n * sizeof *cand); memset(cand + at, 0, chunk * sizeof *cand);
                if (TRY(n)) { if (used < n) n = used; memcpy(best, cand, n * sizeof *best); improved = 1; }
            }
        for (uint32_t i = 0; i < n && now_ms() < end; i++)
            while (best[i] > 0) {
                memcpy(cand, best, n * sizeof *cand); cand[i] = best[i] / 2;
                if (TRY(n)) { if (used < n) n = used; memcpy(best, cand, n * sizeof *best); improved = 1; if (i >= n) break; }
                else break;
            }
    }
    memcpy(CH, best, n * sizeof *CH);
    return n;
}

/* ------------------------------------------------------------------ driver */
static const struct sim_scenario *pick(const char *prop, uint64_t seed, const char *name)
{
    int tot = 0;
    for (size_t i = 0; i < sim_nscenarios; i++) {
        if (name && !strcmp(sim_scenarios[i].name, name) && !strcmp(sim_scenarios[i].prop, prop)) return &sim_scenarios[i];
        if (!strcmp(sim_scenarios[i].prop, prop)) tot += sim_scenarios[i].weight;
    }
    if (name || !tot) return NULL;
    int k = (int)(mix(seed * 7919 + 13) % (uint64_t)tot);
    for (size_t i = 0; i < sim_nscenarios; i++)
        if (!strcmp(sim_scenarios[i].prop, prop)) { k -= sim_scenarios[i].weight; if (k < 0) return &sim_scenarios[i]; }
    return NULL;
}
static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); else fputc(' ', f); }
    fputc('"', f);
}
static void write_replay(const char *path, const struct sim_scenario *sc, uint64_t seed, uint32_t n, const struct result *r,
                         uint32_t n0, unsigned tries)
{
    FILE *f = __real_fopen(path, "w"); if (!f) return;
    fprintf(f, "simc3-replay 1\nproperty %s\nscenario %s\nseed %llu\nsignature %s\nhash %016llx\nmessage %s\nchoices %u\n",
            sc->prop, sc->name, (unsigned long long)seed, r->sig, (unsigned long long)r->hash, r->msg, n);
    for (uint32_t i = 0; i < n; i++) fprintf(f, "%llu%c", (unsigned long long)CH[i], i % 20 == 19 ? '\n' : ' ');
    fprintf(f, "\nend\n# minimised from %u choices in %u attempts\n# history of the minimised run (last part):\n", n0, tries);
    uint32_t from = S->loglen > 20000 ? S->loglen - 20000 : 0;
    if (from) while (from < S->loglen && LOG[from - 1] != '\n') from++;
    fputs("# ", f);
    for (uint32_t i = from; i < S->loglen; i++) { fputc(LOG[i], f); if (LOG[i] == '\n' && i + 1 < S->loglen) fputs("# ", f); }
    fclose(f);
}

int main(int argc, char **argv)
{
    /* the same addresses in every process, so that even code that leaks addresses repeats exactly */
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) {
        setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv);
    }
    const char *prop = NULL, *cmd = argc > 1 ? argv[1] : "", *out = NULL, *rep = NULL, *only = NULL, *hashes = NULL;
    uint64_t from = 1, count = 100, stride = 1; double budget = 1e9; unsigned minms = 20000;
    for (int i = 2; i < argc; i++) {
        if (!strcmp(argv[i], "--prop")) prop = argv[++i];
        else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--count")) count = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--stride")) stride = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--min-ms")) minms = (unsigned)atoi(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if (!strcmp(argv[i], "--scenario")) only = argv[++i];
        else if (!strcmp(argv[i], "--hashes")) hashes = argv[++i];
        else if (!strcmp(argv[i], "-v")) sim_verbose = 1;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (!strcmp(cmd, "list")) {
        for (size_t i = 0; i < sim_nscenarios; i++) printf("%s %s\n", sim_scenarios[i].prop, sim_scenarios[i].name);
        return 0;
    }
    shared_init();
    struct result r;
    if (!strcmp(cmd, "replay")) {
        char pr[32] = "", sn[64] = "", sig[128] = "", line[4096]; uint32_t n = 0; unsigned long long h = 0, seed = 0;
        FILE *f = __real_fopen(rep, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", rep); return 2; }
        while (fgets(line, sizeof line, f)) {
            sscanf(line, "property %31s", pr); sscanf(line, "scenario %63s", sn);
            sscanf(line, "seed %llu", &seed); sscanf(line, "hash %llx", &h);
            if (!strncmp(line, "signature ", 10)) { line[strcspn(line, "\n")] = 0; snprintf(sig, sizeof sig, "%s", line + 10); }
            if (sscanf(line, "choices %u", &n) == 1) break;
        }
        for (uint32_t i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) return 2; CH[i] = v; }
        fclose(f);
        const struct sim_scenario *sc = pick(pr, 0, sn); if (!sc) { fprintf(stderr, "unknown scenario\n"); return 2; }
        one_run(sc, seed, 1, n, &r);
        fwrite(LOG, 1, S->loglen, stdout);
        int same = r.status == ST_VIOLATION && !strcmp(r.sig, sig) && r.hash == h;
        printf("replay property=%s scenario=%s status=%s signature=%s hash=%016llx exact=%s\n%s\n", pr, sn,
               r.status == ST_VIOLATION ? "violation" : "no-violation", r.sig, (unsigned long long)r.hash, same ? "yes" : "no", r.msg);
        return same ? 0 : r.status == ST_VIOLATION ? 4 : 5;
    }
    if (strcmp(cmd, "run") || !prop) { fprintf(stderr, "usage: simc3 run|replay|list ...\n"); return 2; }
    uint64_t t0 = now_ms(), runs = 0, steps = 0, nontriv = 0, incs = 0, sw = 0, faults[F_NKINDS] = {0}, known = 0;
    uint64_t slowest = 0, slow_seed = 0;
    struct { const struct sim_scenario *sc; uint64_t runs; } per[64]; size_t nper = 0;
    FILE *hf = hashes ? __real_fopen(hashes, "w") : NULL;
    char samples[5][512]; int nsamples = 0; char knownid[8][64]; int nknown = 0;
    int viol = 0, harness = 0; char hmsg[1024] = ""; uint64_t last = from;
    uint64_t vseed = 0; uint32_t vn = 0, vn0 = 0; unsigned tries = 0; struct result vr; const struct sim_scenario *vsc = NULL;
    memset(&vr, 0, sizeof vr);
    for (uint64_t i = 0; i < count; i++) {
        uint64_t seed = from + i * stride; last = seed;
        if (i && (double)(now_ms() - t0) / 1000.0 > budget) break;
        const struct sim_scenario *sc = pick(prop, seed, only);
        if (!sc) { fprintf(stderr, "no scenario for %s\n", prop); return 2; }
        uint64_t ts = now_ms();
        one_run(sc, seed, 0, 0, &r);
        if (now_ms() - ts > slowest) { slowest = now_ms() - ts; slow_seed = seed; }
        runs++; steps += r.steps; nontriv += r.nontrivial; incs += (uint64_t)r.incarnations; sw += r.switches; known += r.known;
        if (r.known) { int k; for (k = 0; k < nknown; k++) if (!strcmp(knownid[k], r.known_id)) break; if (k == nknown && nknown < 8) strcpy(knownid[nknown++], r.known_id); }
        for (int k = 0; k < F_NKINDS; k++) faults[k] += r.faults[k];
        size_t k; for (k = 0; k < nper; k++) if (per[k].sc == sc) break;
        if (k == nper && nper < 64) { per[nper].sc = sc; per[nper++].runs = 0; }
        if (k < 64) per[k].runs++;
        if (hf) fprintf(hf, "%016llx %016llx %llu\n", (unsigned long long)r.hash, (unsigned long long)r.sched_hash, (unsigned long long)seed);
        if (r.sample[0] && r.nontrivial && nsamples < 5) memcpy(samples[nsamples++], r.sample, 512);
        if (r.status == ST_HARNESS || r.status == ST_RUNNING) { harness = 1; snprintf(hmsg, sizeof hmsg, "seed %llu scenario %s: %s", (unsigned long long)seed, sc->name, r.msg); break; }
        if (r.status == ST_VIOLATION) {
            /* gate: the same seed again, then the same choices again, must give the same history */
            struct result a, b; uint32_t n = S->nchoices; quiet_accum = 1;
            vseed = seed; vsc = sc; vn0 = n;
            one_run(sc, seed, 0, 0, &a); n = S->nchoices;
            one_run(sc, seed, 1, n, &b);
            if (a.status != ST_VIOLATION || a.hash != r.hash || b.status != ST_VIOLATION || b.hash != r.hash) {
                harness = 1; snprintf(hmsg, sizeof hmsg, "seed %llu: violation '%s' (%s) does not repeat exactly", (unsigned long long)seed, r.sig, r.msg); break;
            }
            for (uint32_t q = 0; q < n; q++) cand[q] = CH[q];
            vn = minimise(sc, n, r.sig, minms, &tries);
            one_run(sc, 0, 1, vn, &vr);
            if (vr.status != ST_VIOLATION || strcmp(vr.sig, r.sig)) { harness = 1; snprintf(hmsg, sizeof hmsg, "minimised run does not fail"); break; }
            viol = 1;
            char path[4096]; snprintf(path, sizeof path, "%s.replay", out ? out : "/tmp/simc3");
            one_pass(sc, 0, 1, vn, 0, &a);
            write_replay(path, sc, vseed, vn, &vr, vn0, tries);
            break;
        }
    }
    if (hf) fclose(hf);
    FILE *o = out ? __real_fopen(out, "w") : stdout; size_t cov = 0;
    for (size_t i = 0; i < COVN; i++) cov += S->cov[i];
    if (getenv("SIM_COV")) { FILE *c = __real_fopen(getenv("SIM_COV"), "w"); if (c) { fwrite(S->cov, 1, COVN, c); fclose(c); } }
    fprintf(o, "{\"runs\":%llu,\"incarnations\":%llu,\"steps\":%llu,\"switches\":%llu,\"nontrivial\":%llu,\"wall_ms\":%llu,\"last_seed\":%llu,\"coverage_points\":%zu,\"slowest_ms\":%llu,\"slow_seed\":%llu,\"known\":%llu,",
            (unsigned long long)runs, (unsigned long long)incs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)nontriv,
            (unsigned long long)(now_ms() - t0), (unsigned long long)last, cov, (unsigned long long)slowest, (unsigned long long)slow_seed, (unsigned long long)known);
    fprintf(o, "\"known_ids\":["); for (int i = 0; i < nknown; i++) { if (i) fputc(',', o); jstr(o, knownid[i]); }
    fprintf(o, "],\"faults\":{"); for (int k = 0; k < F_NKINDS; k++) fprintf(o, "%s\"%s\":%llu", k ? "," : "", sim_fault_names[k], (unsigned long long)faults[k]);
    fprintf(o, "},\"scenarios\":{"); for (size_t k = 0; k < nper; k++) fprintf(o, "%s\"%s\":%llu", k ? "," : "", per[k].sc->name, (unsigned long long)per[k].runs);
    fprintf(o, "},\"probes\":{"); for (int k = 0, first = 1; k < NPROBES && S->probes[k].name[0]; k++, first = 0) { if (!first) fputc(',', o); jstr(o, S->probes[k].name); fprintf(o, ":%llu", (unsigned long long)S->probes[k].n); }
    fprintf(o, "},\"samples\":["); for (int i = 0; i < nsamples; i++) { if (i) fputc(',', o); jstr(o, samples[i]); }
    fprintf(o, "],\"harness_error\":"); jstr(o, harness ? hmsg : "");
    fprintf(o, ",\"violation\":%d", viol);
    if (viol) {
        fprintf(o, ",\"seed\":%llu,\"scenario\":", (unsigned long long)vseed); jstr(o, vsc->name);
        fprintf(o, ",\"sig\":"); jstr(o, vr.sig); fprintf(o, ",\"msg\":"); jstr(o, vr.msg);
        fprintf(o, ",\"choices\":%u,\"choices_before\":%u,\"hash\":\"%016llx\"", vn, vn0, (unsigned long long)vr.hash);
    }
    fprintf(o, "}\n"); if (out) fclose(o);
    return harness ? 2 : viol ? 1 : 0;
}
