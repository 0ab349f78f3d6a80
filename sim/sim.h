/* Deterministic simulator core for libc3: one seed (or one list of recorded
 * choices) is one exactly repeatable execution. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

/* ---- choices ------------------------------------------------------- */
uint64_t sim_choose(uint64_t n);              /* uniform in [0,n); 0 is the simplest value   */
int      sim_flip(unsigned num, unsigned den);/* 1 with probability num/den; simplest is 0   */
size_t   sim_range(size_t lo, size_t hi);     /* inclusive; simplest is lo                   */
double   sim_double(double lo, double hi);    /* grid of 2^16+1 points incl. both ends       */
double   sim_value(void);                     /* mixture: small integers, fractions, extremes*/

/* ---- history ------------------------------------------------------- */
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_log_doubles(const char *what, size_t n, const double *x);
void sim_violation(const char *sig, const char *fmt, ...)
    __attribute__((format(printf, 2, 3), noreturn));
#define SIM_CHECK(cond, sig, ...) do { if (!(cond)) sim_violation(sig, __VA_ARGS__); } while (0)
void sim_probe(const char *name);             /* counts that an interesting state was reached */
void sim_probe_n(const char *name, uint64_t n);
void sim_nontrivial(void);                    /* this run exercised the property's premise   */
void sim_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_known(const char *id);               /* a listed known finding was observed         */

/* ---- faults -------------------------------------------------------- */
enum sim_fault {
    F_OPEN_FAIL, F_WRITE_NOSPC, F_WRITE_EIO, F_CLOSE_FAIL, F_SHORT_READ, F_READ_EIO, F_SMALL_CHUNK,
    F_CRASH, F_TORN, F_TRUNCATE, F_MISSING, F_RESTART, F_ALLOC_FAIL, F_HEAP_DIRT, F_STACK_DIRT,
    F_CB_ERROR, F_CB_NAN, F_CB_INF, F_CB_NOISE, F_CB_JUMP, F_CLOCK_JUMP, F_RAND_FOREIGN, F_RAND_EXTREME,
    F_PREEMPT, F_REENTRANT, F_ADDR_REUSE, F_NKINDS
};
extern const char *sim_fault_names[F_NKINDS];
void sim_fault(enum sim_fault k);             /* count one injection */
uint64_t sim_fault_count(enum sim_fault k);   /* so far in this run  */

/* ---- lifetime ------------------------------------------------------ */
void sim_crash(void) __attribute__((noreturn));        /* simulated process death, restart follows  */
void sim_allow_failstop(int on);                       /* exit()/abort()/assert by the library are fine; 2: any death; 3: also a null pointer access */
uint64_t sim_steps(void);                              /* basic blocks of the library executed so far  */
void sim_step_limit(uint64_t limit, const char *sig);  /* more than that is a violation (0: default)   */
extern int sim_verbose;
void *sim_state(size_t bytes);                /* survives simulated crashes (the simulator's memory) */

/* ---- simulated disk ------------------------------------------------ */
struct sim_io_plan {                          /* faults armed for subsequent I/O */
    int     open_fail;                        /* this many opens fail */
    int64_t write_limit;                      /* bytes until the device is full (-1: no limit) */
    int64_t write_eio_at;                     /* cookie-write number that fails (-1: none) */
    int     close_fail;                       /* closes report an error, data of last flush lost */
    int64_t read_eio_at;                      /* cookie-read number that fails (-1: none) */
    int     chunk;                            /* max bytes per read system call (0: no limit) */
    int64_t crash_at;                         /* system call number at which the process dies (-1) */
};
extern struct sim_io_plan sim_io;
void   sim_io_reset(void);
int    sim_disk_exists(const char *name);
size_t sim_disk_size(const char *name);
void   sim_disk_truncate(const char *name, size_t n);
void   sim_disk_remove(const char *name);
const unsigned char *sim_disk_data(const char *name);
void   sim_disk_put(const char *name, const void *data, size_t n);
uint64_t sim_disk_hash(const char *name);
int    sim_open_files(void);
uint64_t sim_io_calls(void);

/* ---- heap ---------------------------------------------------------- */
void   sim_heap_fill(uint64_t fillseed);      /* contents of fresh heap memory */
size_t sim_heap_live(void);                   /* live blocks allocated through the seam */
uint64_t sim_heap_mark(void);                 /* sequence number of the next allocation */
size_t sim_heap_live_since(uint64_t mark);
void   sim_heap_report_since(uint64_t mark, char *buf, size_t n);
void   sim_alloc_fail_at(int64_t nth);        /* nth allocation from now fails (-1: off) */
void   sim_alloc_fail_run(int64_t nth, int64_t count); /* and the count-1 after it */
uint64_t sim_alloc_calls(void);
void   sim_dirty_stack(uint64_t seed);

/* ---- randomness and clock ------------------------------------------ */
enum sim_rand_mode { R_SEEDED, R_EXTREME, R_CONSTANT_HALF };
void   sim_rand_mode(enum sim_rand_mode m);
uint64_t sim_rand_calls(void);
void   sim_clock_set(int64_t t);
void   sim_clock_jump(int64_t dt);
uint64_t sim_clock_reads(void);
void   sim_rand_reseed(unsigned s);

/* ---- scheduler ----------------------------------------------------- */
typedef void (*sim_task_fn)(void *);
void   sim_tasks_run(size_t n, sim_task_fn *fn, void **arg); /* returns when all are done */
void   sim_yield(void);
uint64_t sim_switches(void);
void   sim_no_preempt(int on);

/* ---- scenarios ----------------------------------------------------- */
struct sim_scenario {
    const char *prop;
    const char *name;
    void (*fn)(int incarnation);
    int weight;
    int twice;      /* run twice with different heap/stack contents; histories must agree */
};
extern const struct sim_scenario sim_scenarios[];
extern const size_t sim_nscenarios;

/* harness memory that must not go through the seam */
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void  __real_free(void *);
#define xmalloc __real_malloc
#define xcalloc __real_calloc
#define xfree   __real_free

static inline int same_bits(double a, double b) {
    union { double d; uint64_t u; } x = { a }, y = { b };
    return x.u == y.u || (a != a && b != b);
}
#endif
