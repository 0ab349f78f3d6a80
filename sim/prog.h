/* Small self-contained computations: drawn once, then run any number of times without drawing again. */
#ifndef PROG_H
#define PROG_H
#include "cx.h"
#define TRMAX 600
struct trace { size_t n; uint64_t v[TRMAX]; const char *lab[TRMAX]; };
void tr_u(struct trace *t, const char *lab, uint64_t v);
void tr_d(struct trace *t, const char *lab, double v);
struct prog { int kind; void *p; char who[4]; };
extern const char *prog_name[];
extern const int prog_kinds;
void prog_make(struct prog *p, int kind, const char *who);   /* draws */
void prog_run(struct prog *p, struct trace *t);              /* never draws */
void prog_free(struct prog *p);
/* regression programs live with the regression scenarios */
void *regprog_make(const char *who);
void regprog_run(void *p, struct trace *t);
#endif
