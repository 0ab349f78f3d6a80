/* A random cross-approximation problem: grid, function, options; records every request. */
#ifndef CX_H
#define CX_H
#include "gen.h"
#include "approximate.h"
#define CXD 9
#define CXN 64
enum fkind { FK_LOWRANK, FK_SMOOTH, FK_ROUGH, FK_CONST, FK_NK };
enum wkind { W_GENERAL, W_VEC, W_PYTHON, W_MOVEC, W_ARRAY, W_NK };
extern const char *fk_name[], *wk_name[];
struct cx {
    size_t dim, N[CXD], cdim; double nodes[CXD][CXN], lb[CXD], ub[CXD]; enum gen_cls cls[CXD]; int grid;     /* grid: all requests must be nodes */
    enum fkind fk; size_t R; double co[CXD][4][4], fscale, seed;  enum wkind wk; size_t which, nwhich;
    size_t rank, maxiter, maxrank, kick; int adapt, optnodes, startnull, het; double ctol, rtol; size_t ranks[CXD + 1];
    size_t calls, batches, cap; double (*q)[CXD]; double *v; size_t limit; size_t fail_at; int failed; int yields; const char *who;
    uint64_t qh;
    /* library objects */
    struct Fwrap *fw; struct C3Approx *a; struct OneApproxOpts *o[CXD]; struct c3Vector *ov[CXD]; double **start; double *nd[CXD];
};
void cx_make(struct cx *c, int grid_only);
double cx_f(const struct cx *c, size_t which, const double *x);
void cx_wrap(struct cx *c);
void cx_open(struct cx *c);
void cx_init_cross(struct cx *c);
void cx_close(struct cx *c);
size_t cx_limit(const struct cx *c);
#endif
