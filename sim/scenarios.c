#include "sim.h"
#define LIST \
    X("C01", roundtrip, 1, 0) X("C02", damaged, 1, 0) X("C03", savefail, 1, 0) \
    X("C04", monitor, 8, 0) X("C04", storevals, 1, 0) \
    X("C05", optbounds, 1, 0) X("C05", optold, 1, 0) \
    X("C06", opttruth, 3, 0) X("C06", optbrute, 1, 0) X("C06", optold, 1, 0) \
    X("C07", optlive, 3, 0) X("C07", optconv, 1, 0) X("C08", optrepeat, 1, 0) X("C09", sgd, 1, 0) X("C10", fwrap, 2, 0) X("C10", crossforms, 1, 0) X("C11", cross, 2, 0) X("C11", crossargs, 1, 0) X("C12", cbfail, 1, 0) \
    X("C13", ftalgebra, 1, 0) X("C14", fteval, 1, 0) X("C15", regress, 1, 0) X("C16", crossval, 1, 0) X("C17", mix, 1, 0) X("C18", oom, 1, 0) X("C19", draws, 1, 0) X("C20", density, 1, 0) X("C21", dmrg, 1, 0) X("C22", uni, 1, 0) X("C23", qm, 1, 0) X("C24", param, 1, 0) X("C25", tensors, 1, 0)
#define X(p, n, w, t) void scn_##n(int);
LIST
#undef X
const struct sim_scenario sim_scenarios[] = {
#define X(p, n, w, t) { p, #n, scn_##n, w, t },
LIST
};
const size_t sim_nscenarios = sizeof sim_scenarios / sizeof *sim_scenarios;
