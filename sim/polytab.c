/* legtens.h / hermtens.h are missing from the repository (see DESIGN.md); the
 * tables they held are the triple products of the orthonormal basis, which have
 * closed forms. polynomials.c reads them through these definitions. */
#include <math.h>
#include <stddef.h>
double lpolycoeffs[250000];
double hermpolycoeffs[250000];
static void __attribute__((constructor)) fill(void)
{
    for (int k = 0; k < 100; k++) for (int j = 0; j < 50; j++) for (int i = 0; i < 50; i++) {
        size_t id = (size_t)i + (size_t)j * 50 + (size_t)k * 2500;
        lpolycoeffs[id] = hermpolycoeffs[id] = 0;
        if ((i + j + k) & 1) continue;
        int s = (i + j + k) / 2;
        if (s < i || s < j || s < k) continue;
        double d = lgamma(s - i + 1) + lgamma(s - j + 1) + lgamma(s - k + 1);
        hermpolycoeffs[id] = exp(0.5 * (lgamma(i + 1) + lgamma(j + 1) + lgamma(k + 1)) - d);
        double l = lgamma(2 * s - 2 * i + 1) + lgamma(2 * s - 2 * j + 1) + lgamma(2 * s - 2 * k + 1) - lgamma(2 * s + 2) + 2 * (lgamma(s + 1) - d);
        lpolycoeffs[id] = exp(l) * sqrt((2. * i + 1) * (2. * j + 1) * (2. * k + 1));
    }
}
