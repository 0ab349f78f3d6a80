extern double hermpolycoeffs[250000];
