extern double lpolycoeffs[250000];
