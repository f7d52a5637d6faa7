CONSTANTS MaxX = 3
NN = 4
SPECIFICATION Spec
INVARIANT Exact
