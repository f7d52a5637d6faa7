CONSTANTS MaxX = 3
NN = 3
SPECIFICATION Spec
INVARIANT Exact
