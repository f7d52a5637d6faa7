CONSTANTS NB = 5
NR = 6
Chunks = 4
MaxOps = 14
Atomic = TRUE
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Emit
