CONSTANTS NP = 1
N = 2
Cps <- C2
Careful = TRUE
Gen = TRUE
MaxAt = 3
SPECIFICATION GenSpec
INVARIANTS Emit
