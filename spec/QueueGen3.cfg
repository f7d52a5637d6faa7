CONSTANTS NP = 1
N = 3
Cps <- C2
Careful = TRUE
Gen = TRUE
MaxAt = 3
SPECIFICATION GenSpec
INVARIANTS Emit
