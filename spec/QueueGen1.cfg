CONSTANTS NP = 1
N = 1
Cps <- C3
Careful = TRUE
Gen = TRUE
MaxAt = 5
SPECIFICATION GenSpec
INVARIANTS Emit
