CONSTANTS M = 2
G = 4
R = 3
K = 3
Gen = TRUE
SkipTies = FALSE
SPECIFICATION Spec
INVARIANTS Agree NoWeight Emit
