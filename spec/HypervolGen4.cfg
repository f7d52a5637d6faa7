CONSTANTS M = 4
G = 1
R = 2
K = 4
Gen = TRUE
SkipTies = FALSE
SPECIFICATION Spec
INVARIANTS Agree NoWeight Emit
