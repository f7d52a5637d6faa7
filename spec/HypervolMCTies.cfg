CONSTANTS M = 3
G = 2
R = 2
K = 3
Gen = FALSE
SkipTies = TRUE
SPECIFICATION Spec
INVARIANTS Agree
