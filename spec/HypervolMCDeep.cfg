CONSTANTS M = 3
G = 2
R = 3
K = 4
Gen = FALSE
SkipTies = FALSE
SPECIFICATION Spec
INVARIANTS Agree NoWeight
