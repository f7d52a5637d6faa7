CONSTANTS Mode = "scan"
Grow = TRUE
Gen = TRUE
G = 1
K = 1
SPECIFICATION Spec
INVARIANTS Found Met Ties Emit
