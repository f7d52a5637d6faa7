CONSTANTS Mode = "scan"
Grow = TRUE
Gen = FALSE
G = 1
K = 2
SPECIFICATION Spec
INVARIANTS Found Met Ties Emit
