CONSTANTS Mode = "scan"
Grow = FALSE
Gen = FALSE
G = 1
K = 2
SPECIFICATION Spec
INVARIANTS Found Met Ties Emit
