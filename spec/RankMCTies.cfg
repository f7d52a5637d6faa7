CONSTANTS Mode = "ties"
Grow = TRUE
Gen = FALSE
G = 1
K = 1
SPECIFICATION Spec
INVARIANTS Found Met Ties Emit
