CONSTANTS Mode = "ind"
Grow = TRUE
Gen = TRUE
G = 2
K = 2
SPECIFICATION Spec
INVARIANTS Found Met Ties Emit
