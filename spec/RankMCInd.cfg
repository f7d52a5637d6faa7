CONSTANTS Mode = "ind"
Grow = TRUE
Gen = FALSE
G = 2
K = 3
SPECIFICATION Spec
INVARIANTS Found Met Ties Emit
PROPERTY NoOrder
