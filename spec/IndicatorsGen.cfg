CONSTANTS NA = 3
NR = 4
NB = 2
Contents <- C5
MaxOps = 16
ByKeys = TRUE
Gen = TRUE
SPECIFICATION GenSpec
INVARIANTS Emit
