CONSTANTS NA = 2
NR = 2
NB = 2
Contents <- C2
MaxOps = 5
ByKeys = TRUE
Gen = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS AlwaysCurrent
