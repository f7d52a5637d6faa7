CONSTANTS NP = 2
NA = 4
NR = 4
NB = 3
Contents <- C6
MaxOps = 26
OwnOnly = TRUE
Gen = TRUE
SPECIFICATION GenSpec
INVARIANTS Emit
