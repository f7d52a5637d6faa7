CONSTANTS NB = 2
NR = 2
Chunks = 2
MaxOps = 4
Atomic = FALSE
Gen = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS NothingLostOrTorn
