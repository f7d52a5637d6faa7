CONSTANTS NP = 2
N = 2
Cps <- C1
Careful = TRUE
Gen = FALSE
MaxAt = 1
SPECIFICATION Spec
INVARIANTS AllWell
PROPERTIES Ends
