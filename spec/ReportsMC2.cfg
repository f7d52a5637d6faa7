CONSTANTS NP = 1
NA = 2
NR = 2
NB = 2
Contents <- C2
MaxOps = 0
OwnOnly = TRUE
Gen = FALSE
SPECIFICATION Spec
INVARIANTS RowsRight ScoresRight
