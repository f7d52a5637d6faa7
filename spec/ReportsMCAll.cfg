CONSTANTS NP = 2
NA = 2
NR = 1
NB = 2
Contents <- C2
MaxOps = 0
OwnOnly = FALSE
Gen = FALSE
SPECIFICATION Spec
INVARIANTS RowsRight ScoresRight
