CONSTANTS Gen = FALSE
FirstWins = TRUE
SPECIFICATION Spec
INVARIANTS MostSpecificWins
