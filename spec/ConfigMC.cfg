CONSTANTS Gen = FALSE
FirstWins = FALSE
SPECIFICATION Spec
INVARIANTS MostSpecificWins
