CONSTANTS Gen = TRUE
FirstWins = FALSE
SPECIFICATION GenSpec
INVARIANTS Emit
