CONSTANTS NC = 4
MaxInst = 4
MaxLen = 9
Alias = FALSE
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Emit
