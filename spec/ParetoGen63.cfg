CONSTANTS V = 1
D = 3
MaxLen = 6
MinLen = 6
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Irreflexive
