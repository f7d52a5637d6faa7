CONSTANTS V = 2
D = 2
MaxLen = 6
MinLen = 6
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Irreflexive
