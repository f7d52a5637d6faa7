CONSTANTS V = 2
D = 3
MaxLen = 2
MinLen = 2
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Irreflexive
