CONSTANTS V = 1
D = 3
MaxLen = 5
MinLen = 1
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Irreflexive
