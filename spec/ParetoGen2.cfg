CONSTANTS V = 2
D = 2
MaxLen = 5
MinLen = 1
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Irreflexive
