CONSTANTS V = 1
D = 3
MaxLen = 5
MinLen = 1
Gen = FALSE
SPECIFICATION Spec
INVARIANTS Irreflexive Asymmetric Transitive Covered LayerLaw CmpLaw Decides
