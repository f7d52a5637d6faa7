CONSTANTS V = 2
D = 2
MaxLen = 5
MinLen = 1
Gen = FALSE
SPECIFICATION Spec
INVARIANTS Irreflexive Asymmetric Transitive Covered LayerLaw CmpLaw Decides
