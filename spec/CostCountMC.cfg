CONSTANTS N = 3
MaxOps = 5
MaxOff = 2
Gen = FALSE
SPECIFICATION Spec
INVARIANTS CostIsEvaluations CachedFree
