CONSTANTS N = 4
MaxOps = 4
MaxOff = 0
Gen = TRUE
SPECIFICATION Spec
INVARIANTS CostIsEvaluations
