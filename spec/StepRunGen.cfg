CONSTANTS Incs = {0, 2}
MaxOps = 3
MaxSteps = 5
MaxFails = 1
MaxN = 3
Budgets = {3}
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Consecutive
