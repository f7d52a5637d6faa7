CONSTANTS Incs = {0, 1, 3}
MaxOps = 4
MaxSteps = 5
MaxFails = 1
MaxN = 3
Budgets = {2, 4}
Gen = FALSE
SPECIFICATION Spec
INVARIANTS Consecutive Monotone OnePerStep NSteps BudgetMet
