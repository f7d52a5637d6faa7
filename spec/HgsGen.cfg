CONSTANTS Xs = {0, 1, 2, 4, 6}
Hs = {0, 1, 2, 4}
Dels <- DelSets
MaxSteps = 9
MaxNodes = 99
Cfgs = {1, 2, 3}
SPECIFICATION GSpec
INVARIANT Emit
