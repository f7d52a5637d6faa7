CONSTANTS Xs = {0, 3}
Hs = {0, 3}
Dels <- DelSets
MaxSteps = 5
MaxNodes = 3
Cfgs = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS SomeAlive RipeIsDead Apart Bounded SproutsWithinLimit OnlyDeepEnough ParentsOlder
