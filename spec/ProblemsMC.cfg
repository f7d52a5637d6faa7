CONSTANTS K = 2
 D = 1
 Mesh = 1
 Neg = 1
 NoOrder = FALSE
SPECIFICATION Spec
INVARIANTS Decides NoFalseAlarm History Skip
CHECK_DEADLOCK FALSE
