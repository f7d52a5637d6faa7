CONSTANTS MaxB = 5
MaxLen = 3
Incs = {0, 1, 2, 4}
MaxZero = 1
Gen = TRUE
SPECIFICATION Spec
INVARIANTS AllAtEnd
