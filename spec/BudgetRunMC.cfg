CONSTANTS MaxB = 7
MaxLen = 4
Incs = {0, 1, 2, 3, 5}
MaxZero = 2
Gen = FALSE
SPECIFICATION Spec
INVARIANTS AscendingOnce NoOvershootByAStep AllAtEnd StopsPromptly
