CONSTANTS Lo = 0
Hi = 2
N = 4
ND = 2
MaxOps = 1
Gen = TRUE
SPECIFICATION Spec
INVARIANTS InBox
