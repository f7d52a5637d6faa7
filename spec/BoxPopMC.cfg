CONSTANTS Lo = 0
Hi = 3
N = 2
ND = 2
MaxOps = 3
Gen = FALSE
SPECIFICATION Spec
INVARIANTS InBox Able
