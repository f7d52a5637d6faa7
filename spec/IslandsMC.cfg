CONSTANTS MaxIslands = 3
PopPer = 2
MaxM = 1
Gen = FALSE
MaxEpochs = 2
SPECIFICATION Spec
INVARIANTS Conserved Even Noticed Enabled1
