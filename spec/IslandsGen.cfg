CONSTANTS MaxIslands = 4
PopPer = 16
MaxM = 4
Gen = TRUE
MaxEpochs = 0
SPECIFICATION Spec
INVARIANTS Conserved
