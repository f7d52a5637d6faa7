CONSTANTS NC = 2
MaxInst = 3
MaxLen = 7
Alias = TRUE
Gen = FALSE
SPECIFICATION Spec
VIEW NoOps
INVARIANTS ConfigurationUntouched NonInterference
