CONSTANTS MaxDemes = 3
MaxSteps = 4
MaxInc = 2
Mods = {1, 8, 20}
SPECIFICATION Spec
VIEW View
INVARIANTS Telescopes NeverMoreThanCharged
