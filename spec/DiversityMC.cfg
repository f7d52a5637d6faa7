CONSTANTS V = 2
 MaxLen = 4
 Rules = {"crowding", "volume", "strength", "indicator", "lines"}
 Sizes = {1, 2, 3}
 Flat = FALSE
SPECIFICATION Spec
INVARIANTS Cuttable Compliant Fronts Extremes MostLeft LineBests
CHECK_DEADLOCK FALSE
