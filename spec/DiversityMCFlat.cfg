CONSTANTS V = 2
 MaxLen = 4
 Rules = {"crowding", "volume", "strength", "indicator"}
 Sizes = {1, 2, 3}
 Flat = TRUE
SPECIFICATION Spec
INVARIANTS Cuttable Compliant Fronts Extremes MostLeft
CHECK_DEADLOCK FALSE
