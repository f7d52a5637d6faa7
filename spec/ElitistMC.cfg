CONSTANTS V = 2
MaxLen = 5
SPECIFICATION Spec
INVARIANTS NoDiscardDominates BestSurviveWhenTheyFit OnlyBestWhenTheyDoNot SomeBestKept LayersPrefix CutPossible
