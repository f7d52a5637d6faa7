CONSTANTS MaxW = 7
MaxN = 30
SPECIFICATION Spec
INVARIANTS Laws Noticed
