SPECIFICATION Spec
CONSTANTS
  Values = {"-1.5", "0", "1", "0.3"}
  MaxPattern = 4
  Lengths = {4, 16}
  Models = {"garch", "gjr"}
INVARIANTS BestIsBest KeptWasTried Admissible UnitFree SignFree
CHECK_DEADLOCK FALSE
