SPECIFICATION Spec
CONSTANTS
  Values = {"-1.5", "0", "1"}
  MaxPattern = 3
  Lengths = {3, 10}
  Models = {"garch"}
INVARIANTS BestIsBest KeptWasTried Admissible UnitFree SignFree
CHECK_DEADLOCK FALSE
