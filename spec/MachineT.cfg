SPECIFICATION Spec
CONSTANTS
  Widths = {3, 6, 12}
  Top = 12
INVARIANTS OperandsFit PromotionIsSafe WrongIffOutside ConvertedIsExact
CHECK_DEADLOCK FALSE
