SPECIFICATION Spec
CONSTANTS
  Widths = {4, 8}
  Top = 8
INVARIANTS OperandsFit PromotionIsSafe WrongIffOutside ConvertedIsExact
CHECK_DEADLOCK FALSE
