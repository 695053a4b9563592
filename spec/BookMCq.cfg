SPECIFICATION Spec
CONSTANTS
  T = 1
  Sizes = {"3", "1", "10", "NaN"}
INVARIANTS DepthBounded DepthAntisymmetric SlopePositive OrderFree MissingIsSkipped
