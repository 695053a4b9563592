SPECIFICATION Spec
CONSTANTS
  T = 2
  Sizes = {"3", "10", "NaN"}
INVARIANTS DepthBounded DepthAntisymmetric SlopePositive OrderFree MissingIsSkipped
