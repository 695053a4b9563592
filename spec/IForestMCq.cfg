SPECIFICATION Spec
CONSTANTS
  N = 3
  Nums = {"1", "2", "NaN"}
  Strs <- StrsC
  TreeSizes = {1, 2, 3, 4}

INVARIANTS Accepted PathsEnd EqualPaths ScoreInRange HeightBounded NothingLost
