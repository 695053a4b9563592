SPECIFICATION Spec
CONSTANTS
  N = 4
  Nums = {"1", "2", "NaN"}
  Strs <- StrsC
  TreeSizes = {2, 3, 5}

INVARIANTS Accepted PathsEnd EqualPaths ScoreInRange HeightBounded NothingLost
