SPECIFICATION Spec
CONSTANTS
  MaxW = 3
  MaxF = 4
  MaxN = 4
  GrowFirst <- FromTheStart
INVARIANTS Partition Deterministic
