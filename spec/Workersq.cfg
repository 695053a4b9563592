SPECIFICATION Spec
CONSTANTS
  MaxW = 5
  MaxF = 6
  MaxN = 6
INVARIANTS Partition Deterministic
PROPERTIES Implements Terminates
