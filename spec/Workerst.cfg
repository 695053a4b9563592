SPECIFICATION Spec
CONSTANTS
  MaxW = 7
  MaxF = 10
  MaxN = 9
INVARIANTS Partition Deterministic
PROPERTIES Implements Terminates
