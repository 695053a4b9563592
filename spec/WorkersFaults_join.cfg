SPECIFICATION Spec
CONSTANTS
  MaxW = 3
  MaxF = 4
  MaxN = 4
  JoinGrow <- JoinEarly
INVARIANTS Partition Deterministic
