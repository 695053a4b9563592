SPECIFICATION Spec
CONSTANTS
  MaxW = 3
  MaxF = 4
  MaxN = 4
  ScoreJobs <- NoRemainder
INVARIANTS Partition Deterministic
