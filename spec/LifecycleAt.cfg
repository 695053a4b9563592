SPECIFICATION MCSpec
CONSTANTS
  Uni = {"u1", "u2"}
  Biv = {"d12", "d21"}
  Parts <- PartsA
  L = 4
INVARIANTS PartsFirst Idempotent Commute
PROPERTY MCNeverLost
