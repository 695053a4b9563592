SPECIFICATION MCSpec
CONSTANTS
  Uni = {"u1", "u2"}
  Biv = {"d12", "d21"}
  Parts <- PartsA
  L = 3
INVARIANTS PartsFirst Idempotent Commute
PROPERTY MCNeverLost
