SPECIFICATION MCSpec
CONSTANTS
  Uni = {"u1", "u2", "v1", "v2"}
  Biv = {"j12", "da", "cc", "d12"}
  Parts <- PartsB
  L = 8
INVARIANTS PartsFirst Idempotent Commute
