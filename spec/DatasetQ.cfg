SPECIFICATION Spec
CONSTANTS
  L = 5
  Shared <- NoPart
  EmitHistories = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
