SPECIFICATION Spec
CONSTANTS
  L = 6
  Shared <- NoPart
  EmitHistories = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
