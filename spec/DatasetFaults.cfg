SPECIFICATION Spec
CONSTANTS
  L = 4
  Shared <- OnlyIndex
  EmitHistories = FALSE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
