SPECIFICATION Spec
CONSTANTS
  L = 3
  Kinds = 3
  Impure = "memory"
INVARIANT Pure
CHECK_DEADLOCK FALSE
