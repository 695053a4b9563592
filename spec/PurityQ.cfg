SPECIFICATION Spec
CONSTANTS
  L = 3
  Kinds = 3
  Impure = "no"
INVARIANT Pure
CHECK_DEADLOCK FALSE
