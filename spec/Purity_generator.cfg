SPECIFICATION Spec
CONSTANTS
  L = 3
  Kinds = 3
  Impure = "generator"
INVARIANT Pure
CHECK_DEADLOCK FALSE
