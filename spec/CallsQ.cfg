SPECIFICATION Spec
CONSTANTS
  L = 3
  Kinds = 3
  Disturb = {"none", "npseed", "draw"}
INVARIANT Pure
