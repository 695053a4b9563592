SPECIFICATION Spec
CONSTANTS
  L = 4
  Kinds = 3
  Disturb = {"none", "npseed", "draw"}
INVARIANT Pure
