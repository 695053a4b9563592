SPECIFICATION Spec
CONSTANTS
  S = 3
  R = 1
  Levels = {1, 2, 3}
INVARIANT IsBest
