SPECIFICATION Spec
CONSTANTS
  S = 2
  R = 2
  Levels = {1, 2}
  Run <- Latest
INVARIANT IsBest
