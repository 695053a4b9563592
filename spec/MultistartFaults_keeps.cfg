SPECIFICATION Spec
CONSTANTS
  S = 2
  R = 2
  Levels = {1, 2}
  Again <- Keeps
INVARIANT IsBest
