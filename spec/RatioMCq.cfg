SPECIFICATION Spec
CONSTANTS
  T = 3
  Ys = {"-0.5", "0", "2"}
  Xs = {"-3", "0", "1"}
INVARIANTS NormalEquation Scales ShiftFree
