SPECIFICATION Spec
CONSTANTS
  T = 4
  Ys = {"-0.5", "0", "2"}
  Xs = {"-3", "0", "1"}
INVARIANTS NormalEquation Scales ShiftFree
