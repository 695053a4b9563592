SPECIFICATION Spec
CONSTANTS
  T = 3
  Fs = {"-1", "2", "0.5"}
  Ms = {"0", "-1", "3"}
INVARIANTS Bounded NoneAtZero MoreDaysForHigherQuantiles OrderFree
