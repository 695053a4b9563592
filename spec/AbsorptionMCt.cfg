SPECIFICATION Spec
CONSTANTS
  T = 4
  Rs = {"0", "-1", "2", "0.5"}
INVARIANTS InUnit Monotone Ends AtLeastProportional Certificate
