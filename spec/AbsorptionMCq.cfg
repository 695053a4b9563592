SPECIFICATION Spec
CONSTANTS
  T = 3
  Rs = {"0", "-1", "2", "0.5"}
INVARIANTS InUnit Monotone Ends AtLeastProportional Certificate
