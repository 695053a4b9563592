SPECIFICATION Spec
CONSTANTS
  Functions <- FunctionsC
  Steps <- StepsC
  DTypes = {"f8", "f4", "i8", "i4", "i2", "i1", "swapped", "f2"}
  Deep = FALSE
INVARIANTS ReadBack Tells
