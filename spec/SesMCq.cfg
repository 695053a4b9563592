SPECIFICATION Spec
CONSTANTS
  N = 3
  Firms <- MCFirms
INVARIANTS NormalEquations Invariant
