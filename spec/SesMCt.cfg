SPECIFICATION Spec
CONSTANTS
  N = 4
  Firms <- MCFirms
INVARIANTS NormalEquations Invariant
