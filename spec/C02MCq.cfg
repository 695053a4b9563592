SPECIFICATION Spec
CONSTANTS
  N = 3
  Params <- MCParams
  Resids <- MCResids
  Backcasts <- MCBackcasts
  Bounds <- MCBounds
INVARIANTS Bounded LossesWeigh ClampMonotone FixedPoint NewsImpact Persists
