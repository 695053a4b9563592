SPECIFICATION Spec
CONSTANTS
  H = 3
  Xs = {"-1.5", "0", "0.5"}
  Ys = {"-2", "0", "1"}
INVARIANTS VarianceAboveOmega Correlated LossesRaiseVariance Standardized
