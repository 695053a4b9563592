SPECIFICATION Spec
CONSTANTS
  H = 4
  Xs = {"-1.5", "0", "0.5"}
  Ys = {"-2", "0", "1", "-0.25"}
INVARIANTS VarianceAboveOmega Correlated LossesRaiseVariance Standardized
