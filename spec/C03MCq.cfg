SPECIFICATION Spec
CONSTANTS
  N = 4
  Resids = {"0", "-1.5", "0.001", "30000"}
INVARIANTS Ordered Positive BackcastAverages SteadyState Scaling Units Adds Density
