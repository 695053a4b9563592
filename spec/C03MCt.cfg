SPECIFICATION Spec
CONSTANTS
  N = 5
  Resids = {"0", "-1.5", "0.001", "30000", "-30000"}
INVARIANTS Ordered Positive BackcastAverages SteadyState Scaling Units Adds Density
