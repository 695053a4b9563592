SPECIFICATION Spec
CONSTANTS
  N = 3
  Es = {"0", "-1.5", "2", "1"}
  AB <- MCAB
INVARIANTS PositiveSemidefinite IsCorrelation ConstantWithoutDynamics Symmetric
