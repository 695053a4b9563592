SPECIFICATION Spec
CONSTANTS
  N = 4
  Es = {"0", "-1.5", "2"}
  AB <- MCAB
INVARIANTS PositiveSemidefinite IsCorrelation ConstantWithoutDynamics Symmetric
