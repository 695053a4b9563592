SPECIFICATION Spec
CONSTANTS
  Ss = {"0.001", "50", "99", "100", "130", "1E6"}
  Ks = {"0.001", "40", "99", "100", "250"}
  Rs = {"-0.01", "0", "0.1", "0.5"}
  Ts = {"0.001", "0.01", "1", "10", "50"}
  Vs = {"0.01", "0.05", "0.4", "2"}
  Qs = {"0", "0.03", "-0.02"}
INVARIANTS Parity Bounds InStrike InVolatility Homogeneous Dual
