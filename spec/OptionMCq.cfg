SPECIFICATION Spec
CONSTANTS
  Ss = {"50", "100", "130"}
  Ks = {"40", "100", "250"}
  Rs = {"-0.01", "0", "0.1"}
  Ts = {"0.01", "1", "10"}
  Vs = {"0.05", "0.4", "2"}
  Qs = {"0", "0.03"}
INVARIANTS Parity Bounds InStrike InVolatility Homogeneous Dual
