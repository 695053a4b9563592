SPECIFICATION Spec
CONSTANTS
  Es = {"0", "-1.5", "2"}
  Ss = {"0.25", "3"}
  Rhos = {"0", "0.9", "-0.5", "0.99"}
INVARIANTS Symmetric Separates Reflect Scale2 Factors Component Limited
