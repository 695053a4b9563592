SPECIFICATION Spec
CONSTANTS
  T = 2
  Counts = {0, 1, 7, 40}
  Ps = {"0.1", "0.6"}
  Es = {"0.2", "20"}
  Mus = {"0.01", "3", "60"}
INVARIANTS IsMixture LinKeIsMixture Mirrored PinInUnit
