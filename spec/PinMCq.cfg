SPECIFICATION Spec
CONSTANTS
  T = 1
  Counts = {0, 1, 7, 40}
  Ps = {"0.1", "0.5", "0.95"}
  Es = {"0.2", "5", "30"}
  Mus = {"0.01", "3", "60"}
INVARIANTS IsMixture LinKeIsMixture Mirrored PinInUnit
