SPECIFICATION Spec
CONSTANTS
  T = 3
  Prices = {"2", "2.5"}
  Laters = {"2", "1.5"}
  Volumes = {0, 1, 5}
INVARIANTS Decomposes AbsoluteIsLarger ScaleFree Mirrored QuotedNonNegative
