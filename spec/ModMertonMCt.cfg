SPECIFICATION Spec
CONSTANTS
  Faces = {"0.3", "0.66", "1", "1.4"}
  Xs = {"-1.2", "-0.3", "0", "0.4", "1.5"}
  Rhos = {"0.1", "0.5", "0.9"}
  Sigs = {"0.05", "0.2", "0.5"}
  Ts = {"0.5", "3", "10"}
  Rs = {"-0.01", "0.01", "0.05"}
  Ltvs = {"0.66"}
INVARIANTS IsExpectedMinimum Bounded Monotone Homogeneous WorthTheLoan FairYield Inverts SmoothLaws
CHECK_DEADLOCK FALSE
