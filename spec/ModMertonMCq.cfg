SPECIFICATION Spec
CONSTANTS
  Faces = {"0.66", "1.4"}
  Xs = {"-1.2", "-0.3", "0", "1.5"}
  Rhos = {"0.1", "0.9"}
  Sigs = {"0.1", "0.3"}
  Ts = {"1", "7"}
  Rs = {"0", "0.03"}
  Ltvs = {"0.66"}
INVARIANTS IsExpectedMinimum Bounded Monotone Homogeneous WorthTheLoan FairYield Inverts SmoothLaws
CHECK_DEADLOCK FALSE
