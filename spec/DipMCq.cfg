SPECIFICATION Spec
CONSTANTS
  NB = 2
  Losses = {"0.1", "0.15", "0.551", "1", "1.305"}
  Probs = {"0.02", "0.3", "0.5", "0.97"}
  Rhos = {"0", "0.5", "-0.4", "0.99"}
  Pcts = {0, 15, 29, 58, 100}
INVARIANTS Laws CholeskyIsFactor
