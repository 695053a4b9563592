SPECIFICATION Spec
CONSTANTS
  N = 2
  Ks = {"0.08", "0", "0.5", "1"}
  Firms <- MCFirms
INVARIANTS AsDocumented AggregateLaws
