SPECIFICATION Spec
CONSTANTS
  As = {"0.6", "0.75", "1.1"}
  Sigmas = {"0.05", "0.12", "0.4"}
  Rs = {"0", "0.01"}
  Ds = {"0", "0.002"}
  Ts = {"1", "5"}
INVARIANTS FitRecovers FitFound DefaultIsAProbability DefaultFallsWithAssets SpreadIsPositive SpreadIsBounded SpreadRisesWithRisk BalanceSheet
