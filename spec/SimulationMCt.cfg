SPECIFICATION Spec
CONSTANTS
  As = {"0.5", "0.6", "0.68", "0.75", "0.85", "1.1", "1.6"}
  Sigmas = {"0.08", "0.12", "0.2", "0.4", "0.8"}
  Rs = {"0", "0.01", "0.05"}
  Ds = {"0", "0.002"}
  Ts = {"1", "2", "5", "12"}
INVARIANTS FitRecovers FitFound DefaultIsAProbability DefaultFallsWithAssets SpreadIsPositive SpreadIsBounded SpreadRisesWithRisk BalanceSheet
