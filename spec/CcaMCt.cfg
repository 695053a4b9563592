SPECIFICATION Spec
CONSTANTS
  Vs = {"50", "70", "90", "101", "110", "120", "200", "600", "5000"}
  Sigmas = {"0.01", "0.03", "0.08", "0.15", "0.25", "0.4", "0.9", "1.5"}
  Rs = {"-0.005", "0", "0.05"}
  Ts = {"0.1", "0.5", "1", "5", "20"}
  Spreads = {"0", "50", "900"}
INVARIANTS EquityIsLevered BalanceSheet RiskyDebtIsWorthLess GuaranteeGrowsWithSpread
