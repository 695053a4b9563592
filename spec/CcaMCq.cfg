SPECIFICATION Spec
CONSTANTS
  Vs = {"70", "101", "120", "200", "600"}
  Sigmas = {"0.03", "0.15", "0.4", "0.9"}
  Rs = {"-0.005", "0", "0.05"}
  Ts = {"0.5", "1", "5"}
  Spreads = {"0", "50", "900"}
INVARIANTS EquityIsLevered BalanceSheet RiskyDebtIsWorthLess GuaranteeGrowsWithSpread
