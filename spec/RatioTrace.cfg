SPECIFICATION Spec
CONSTANTS
  CallClauses <- RatioClauses
  Situations <- RatioSituations
VIEW View
