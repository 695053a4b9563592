SPECIFICATION Spec
CONSTANTS
  CallClauses <- SriskClauses
  Situations <- SriskSituations
VIEW View
