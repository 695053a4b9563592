SPECIFICATION Spec
CONSTANTS
  CallClauses <- MertonCallClauses
  Situations <- MertonSituations
VIEW View
