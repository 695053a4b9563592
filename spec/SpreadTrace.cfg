SPECIFICATION Spec
CONSTANTS
  CallClauses <- SpreadClauses
  Situations <- SpreadSituations
VIEW View
