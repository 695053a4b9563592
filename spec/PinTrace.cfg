SPECIFICATION Spec
CONSTANTS
  CallClauses <- PinClauses
  Situations <- PinSituations
VIEW View
