SPECIFICATION Spec
CONSTANTS
  CallClauses <- NumberClauses
  Situations <- NumberSituations
VIEW View
