SPECIFICATION Spec
CONSTANTS
  CallClauses <- OptionClauses
  Situations <- OptionSituations
VIEW View
