SPECIFICATION Spec
CONSTANTS
  CallClauses <- SesClauses
  Situations <- SesSituations
VIEW View
