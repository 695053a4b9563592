SPECIFICATION Spec
CONSTANTS
  CallClauses <- MesClauses
  Situations <- MesSituations
VIEW View
