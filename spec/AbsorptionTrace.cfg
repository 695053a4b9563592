SPECIFICATION Spec
CONSTANTS
  CallClauses <- AbsorptionClauses
  Situations <- AbsorptionSituations
VIEW View
