SPECIFICATION Spec
CONSTANTS
  CallClauses <- CcaClauses
  Situations <- CcaSituations
VIEW View
