SPECIFICATION Spec
CONSTANTS
  CallClauses <- BookClauses
  Situations <- BookSituations
VIEW View
