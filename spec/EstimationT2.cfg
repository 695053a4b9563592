SPECIFICATION Spec
CONSTANTS
  L = 3
  F = 3
  OneStep = TRUE
INVARIANTS Together Earned Answered AtMostTwice
PROPERTIES Sticky Ends
