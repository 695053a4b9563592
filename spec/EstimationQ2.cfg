SPECIFICATION Spec
CONSTANTS
  L = 2
  F = 2
  OneStep = TRUE
INVARIANTS Together Earned Answered AtMostTwice
PROPERTIES Sticky Ends
