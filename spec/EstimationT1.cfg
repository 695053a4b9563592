SPECIFICATION Spec
CONSTANTS
  L = 3
  F = 3
  OneStep = FALSE
INVARIANTS Together Earned Answered AtMostTwice
PROPERTIES Sticky Ends
