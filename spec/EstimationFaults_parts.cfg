SPECIFICATION Spec
CONSTANTS
  Possible <- Anything
  L = 2
  F = 2
  OneStep = FALSE
INVARIANTS Together Earned Answered AtMostTwice
PROPERTIES Sticky Ends
