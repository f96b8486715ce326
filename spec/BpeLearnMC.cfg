SPECIFICATION Spec
CONSTANTS
  Uni <- NoUni
  Alpha = {97, 64}
  MaxLen = 4
  MaxWords = 2
  MaxFreqC = 2
INVARIANTS AsEncoding NoneTwice Decreasing AtEnd JoinsBack
PROPERTY Terminates
CHECK_DEADLOCK FALSE
