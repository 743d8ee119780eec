SPECIFICATION Spec
CONSTANTS
  Kind = "bp"
  K = 2
  Most = 2
INVARIANT Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
