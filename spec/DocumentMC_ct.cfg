SPECIFICATION Spec
CONSTANTS
  Kind = "ct"
  K = 2
  Most = 2
INVARIANT Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
