SPECIFICATION Spec
CONSTANTS
  Kind = "eq"
  K = 2
  Most = 2
INVARIANT Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
