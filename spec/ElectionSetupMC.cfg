SPECIFICATION Spec
CONSTANTS
  MaxQ = 37
  MaxHi = 9
INVARIANT FitsIsEnough
CHECK_DEADLOCK FALSE
