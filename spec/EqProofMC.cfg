SPECIFICATION Spec
CONSTANTS
  OrdP = "67"
  OrdQ = "61"
  bx = 1
  bc = 2
  bb = 2
  Masks = {0, 5}
INVARIANTS Window Complete Sound OneMask Needed
CHECK_DEADLOCK FALSE
