SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Groups = {0, 1, 2, 3}
  Depth = 38
CHECK_DEADLOCK FALSE
