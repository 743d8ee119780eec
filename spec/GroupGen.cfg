SPECIFICATION Spec
CONSTANTS
  K = 3
  D = 24
  Plus <- P0
  Minus <- M0
  Times <- P0
  Null = 0
  Base = 0
CHECK_DEADLOCK FALSE
