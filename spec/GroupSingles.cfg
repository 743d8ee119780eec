INIT Init
NEXT Next
CONSTANTS
  Plus <- P0
  Minus <- M0
  Times <- P0
  Null = 0
  Base = 0
