SPECIFICATION ForgeSpec
CONSTANTS
  Q = 11
  PF = 13
  N = 2
  MaxBallots = 1
INVARIANTS Complete SoundInv
CHECK_DEADLOCK FALSE
