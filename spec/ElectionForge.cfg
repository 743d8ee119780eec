SPECIFICATION ForgeSpec
CONSTANTS
  Q = 7
  PF = 11
  N = 1
  MaxBallots = 1
INVARIANTS Complete SoundInv
CHECK_DEADLOCK FALSE
