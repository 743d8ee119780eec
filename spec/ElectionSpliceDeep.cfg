SPECIFICATION SpliceSpec
CONSTANTS
  Q = 11
  PF = 13
  N = 1
  MaxBallots = 3
INVARIANTS Complete SoundInv SpliceInv
CHECK_DEADLOCK FALSE
