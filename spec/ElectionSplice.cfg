SPECIFICATION SpliceSpec
CONSTANTS
  Q = 11
  PF = 13
  N = 2
  MaxBallots = 2
INVARIANTS Complete SoundInv SpliceInv
CHECK_DEADLOCK FALSE
