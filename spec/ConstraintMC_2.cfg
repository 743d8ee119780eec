SPECIFICATION Spec
CONSTANTS
  Add <- AddS
  Mul <- MulS
  Neg <- NegS
  Inv <- InvS
  Of <- OfS
  Pr = 7
  Bits = 2
  Vals = 1
INVARIANTS Bits_iff
CHECK_DEADLOCK FALSE
