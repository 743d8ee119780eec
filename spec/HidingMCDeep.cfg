SPECIFICATION Spec
CONSTANTS
  Add <- AddS
  Mul <- MulS
  Neg <- NegS
  Inv <- InvS
  Of <- OfS
  Pr = 3
  Few = {1, 2}
  Hs_ = {1, 2}
INVARIANTS Hides Needed
CHECK_DEADLOCK FALSE
