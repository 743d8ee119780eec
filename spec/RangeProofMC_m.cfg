SPECIFICATION Spec
CONSTANTS
  Add <- AddS
  Mul <- MulS
  Neg <- NegS
  Inv <- InvS
  Of <- OfS
  Pr = 3
  Bits = 1
  Vals = 2
  Blind = {2}
  Chal = {1, 2}
INVARIANTS Complete Exact Folded Needed
CHECK_DEADLOCK FALSE
