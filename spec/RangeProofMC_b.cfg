SPECIFICATION Spec
CONSTANTS
  Add <- AddS
  Mul <- MulS
  Neg <- NegS
  Inv <- InvS
  Of <- OfS
  Pr = 5
  Bits = 1
  Vals = 1
  Blind = {0, 1, 3}
  Chal = {2}
INVARIANTS Complete Exact Folded Needed
CHECK_DEADLOCK FALSE
