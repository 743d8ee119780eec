SPECIFICATION Spec
CONSTANTS
  Add <- AddS
  Mul <- MulS
  Neg <- NegS
  Inv <- InvS
  Of <- OfS
  Pr = 5
  Bits = 1
  Vals = 1
  Blind = {2}
  Chal = {1, 2, 3, 4}
INVARIANTS Complete Exact Folded Needed
CHECK_DEADLOCK FALSE
