SPECIFICATION Spec
CONSTANTS
  Add <- FAddQ
  Mul <- FMulQ
  Neg <- FNegQ
  Inv <- FInvQ
  Of <- FOfQ
