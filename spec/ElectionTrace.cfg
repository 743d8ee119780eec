SPECIFICATION Spec
CONSTANTS
  OrdP <- P
  OrdQ <- Q
