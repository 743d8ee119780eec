SPECIFICATION Spec
CONSTANTS
  Order = "11"
  Msgs = {0, 1, 4}
  Keys = {"1", "3", "10"}
  MaxVotes = 4
INVARIANTS Tally Masked
CHECK_DEADLOCK FALSE
