SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Names = {"a", "b", "c"}
  MaxOps = 6
INVARIANTS Consistent Derived
PROPERTY Kept
CHECK_DEADLOCK FALSE
