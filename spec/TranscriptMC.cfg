SPECIFICATION TSpec
CONSTANTS
  Steps <- StepsMC
  Deps <- DepsMC
INVARIANTS Ordered Leaky
CHECK_DEADLOCK FALSE
