SPECIFICATION Spec
CONSTANTS
  Steps <- NoSteps
  Deps <- NoDeps
