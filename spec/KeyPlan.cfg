SPECIFICATION Spec
CONSTANTS
  Depth = 24
CHECK_DEADLOCK FALSE
