SPECIFICATION Spec
CONSTANTS
  Depth = 40
  MaxObj = 7
CHECK_DEADLOCK FALSE
