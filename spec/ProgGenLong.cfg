SPECIFICATION Spec
CONSTANTS Depth = 120
          MaxExt = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
