SPECIFICATION Spec
CONSTANTS Depth = 24
          MaxExt = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
