CONSTANTS N = 22
SPECIFICATION Spec
INVARIANTS SameArith SameRoot Laws Points
CHECK_DEADLOCK FALSE
