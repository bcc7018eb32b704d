SPECIFICATION Spec
INVARIANTS Numbers Shapes
CHECK_DEADLOCK FALSE
