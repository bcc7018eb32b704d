SPECIFICATION Spec
INVARIANT Done
CHECK_DEADLOCK FALSE
VIEW View
