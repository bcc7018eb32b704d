SPECIFICATION TraceSpec
INVARIANTS NoDangling NoStuck Done
CHECK_DEADLOCK FALSE
VIEW View
