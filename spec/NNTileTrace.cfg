SPECIFICATION TraceSpec
INVARIANTS TypeOK Done
CHECK_DEADLOCK FALSE
VIEW View
