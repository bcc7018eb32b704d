SPECIFICATION MCSpec
CONSTANTS H = {1, 2, 3}
          NT = 3
          TaskModes = {"R", "W", "RW"}
INVARIANTS Consistent Quiet NoDangling NoStuck
CHECK_DEADLOCK FALSE
