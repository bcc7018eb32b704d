SPECIFICATION MCSpec
CONSTANTS H = {1, 2}
          NT = 3
          Clash <- LateReaderClash
          TaskModes = {"R", "W", "RW", "C", "X"}
INVARIANTS Consistent Quiet NoDangling NoStuck
CHECK_DEADLOCK FALSE
