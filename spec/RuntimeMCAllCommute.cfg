SPECIFICATION MCSpec
CONSTANTS H = {1, 2}
          NT = 3
          Clash <- AllCommuteClash
          TaskModes = {"R", "W", "RW", "C", "X"}
INVARIANTS Consistent Quiet NoDangling NoStuck
CHECK_DEADLOCK FALSE
