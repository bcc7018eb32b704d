SPECIFICATION MCSpec
CONSTANTS NH = 3
          NT = 4
          Obj = {"a", "b", "c"}
INVARIANTS OwnersHoldLive NoLeak NoDangling NoStuck AllReleased CanFinish
CHECK_DEADLOCK FALSE
