SPECIFICATION MCSpec
CONSTANTS NH = 2
          NT = 3
          Obj = {"a", "b"}
INVARIANTS OwnersHoldLive NoLeak NoDangling NoStuck AllReleased CanFinish
CHECK_DEADLOCK FALSE
