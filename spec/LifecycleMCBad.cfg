SPECIFICATION MCSpec
CONSTANTS NH = 2
          NT = 3
          Obj = {"a", "b"}
          Leaves <- GreedyLeaves
INVARIANTS OwnersHoldLive NoLeak NoDangling NoStuck AllReleased CanFinish
CHECK_DEADLOCK FALSE
