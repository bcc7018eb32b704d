CONSTANTS MaxDim = 3 MaxExt = 4 MaxRank = 4
SPECIFICATION Spec
INVARIANTS Bijection StrideLaw Partition FullExceptLast RankRange RankFirst RankPeriodic RankEven
CHECK_DEADLOCK FALSE
