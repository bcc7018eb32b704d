------------------------------- MODULE TilingMC -------------------------------
(***************************************************************************)
(* Laws of the index arithmetic, for all small shapes: the maps between    *)
(* linear and multi-dimensional indices are inverse bijections, the tiles  *)
(* partition the tensor, ranks are in range, periodic and evenly loaded.   *)
(***************************************************************************)
EXTENDS Tiling
CONSTANTS MaxDim, MaxExt, MaxRank
VARIABLES sh, ti, start, max

Box(s) == {UnravelIx(p, s) : p \in 0..(Prod(s) - 1)}
Seqs(m) == UNION {[1..n -> 1..m] : n \in 0..MaxDim}
Init ==
  /\ sh \in Seqs(MaxExt)
  /\ ti \in {t \in Seqs(MaxExt) : Len(t) = Len(sh)}
  /\ max \in 1..MaxRank /\ start \in 0..(max - 1)
Next == UNCHANGED <<sh, ti, start, max>>
Spec == Init /\ [][Next]_<<sh, ti, start, max>>

Bijection ==
  /\ \A p \in 0..(Prod(sh) - 1) : InBox(UnravelIx(p, sh), sh) /\ RavelIx(UnravelIx(p, sh), sh) = p
  /\ \A ix \in Box(sh) : RavelIx(ix, sh) \in 0..(Prod(sh) - 1) /\ UnravelIx(RavelIx(ix, sh), sh) = ix
  /\ Cardinality(Box(sh)) = Prod(sh)
StrideLaw == \A ix \in Box(sh) :
  RavelIx(ix, sh) = LET d == StrideOf(sh)
                        RECURSIVE Dot(_)
                        Dot(i) == IF i = 0 THEN 0 ELSE ix[i] * d[i] + Dot(i - 1)
                    IN  Dot(Len(sh))
Grid == GridOf(sh, ti)
Partition ==
  /\ \A ix \in Box(sh) : Cardinality({g \in Box(Grid) : InTile(ix, sh, ti, g)}) = 1
  /\ \A g \in Box(Grid) : ShapeOk(TileShape(sh, ti, g))
  /\ \A g \in Box(Grid) : Cardinality({ix \in Box(sh) : InTile(ix, sh, ti, g)}) = Prod(TileShape(sh, ti, g))
FullExceptLast == \A g \in Box(Grid) : \A i \in 1..Len(sh) :
  g[i] < Grid[i] - 1 => TileShape(sh, ti, g)[i] = ti[i]
\* here ti serves as the process grid and sh as the grid of tiles
R == Cyclic(sh, ti, start, max)
RankRange == \A p \in 1..Len(R) : R[p] \in 0..(max - 1)
RankFirst == R[1] = start
RankPeriodic == \A ix, iy \in Box(sh) :
  (\A i \in 1..Len(sh) : ix[i] % ti[i] = iy[i] % ti[i]) => R[RavelIx(ix, sh) + 1] = R[RavelIx(iy, sh) + 1]
\* if every process of the stamp has its own rank and the stamp tiles the grid, the load is even
RankEven ==
  (Prod(ti) <= max /\ \A i \in 1..Len(sh) : sh[i] % ti[i] = 0) =>
    \A r \in {R[p] : p \in 1..Len(R)} : Cardinality({p \in 1..Len(R) : R[p] = r}) = Prod(sh) \div Prod(ti)
=============================================================================
