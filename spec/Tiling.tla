-------------------------------- MODULE Tiling --------------------------------
(***************************************************************************)
(* The arithmetic of shapes: linear and multi-dimensional indices, the     *)
(* partition of a tensor into tiles, and the block-cyclic distribution of  *)
(* tiles over ranks.  Indices are 0-based, sequences are 1-based.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE UnravelIx(_, _)
UnravelIx(p, s) == IF s = <<>> THEN <<>> ELSE <<p % s[1]>> \o UnravelIx(p \div s[1], Tail(s))
RECURSIVE RavelIx(_, _)
RavelIx(ix, s) == IF s = <<>> THEN 0 ELSE ix[1] + s[1] * RavelIx(Tail(ix), Tail(s))
InBox(ix, s) == Len(ix) = Len(s) /\ \A i \in 1..Len(s) : ix[i] >= 0 /\ ix[i] < s[i]

ShapeOk(sh) == \A i \in 1..Len(sh) : sh[i] > 0
TraitsOk(sh, ti) == ShapeOk(sh) /\ Len(ti) = Len(sh) /\ ShapeOk(ti)
\* number of tiles along a dimension, extent of the tile number g
Count(n, t) == (n + t - 1) \div t
GridOf(sh, ti) == [i \in 1..Len(sh) |-> Count(sh[i], ti[i])]
ExtentAt(n, t, g) == IF (g + 1) * t <= n THEN t ELSE n - g * t
TileShape(sh, ti, g) == [i \in 1..Len(sh) |-> ExtentAt(sh[i], ti[i], g[i])]
TileStart(ti, g) == [i \in 1..Len(ti) |-> g[i] * ti[i]]
LastTile(sh, ti) == [i \in 1..Len(sh) |-> Count(sh[i], ti[i]) - 1]
StrideOf(sh) == [i \in 1..Len(sh) |-> Prod(SubSeq(sh, 1, i - 1))]
MatrixShape(sh) == [i \in 1..(Len(sh) + 1) |-> <<Prod(SubSeq(sh, 1, i - 1)), Prod(SubSeq(sh, i, Len(sh)))>>]
\* an element belongs to a tile
InTile(ix, sh, ti, g) == \A i \in 1..Len(sh) :
     ix[i] >= g[i] * ti[i] /\ ix[i] < g[i] * ti[i] + ExtentAt(sh[i], ti[i], g[i])

\* the rank of tile number p of a grid
CyclicOk(g, q, start, max) ==
  ShapeOk(g) /\ Len(q) = Len(g) /\ ShapeOk(q) /\ start >= 0 /\ start < max
RankOf(p, g, q, start, max) ==
  LET ix == UnravelIx(p, g)
      pos == [i \in 1..Len(g) |-> ix[i] % q[i]]
  IN  (RavelIx(pos, q) + start) % max
Cyclic(g, q, start, max) == [p \in 1..Prod(g) |-> RankOf(p - 1, g, q, start, max)]
=============================================================================
