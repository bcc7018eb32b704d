----------------------------- MODULE TraitsTrace -----------------------------
(***************************************************************************)
(* Validates what the implementation says about shapes, tiles, index maps, *)
(* distributions and the construction of tiles and tensors.                *)
(***************************************************************************)
EXTENDS Tiling, Wide, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
VARIABLE l

TraitsMatch(e) ==
  LET sh == e.sh  ti == e.ti  o == e.o  g == GridOf(sh, ti)
  IN  /\ o.ndim = Len(sh) /\ o.sh = sh /\ o.ti = ti
      /\ o.n = Prod(sh) /\ o.stride = StrideOf(sh)
      /\ o.grid = g /\ o.gn = Prod(g) /\ o.gstride = StrideOf(g)
      /\ o.left = TileShape(sh, ti, LastTile(sh, ti))
      /\ o.ms = MatrixShape(sh)
      /\ Len(o.tiles) = Prod(g)
      /\ \A p \in 1..Len(o.tiles) :
           LET ix == UnravelIx(p - 1, g)
           IN  o.tiles[p] = <<ix, TileShape(sh, ti, ix), p - 1>>
      /\ Len(o.elems) = Prod(sh)
      /\ \A p \in 1..Len(o.elems) : o.elems[p] = <<UnravelIx(p - 1, sh), p - 1>>

\* answer of a question; <<>> refused
Answer(e) ==
  LET sh == e.sh  ti == e.ti  g == GridOf(sh, ti)  ix == e.ix
      Lin(s) == IF InBox(ix, s) THEN <<"ok", <<RavelIx(ix, s)>>>> ELSE <<"err">>
      Mul(s) == IF ix[1] >= 0 /\ ix[1] < Prod(s) THEN <<"ok", UnravelIx(ix[1], s)>> ELSE <<"err">>
      Til(z) == IF InBox(z, g) THEN <<"ok", TileShape(sh, ti, z)>> ELSE <<"err">>
  IN  CASE e.f = 0 -> Lin(sh)
        [] e.f = 1 -> Mul(sh)
        [] e.f = 2 -> IF Len(ix) # Len(sh) THEN <<"err">> ELSE <<"ok", <<IF InBox(ix, sh) THEN 1 ELSE 0>>>>
        [] e.f \in {3, 6} -> Til(ix)
        [] e.f = 4 -> Lin(g)
        [] e.f = 5 -> Mul(g)
        [] e.f = 7 -> IF ix[1] >= 0 /\ ix[1] < Prod(g) THEN Til(UnravelIx(ix[1], g)) ELSE <<"err">>

Guard(e) ==
  CASE e.k = "traits" -> IF TraitsOk(e.sh, e.ti) THEN e.o.res = "ok" /\ TraitsMatch(e) ELSE e.o.res = "err"
    [] e.k = "pytraits" ->
         IF TraitsOk(e.sh, e.ti)
         THEN e.res = "ok" /\ e.psh = e.sh /\ e.pnd = Len(e.sh) /\ e.pgrid = GridOf(e.sh, e.ti)
              /\ e.pn = Prod(e.sh)
              /\ (~e.cov \/ \A p \in 1..Prod(e.pgrid) : e.ptiles[p] = TileShape(e.sh, e.ti, UnravelIx(p - 1, e.pgrid)))
         ELSE e.res = "err"
    [] e.k = "ask" -> LET w == Answer(e) IN e.o.res = w[1] /\ (w[1] = "ok" => e.o.r = w[2])
    [] e.k = "cyclic" ->
         IF CyclicOk(e.g, e.q, e.start, e.max) THEN e.o.res = "ok" /\ e.o.r = Cyclic(e.g, e.q, e.start, e.max)
         ELSE e.o.res = "err"
    \* a tensor needs one rank for each tile
    [] e.k = "distr" -> (e.res = "ok") = (TraitsOk(e.sh, e.ti) /\ e.n = Prod(GridOf(e.sh, e.ti)))
    \* a tile in memory of the caller needs room for its elements
    [] e.k = "tileon" -> (e.res = "ok") = (ShapeOk(e.sh) /\ Prod(e.sh) <= e.cap)
    \* numbers of 64 bits
    [] e.k = "wide" -> e.o.res = "ok" /\ WTraits(e.o, e.sh, e.ti)
    [] e.k = "wask" -> WAnswer(e.f, e.sh, e.ti, e.g, e.ix, e.o)
    [] OTHER -> e.k = "case"
Why(e) ==
  CASE e.k = "ask" -> [w |-> ToString(Answer(e))]
    [] e.k = "cyclic" /\ CyclicOk(e.g, e.q, e.start, e.max) -> [w |-> ToString(Cyclic(e.g, e.q, e.start, e.max))]
    [] e.k \in {"traits", "pytraits"} -> [w |-> IF TraitsOk(e.sh, e.ti) THEN "described" ELSE "refused"]
    [] OTHER -> [w |-> "?"]

Init == l = 1
Next == /\ l <= N
        /\ IF Guard(Log[l]) THEN TRUE ELSE PrintT(<<"TRACE-REJECTED", l, ToJson(Why(Log[l]))>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == l = N + 1 => PrintT(<<"TRACE-DONE", N>>)
=============================================================================
