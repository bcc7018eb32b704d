-------------------------------- MODULE Tiled --------------------------------
(***************************************************************************)
(* Why tiling is invisible.  An operation on whole tensors is executed as  *)
(* the same operation on tiles: one task for every element of the grid of  *)
(* its index space.  The tasks may run in any order, except that the first *)
(* submitted one of those with one result tile is run before the others    *)
(* (it applies the coefficient of the destination, the others accumulate). *)
(* When no task is left, the memory is what Dense!Writes assigns at once.  *)
(*                                                                         *)
(* A case gives the operation, its index space (extent and tile of every   *)
(* axis), and for every operand which axis each of its dimensions runs     *)
(* along (a negative number -e: a dimension of extent e that is not cut).  *)
(***************************************************************************)
EXTENDS Dense
CONSTANTS Seeds, Names, Cuts, MaxTasks,
          Ordered               \* FALSE: the first task is not waited for (must be refuted)
VARIABLES k, mem0, mem, todo, begun

Rnd(s, i) == LET z == ((s * 7919 + i * 104729 + 12345) % 65521) IN ((z * 137 + (z \div 7) * 31) % 33) - 16
Val(style, s, n) ==
  [i \in 1..n |->
     IF style = "pos" THEN (Abs(Rnd(s, i)) + 8) * (S \div 16)
     ELSE IF style = "label" THEN Abs(Rnd(s, i)) % 3
     ELSE IF style = "mask" THEN Abs(Rnd(s, i)) % 2
     ELSE IF style = "zero" THEN 0
     ELSE IF style = "pair" THEN (IF i % 2 = 0 THEN (Abs(Rnd(s, i)) + 8) * (S \div 16) ELSE Rnd(s, i) * (S \div 16))
     ELSE IF style = "logit" /\ Rnd(s, i + 50) > 10 THEN NInf ELSE Rnd(s, i) * (S \div 16)]

\* operand: name -> <<axes, style>>
C(a, n, m, out, acc) == [a |-> a, n |-> n, m |-> m, out |-> out, acc |-> acc]
Case(name) ==
  LET al == S \div 2  be == -2 * S
  IN
  CASE name = "add" -> C([op |-> "add", x |-> "x", y |-> "y", alpha |-> al, beta |-> be], <<3, 2>>, [x |-> <<<<1, 2>>, "any">>, y |-> <<<<1, 2>>, "any">>], "y", FALSE)
    [] name = "add_slice" -> C([op |-> "add_slice", s |-> "s", y |-> "y", alpha |-> al, beta |-> be, axis |-> 1], <<2, 3, 2>>, [s |-> <<<<1, 3>>, "any">>, y |-> <<<<1, 2, 3>>, "any">>], "y", FALSE)
    [] name = "add_fiber" -> C([op |-> "add_fiber", s |-> "s", y |-> "y", alpha |-> al, beta |-> be, axis |-> 0, batch |-> 1], <<3, 2, 2>>, [s |-> <<<<1, 3>>, "any">>, y |-> <<<<1, 2, 3>>, "any">>], "y", FALSE)
    [] name = "prod_fiber3" -> C([op |-> "prod_fiber3", s |-> "s", x |-> "x", y |-> "y", alpha |-> al, axis |-> 1], <<2, 3>>, [s |-> <<<<2>>, "any">>, x |-> <<<<1, 2>>, "any">>, y |-> <<<<1, 2>>, "any">>], "y", FALSE)
    [] name = "sum_slice" -> C([op |-> "sum_slice", x |-> "x", y |-> "y", alpha |-> al, beta |-> be, axis |-> 1], <<2, 3, 2>>, [x |-> <<<<1, 2, 3>>, "any">>, y |-> <<<<1, 3>>, "any">>], "y", TRUE)
    [] name = "sumprod_slice" -> C([op |-> "sumprod_slice", x |-> "x", x2 |-> "x2", y |-> "y", alpha |-> al, beta |-> be, axis |-> 0], <<3, 2>>, [x |-> <<<<1, 2>>, "any">>, x2 |-> <<<<1, 2>>, "any">>, y |-> <<<<2>>, "any">>], "y", TRUE)
    [] name = "norm_slice" -> C([op |-> "norm_slice", x |-> "x", y |-> "y", alpha |-> al, beta |-> be, axis |-> 1], <<2, 4>>, [x |-> <<<<1, 2>>, "any">>, y |-> <<<<1>>, "any">>], "y", TRUE)
    [] name = "sum_fiber" -> C([op |-> "sum_fiber", x |-> "x", y |-> "y", alpha |-> al, beta |-> be, axis |-> 1, batch |-> 1], <<2, 2, 3, 2>>, [x |-> <<<<1, 2, 3, 4>>, "any">>, y |-> <<<<2, 4>>, "any">>], "y", TRUE)
    [] name = "sumprod_fiber" -> C([op |-> "sumprod_fiber", x |-> "x", x2 |-> "x2", y |-> "y", alpha |-> al, beta |-> be, axis |-> 0], <<2, 3>>, [x |-> <<<<1, 2>>, "any">>, x2 |-> <<<<1, 2>>, "any">>, y |-> <<<<1>>, "any">>], "y", TRUE)
    [] name = "gemm" -> C([op |-> "gemm", a |-> "a", b |-> "b", c |-> "c", alpha |-> al, beta |-> be, ta |-> FALSE, tb |-> TRUE, ndim |-> 1, batch |-> 1], <<2, 3, 2, 2>>,
                          [a |-> <<<<1, 2, 4>>, "any">>, b |-> <<<<3, 2, 4>>, "any">>, c |-> <<<<1, 3, 4>>, "any">>], "c", TRUE)
    [] name = "gemm2" -> C([op |-> "gemm", a |-> "a", b |-> "b", c |-> "c", alpha |-> al, beta |-> 0, ta |-> TRUE, tb |-> FALSE, ndim |-> 2, batch |-> 0], <<3, 2, 2, 1>>,
                          [a |-> <<<<2, 3, 1>>, "any">>, b |-> <<<<2, 3, 4>>, "any">>, c |-> <<<<1, 4>>, "any">>], "c", TRUE)
    [] name = "transpose" -> C([op |-> "transpose", x |-> "x", y |-> "y", alpha |-> al, ndim |-> 1], <<2, 3, 2>>, [x |-> <<<<1, 2, 3>>, "any">>, y |-> <<<<2, 3, 1>>, "any">>], "y", FALSE)
    [] name = "maxsumexp" -> C([op |-> "maxsumexp", x |-> "x", y |-> "y", axis |-> 1], <<2, 4>>, [x |-> <<<<1, 2>>, "logit">>, y |-> <<<<-2, 1>>, "pair">>], "y", TRUE)
    [] name = "maxsumexp0" -> C([op |-> "maxsumexp", x |-> "x", y |-> "y", axis |-> 0], <<5, 2>>, [x |-> <<<<1, 2>>, "logit">>, y |-> <<<<-2, 2>>, "zero">>], "y", TRUE)
    [] name = "softmax" -> C([op |-> "softmax", x |-> "x", s |-> "s", y |-> "y", alpha |-> al, axis |-> 1], <<2, 3>>, [x |-> <<<<1, 2>>, "logit">>, s |-> <<<<-2, 1>>, "pair">>, y |-> <<<<1, 2>>, "any">>], "y", FALSE)
    [] name = "logsumexp" -> C([op |-> "logsumexp", x |-> "x", y |-> "y"], <<2, 3>>, [x |-> <<<<-2, 1, 2>>, "pair">>, y |-> <<<<1, 2>>, "any">>], "y", FALSE)
    [] name = "mask_scalar" -> C([op |-> "mask_scalar", mask |-> "mask", y |-> "y", alpha |-> al, batch |-> 1], <<2, 3, 2>>, [mask |-> <<<<1, 2>>, "mask">>, y |-> <<<<1, 2, 3>>, "any">>], "y", FALSE)
    [] name = "embedding" -> C([op |-> "embedding", i |-> "i", v |-> "v", e |-> "e", axis |-> 1], <<2, 2, 2>>, [i |-> <<<<1, 3>>, "label">>, v |-> <<<<2, -3>>, "any">>, e |-> <<<<1, 2, 3>>, "any">>], "e", FALSE)
    [] name = "embedding_backward" -> C([op |-> "embedding_backward", i |-> "i", v |-> "v", e |-> "e", axis |-> 1], <<2, 2, 3>>, [i |-> <<<<1, 3>>, "label">>, v |-> <<<<2, -3>>, "any">>, e |-> <<<<1, 2, 3>>, "any">>], "v", TRUE)
    [] name = "subtract" -> C([op |-> "subtract_indexed_outputs", i |-> "i", y |-> "y", alpha |-> al], <<2, 3>>, [i |-> <<<<1, 2>>, "label">>, y |-> <<<<-3, 1, 2>>, "any">>], "y", FALSE)
    [] name = "total_sum" -> C([op |-> "total_sum_accum", s |-> "s", x |-> "x", i |-> "i", y |-> "y", alpha |-> al], <<2, 3>>, [s |-> <<<<1, 2>>, "any">>, x |-> <<<<-3, 1, 2>>, "any">>, i |-> <<<<1, 2>>, "label">>, y |-> <<<<>>, "any">>], "y", TRUE)
    [] name = "adamw" -> C([op |-> "adamw", p |-> "p", g |-> "g", m |-> "m", v |-> "v", it |-> 2, lr |-> al, eps |-> al, b1 |-> al, b2 |-> al, wd |-> al], <<3, 2>>,
                           [n \in {"p", "g", "m", "v"} |-> <<<<1, 2>>, IF n = "v" THEN "pos" ELSE "any">>], "p", FALSE)

Ext(d, i) == IF i < 0 THEN -i ELSE d[i]
Mk(c, s) == [f \in DOMAIN c.m |->
  LET sh == [i \in 1..Len(c.m[f][1]) |-> Ext(c.n, c.m[f][1][i])]
  IN  [shape |-> sh, tile |-> sh, dt |-> "f", prec |-> 64, ex |-> FALSE,
       val |-> Val(c.m[f][2], s + (CHOOSE j \in 1..20 : <<"x", "y", "s", "x2", "a", "b", "c", "mask", "i", "v", "e", "p", "g", "m">>[j] = f), ProdSeq(sh))]]

\* the grid of the index space, and the part of an operand a grid element refers to
GridSize(n, t) == [i \in 1..Len(n) |-> CeilDiv(n[i], t[i])]
RECURSIVE Boxes(_)
Boxes(g) == IF g = <<>> THEN {<<>>} ELSE {<<i>> \o b : i \in 0..(g[1] - 1), b \in Boxes(Tail(g))}
Lo(c, t, g, f) == [i \in 1..Len(c.m[f][1]) |-> LET x == c.m[f][1][i] IN IF x < 0 THEN 0 ELSE g[x] * t[x]]
Sh(c, t, g, f) == [i \in 1..Len(c.m[f][1]) |-> LET x == c.m[f][1][i]
                      IN  IF x < 0 THEN -x ELSE IF (g[x] + 1) * t[x] <= c.n[x] THEN t[x] ELSE c.n[x] - g[x] * t[x]]
TileOf(T, lo, sh) == [T EXCEPT !.shape = sh, !.tile = sh,
  !.val = Vec(ProdSeq(sh), LAMBDA p : LET ix == Unravel(p, sh) IN T.val[Ravel([i \in 1..Len(ix) |-> ix[i] + lo[i]], T.shape) + 1])]
PutTile(T, lo, sh, v) == [T EXCEPT !.val = Vec(Size(T), LAMBDA p :
  LET ix == Unravel(p, T.shape)
      in == \A i \in 1..Len(ix) : ix[i] >= lo[i] /\ ix[i] < lo[i] + sh[i]
  IN  IF in THEN v[Ravel([i \in 1..Len(ix) |-> ix[i] - lo[i]], sh) + 1] ELSE T.val[p + 1])]

\* grid elements with the result tile of g, the first of them in the order of submission
OutOf(c, g) == [i \in 1..Len(c.m[c.out][1]) |-> LET x == c.m[c.out][1][i] IN IF x < 0 THEN 0 ELSE g[x]]
HasBeta(c) == "beta" \in DOMAIN c.a
First(c, g) == \A i \in 1..Len(g) : (\E j \in 1..Len(c.m[c.out][1]) : c.m[c.out][1][j] = i) \/ g[i] = 0
Run(c, t, g, M) ==
  LET a1 == IF HasBeta(c) /\ c.acc /\ ~First(c, g) THEN [c.a EXCEPT !.beta = One] ELSE c.a
      tiles == [f \in DOMAIN M |-> TileOf(M[f], Lo(c, t, g, f), Sh(c, t, g, f))]
      W == Writes(tiles, a1)
  IN  [f \in DOMAIN M |-> IF f \in DOMAIN W THEN PutTile(M[f], Lo(c, t, g, f), Sh(c, t, g, f), W[f]) ELSE M[f]]

Tilings(n) == {t \in [1..Len(n) -> Cuts] : (\A i \in 1..Len(n) : t[i] <= n[i]) /\ ProdSeq(GridSize(n, t)) \in 2..MaxTasks}
Init == \E name \in Names, s \in Seeds :
          LET c == Case(name)
          IN  \E t \in Tilings(c.n) :
                /\ k = [name |-> name, t |-> t] /\ mem0 = Mk(c, s * 40) /\ mem = mem0
                /\ todo = Boxes(GridSize(c.n, t)) /\ begun = {}
Next == \E g \in todo :
          LET c == Case(k.name)
          IN  /\ (Ordered /\ HasBeta(c) /\ c.acc /\ ~First(c, g)) => OutOf(c, g) \in begun
              /\ mem' = Run(c, k.t, g, mem) /\ todo' = todo \ {g} /\ begun' = begun \cup {OutOf(c, g)}
              /\ UNCHANGED <<k, mem0>>
Spec == Init /\ [][Next]_<<k, mem0, mem, todo, begun>>
Refines ==
  todo = {} =>
    LET a == Case(k.name).a  W == Writes(mem0, a)
    IN  \A f \in DOMAIN mem : AllClose(mem[f].val, IF f \in DOMAIN W THEN W[f] ELSE mem0[f].val, 40, 10)
\* tiles other than those of finished tasks have not changed
Frame == \A g \in todo : LET c == Case(k.name) IN OutOf(c, g) \in begun
              \/ TileOf(mem[c.out], Lo(c, k.t, g, c.out), Sh(c, k.t, g, c.out)) = TileOf(mem0[c.out], Lo(c, k.t, g, c.out), Sh(c, k.t, g, c.out))
=============================================================================
