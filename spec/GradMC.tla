-------------------------------- MODULE GradMC --------------------------------
(***************************************************************************)
(* The backward requests of Nets are the derivatives of its forward        *)
(* requests: for a random direction dy the derivative of <dy, y> by every  *)
(* element of every operand, taken by central differences of the forward   *)
(* request, is what the backward request adds to the gradient.  A state is *)
(* a request (a layer with its options, a loss) and a seed of the data.    *)
(***************************************************************************)
EXTENDS Nets
CONSTANTS Seeds, Kinds
VARIABLES c, seed

\* pseudo-random multiples of 1/16 within [-1, 1] (Off: bounded away from 0)
Rnd(s, i) == LET z == ((s * 7919 + i * 104729 + 12345) % 65521) IN ((z * 137 + (z \div 7) * 31) % 33) - 16
Off(n) == IF n >= 0 THEN n + 6 ELSE n - 6
Ten(sh, s) == [shape |-> sh, tile |-> sh, dt |-> "f", prec |-> 64, ex |-> FALSE,
               val |-> [i \in 1..ProdSeq(sh) |-> Rnd(s, i) * (S \div 16)]]
OffTen(sh, s) == [Ten(sh, s) EXCEPT !.val = [i \in 1..ProdSeq(sh) |-> Off(Rnd(s, i)) * (S \div 16)]]
Zero(sh) == [Ten(sh, 0) EXCEPT !.val = [i \in 1..ProdSeq(sh) |-> 0]]
Lab(sh, s, k) == [Ten(sh, s) EXCEPT !.dt = "i", !.val = [i \in 1..ProdSeq(sh) |-> Abs(Rnd(s, i)) % k]]
Causal(n) == [Ten(<<n, n>>, 0) EXCEPT !.dt = "b", !.val = [p \in 1..(n * n) |-> IF (p - 1) % n <= (p - 1) \div n THEN 1 ELSE 0]]

\* a case: memory, forward request, backward request, result, pairs <<operand, its gradient>>
Case(k, s) ==
  CASE k[1] = "linear" ->
         LET side == k[2]  ta == k[3]  bias == k[4]
             xmk == (side = "L") = ~ta
             M == ("x" :> Ten(IF xmk THEN <<2, 3>> ELSE <<3, 2>>, s)) @@ ("w" :> Ten(IF side = "L" THEN <<3, 2>> ELSE <<2, 3>>, s + 1))
                  @@ ("b" :> Ten(<<2>>, s + 2)) @@ ("y" :> Zero(<<2, 2>>)) @@ ("gy" :> Ten(<<2, 2>>, s + 3))
                  @@ ("gx" :> Zero(IF xmk THEN <<2, 3>> ELSE <<3, 2>>)) @@ ("gw" :> Zero(IF side = "L" THEN <<3, 2>> ELSE <<2, 3>>)) @@ ("gb" :> Zero(<<2>>))
             r == [x |-> "x", w |-> "w", b |-> IF bias THEN "b" ELSE "", y |-> "y", side |-> side, ta |-> ta, nd |-> 1,
                   gy |-> "gy", gx |-> "gx", gw |-> "gw", gb |-> IF bias THEN "gb" ELSE ""]
         IN  [M |-> M, f |-> r @@ ("op" :> "linear_fwd"), b |-> r @@ ("op" :> "linear_bwd"),
              g |-> <<<<"x", "gx">>, <<"w", "gw">>>> \o (IF bias THEN <<<<"b", "gb">>>> ELSE <<>>)]
    [] k[1] = "act" ->
         LET M == ("x" :> OffTen(<<5>>, s)) @@ ("y" :> Zero(<<5>>)) @@ ("gy" :> Ten(<<5>>, s + 3)) @@ ("gx" :> Zero(<<5>>))
             r == [f |-> k[2], x |-> "x", y |-> "y", gy |-> "gy", gx |-> "gx"]
         IN  [M |-> M, f |-> r @@ ("op" :> "act_fwd"), b |-> r @@ ("op" :> "act_bwd"), g |-> <<<<"x", "gx">>>>]
    [] k[1] = "sum" ->
         LET two == k[2]
             M == ("x" :> Ten(<<3>>, s)) @@ ("z" :> Ten(<<3>>, s + 1)) @@ ("y" :> Zero(<<3>>)) @@ ("gy" :> Ten(<<3>>, s + 3)) @@ ("gx" :> Zero(<<3>>)) @@ ("gz" :> Zero(<<3>>))
             r == [x |-> "x", x2 |-> IF two THEN "z" ELSE "x", y |-> "y", gy |-> "gy", gx |-> "gx", gx2 |-> IF two THEN "gz" ELSE "gx"]
         IN  [M |-> M, f |-> r @@ ("op" :> "sum_fwd"), b |-> r @@ ("op" :> "sum_bwd"), g |-> <<<<"x", "gx">>>> \o (IF two THEN <<<<"z", "gz">>>> ELSE <<>>)]
    [] k[1] = "addslice" ->
         LET sl == Without(<<2, 3, 2>>, k[2])
             M == ("x" :> Ten(<<2, 3, 2>>, s)) @@ ("z" :> Ten(sl, s + 1)) @@ ("y" :> Zero(<<2, 3, 2>>)) @@ ("gy" :> Ten(<<2, 3, 2>>, s + 3))
                  @@ ("gx" :> Zero(<<2, 3, 2>>)) @@ ("gz" :> Zero(sl))
             r == [x |-> "x", x2 |-> "z", y |-> "y", gy |-> "gy", gx |-> "gx", gx2 |-> "gz", axis |-> k[2]]
         IN  [M |-> M, f |-> r @@ ("op" :> "addslice_fwd"), b |-> r @@ ("op" :> "addslice_bwd"), g |-> <<<<"x", "gx">>, <<"z", "gz">>>>]
    [] k[1] = "embed" ->
         LET ys == IF k[2] = 0 THEN <<3, 2, 2>> ELSE IF k[2] = 1 THEN <<2, 3, 2>> ELSE <<2, 2, 3>>
             M == ("i" :> Lab(<<2, 2>>, s, 3)) @@ ("w" :> Ten(<<3, 3>>, s + 1)) @@ ("y" :> Zero(ys)) @@ ("gy" :> Ten(ys, s + 3)) @@ ("gw" :> Zero(<<3, 3>>))
             r == [i |-> "i", w |-> "w", y |-> "y", gy |-> "gy", gw |-> "gw", axis |-> k[2]]
         IN  [M |-> M, f |-> r @@ ("op" :> "embed_fwd"), b |-> r @@ ("op" :> "embed_bwd"), g |-> <<<<"w", "gw">>>>]
    [] k[1] = "gap" ->
         LET M == ("x" :> Ten(<<3, 2, 2>>, s)) @@ ("y" :> Zero(<<2, 2>>)) @@ ("gy" :> Ten(<<2, 2>>, s + 3)) @@ ("gx" :> Zero(<<3, 2, 2>>))
             r == [x |-> "x", y |-> "y", gy |-> "gy", gx |-> "gx"]
         IN  [M |-> M, f |-> r @@ ("op" :> "gap_fwd"), b |-> r @@ ("op" :> "gap_bwd"), g |-> <<<<"x", "gx">>>>]
    [] k[1] = "ln" ->
         LET sh == <<2, 3, 2>>  n == sh[k[2] + 1]
             M == ("x" :> Ten(sh, s)) @@ ("g" :> OffTen(<<n>>, s + 1)) @@ ("be" :> Ten(<<n>>, s + 2)) @@ ("y" :> Zero(sh)) @@ ("gy" :> Ten(sh, s + 3))
                  @@ ("gx" :> Zero(sh)) @@ ("gg" :> Zero(<<n>>)) @@ ("gbe" :> Zero(<<n>>))
             r == [x |-> "x", g |-> "g", be |-> "be", y |-> "y", gy |-> "gy", gx |-> "gx", gg |-> "gg", gbe |-> "gbe", axis |-> k[2], eps |-> S \div 2]
         IN  [M |-> M, f |-> r @@ ("op" :> "ln_fwd"), b |-> r @@ ("op" :> "ln_bwd"), g |-> <<<<"x", "gx">>, <<"g", "gg">>, <<"be", "gbe">>>>]
    [] k[1] = "mha" ->
         LET bias == k[2]  mask == k[3]  self == k[4]
             E == 3  H == 2  D == 2  L == 2  B == 2
             X(n) == IF self THEN "xq" ELSE n
             G(n) == IF self THEN "gxq" ELSE n
             Q(n) == IF bias THEN n ELSE ""
             M == [n \in {"xq", "xk", "xv"} |-> Ten(<<E, L, B>>, s + (IF n = "xq" THEN 0 ELSE IF n = "xk" THEN 1 ELSE 2))]
                  @@ [n \in {"gxq", "gxk", "gxv"} |-> Zero(<<E, L, B>>)]
                  @@ ("wq" :> Ten(<<H, D, E>>, s + 4)) @@ ("wk" :> Ten(<<H, D, E>>, s + 5)) @@ ("wv" :> Ten(<<H, D, E>>, s + 6)) @@ ("w" :> Ten(<<E, H, D>>, s + 7))
                  @@ [n \in {"gwq", "gwk", "gwv"} |-> Zero(<<H, D, E>>)] @@ ("gw" :> Zero(<<E, H, D>>))
                  @@ ("bq" :> Ten(<<D, H>>, s + 8)) @@ ("bk" :> Ten(<<D, H>>, s + 9)) @@ ("bv" :> Ten(<<D, H>>, s + 10)) @@ ("bo" :> Ten(<<E>>, s + 11))
                  @@ [n \in {"gbq", "gbk", "gbv"} |-> Zero(<<D, H>>)] @@ ("gbo" :> Zero(<<E>>))
                  @@ ("mask" :> Causal(L)) @@ ("y" :> Zero(<<E, L, B>>)) @@ ("gy" :> Ten(<<E, L, B>>, s + 3))
             r == [xq |-> "xq", xk |-> X("xk"), xv |-> X("xv"), wq |-> "wq", wk |-> "wk", wv |-> "wv", w |-> "w", bq |-> Q("bq"), bk |-> Q("bk"), bv |-> Q("bv"),
                   bo |-> Q("bo"), mask |-> IF mask THEN "mask" ELSE "", y |-> "y", gy |-> "gy", gxq |-> "gxq", gxk |-> G("gxk"), gxv |-> G("gxv"),
                   gwq |-> "gwq", gwk |-> "gwk", gwv |-> "gwv", gw |-> "gw", gbq |-> Q("gbq"), gbk |-> Q("gbk"), gbv |-> Q("gbv"), gbo |-> Q("gbo")]
         IN  [M |-> M, f |-> r @@ ("op" :> "mha_fwd"), b |-> r @@ ("op" :> "mha_bwd"),
              g |-> <<<<"xq", "gxq">>, <<"wq", "gwq">>, <<"wk", "gwk">>, <<"wv", "gwv">>, <<"w", "gw">>>>
                    \o (IF self THEN <<>> ELSE <<<<"xk", "gxk">>, <<"xv", "gxv">>>>)
                    \o (IF bias THEN <<<<"bq", "gbq">>, <<"bk", "gbk">>, <<"bv", "gbv">>, <<"bo", "gbo">>>> ELSE <<>>)]
    [] k[1] = "flash" ->
         LET sh == <<2, 3, 1, 1>>
             M == ("q" :> Ten(sh, s)) @@ ("k" :> Ten(sh, s + 1)) @@ ("v" :> Ten(sh, s + 2)) @@ ("y" :> Zero(sh)) @@ ("gy" :> Ten(sh, s + 3))
                  @@ ("s" :> Zero(<<2, 3, 1, 1>>)) @@ ("mask" :> Causal(3)) @@ [n \in {"gq", "gk", "gv"} |-> Zero(sh)]
             r == [q |-> "q", k |-> "k", v |-> "v", mask |-> "mask", s |-> "s", y |-> "y", gy |-> "gy", gq |-> "gq", gk |-> "gk", gv |-> "gv"]
             st == [[r EXCEPT !.y = "s"] EXCEPT !.s = "s"] @@ ("op" :> "flash_maxsumexp")
             clr == [op |-> "clear_all", ts |-> <<"s">>]
         IN  [M |-> M, f |-> [op |-> "seq", ops |-> <<clr, st, r @@ ("op" :> "flash_softmax_gemm")>>],
              b |-> [op |-> "seq", ops |-> <<clr, st, r @@ ("op" :> "flash_backward")>>],
              g |-> <<<<"q", "gq">>, <<"k", "gk">>, <<"v", "gv">>>>]
    [] k[1] = "frob" ->
         LET M == ("x" :> Ten(<<4>>, s)) @@ ("t" :> Ten(<<4>>, s + 1)) @@ ("y" :> Zero(<<1>>)) @@ ("gx" :> Zero(<<4>>))
                  @@ ("gy" :> [Zero(<<1>>) EXCEPT !.val = <<One>>])
             r == [op |-> "frob", x |-> "x", t |-> "t", val |-> "y", gx |-> "gx"]
         IN  [M |-> M, f |-> r, b |-> r, g |-> <<<<"x", "gx">>>>]
    [] k[1] = "cross" ->
         LET M == ("x" :> Ten(<<3, 2>>, s)) @@ ("t" :> Lab(<<2>>, s + 1, 3)) @@ ("y" :> Zero(<<1>>)) @@ ("gx" :> Zero(<<3, 2>>))
                  @@ ("gy" :> [Zero(<<1>>) EXCEPT !.val = <<One>>])
             r == [op |-> "crossentropy", x |-> "x", t |-> "t", val |-> "y", gx |-> "gx", scale |-> k[2]]
         IN  [M |-> M, f |-> r, b |-> r, g |-> <<<<"x", "gx">>>>]
    \* a chain: embedding of a linear layer, activation, normalisation, residual sum
    [] k[1] = "chain" ->
         LET sh == <<2, 3>>
             M == ("x" :> Ten(sh, s)) @@ ("w" :> Ten(<<2, 2>>, s + 1)) @@ ("h" :> Zero(sh)) @@ ("u" :> Zero(sh)) @@ ("n" :> Zero(sh)) @@ ("y" :> Zero(sh))
                  @@ ("g" :> OffTen(<<2>>, s + 2)) @@ ("be" :> Ten(<<2>>, s + 4)) @@ ("gy" :> Ten(sh, s + 3))
                  @@ [n \in {"gx", "gh", "gu", "gn"} |-> Zero(sh)] @@ ("gw" :> Zero(<<2, 2>>)) @@ ("gg" :> Zero(<<2>>)) @@ ("gbe" :> Zero(<<2>>))
             L == [x |-> "x", w |-> "w", b |-> "", y |-> "h", side |-> "R", ta |-> FALSE, nd |-> 1, gy |-> "gh", gx |-> "gx", gw |-> "gw", gb |-> ""]
             A == [f |-> "gelu", x |-> "h", y |-> "u", gy |-> "gu", gx |-> "gh"]
             N == [x |-> "u", g |-> "g", be |-> "be", y |-> "n", gy |-> "gn", gx |-> "gu", gg |-> "gg", gbe |-> "gbe", axis |-> 0, eps |-> One]
             R == [x |-> "n", x2 |-> "x", y |-> "y", gy |-> "gy", gx |-> "gn", gx2 |-> "gx"]
         IN  [M |-> M, f |-> [op |-> "seq", ops |-> <<L @@ ("op" :> "linear_fwd"), A @@ ("op" :> "act_fwd"), N @@ ("op" :> "ln_fwd"), R @@ ("op" :> "sum_fwd")>>],
              b |-> [op |-> "seq", ops |-> <<L @@ ("op" :> "linear_fwd"), A @@ ("op" :> "act_fwd"), N @@ ("op" :> "ln_fwd"), R @@ ("op" :> "sum_bwd"), N @@ ("op" :> "ln_bwd"), A @@ ("op" :> "act_bwd"), L @@ ("op" :> "linear_bwd")>>],
              g |-> <<<<"x", "gx">>, <<"w", "gw">>, <<"g", "gg">>, <<"be", "gbe">>>>]

B2 == {FALSE, TRUE}
Every == {<<"linear", a, b, d>> : a \in {"L", "R"}, b \in B2, d \in B2} \cup {<<"act", f>> : f \in {"relu", "gelu", "gelutanh"}}
         \cup {<<"sum", b>> : b \in B2} \cup {<<"addslice", i>> : i \in 0..2} \cup {<<"embed", i>> : i \in 0..2} \cup {<<"gap">>, <<"flash">>, <<"frob">>, <<"chain">>}
         \cup {<<"ln", i>> : i \in 0..2} \cup {<<"mha", a, b, d>> : a \in B2, b \in B2, d \in B2} \cup {<<"cross", One>>, <<"cross", S \div 2>>}
Init == c \in {k \in Every : k[1] \in Kinds} /\ seed \in Seeds
Next == UNCHANGED <<c, seed>>
Spec == Init /\ [][Next]_<<c, seed>>

Step == S \div 16
Dot(u, v) == FSum([i \in 1..Len(u) |-> FMul(u[i], v[i])])
Gradients ==
  LET k == TLCEval(Case(c, seed * 100))  M == k.M
      val(N) == Dot(Apply(N, k.f)["y"].val, M["gy"].val)
      G == TLCEval(Apply(M, k.b))
      Moved(n, p, h) == [M EXCEPT ![n].val[p] = @ + h]
      Diff(n, p) == (val(Moved(n, p, Step)) - val(Moved(n, p, -Step))) * (S \div (2 * Step))
  IN  \A j \in 1..Len(k.g) :
        LET n == k.g[j][1]
        IN  \A p \in 1..Len(M[n].val) : Close(G[k.g[j][2]].val[p], Diff(n, p), 400, 7)
\* what is not listed as required stays as it is
Frame ==
  LET k == TLCEval(Case(c, seed * 100))  M == k.M  G == TLCEval(Apply(M, k.b))
      grads == {k.g[j][2] : j \in 1..Len(k.g)}
  IN  c[1] \in {"flash", "frob", "cross", "chain"} \/ \A n \in (DOMAIN M) \ grads : G[n] = M[n]
=============================================================================
