------------------------------- MODULE ProgGen -------------------------------
(***************************************************************************)
(* Generator of programs: behaviours of NNTile over a fixed family of      *)
(* tensors, with the values abstracted to a bound on their magnitude and   *)
(* precision (so that fixed-point expectations stay exact).  TLC simulates *)
(* it; every behaviour is replayed into the implementation (drivers/       *)
(* replay.py), and the recorded history is validated against NNTile.       *)
(***************************************************************************)
EXTENDS Dense, Json

CONSTANTS Depth, MaxExt

VARIABLES ten,      \* name -> [shape, tile, dt]
          mg,       \* name -> [m, f, x, e]: |v| < 2^m, multiple of 2^-f, inexact
            \* with an error below 2^e units
          cls,      \* number of distinct labels
          log, n, done
vars == <<ten, mg, cls, log, n, done>>

Full == {"X1", "X2", "X3"}
Slices == {"S1", "S2"}
Mats == {"A1", "B1", "C1", "C2"}
Scal == {"Z1", "Z2"}
Reals == Full \cup Slices \cup Mats \cup Scal \cup {"F1", "T1", "G1", "V1"}

R(shape, tile, d) == [shape |-> shape, tile |-> tile, dt |-> d, val |-> <<>>]
Divisors(k) == {d \in 1..k : k % d = 0}
Pick(s) == RandomElement(s)

Tensors(sh, ti, ax, k, vt) ==
  [f \in Full |-> R(sh, ti, "f")]
  @@ [f \in Slices |-> R(Without(sh, ax), Without(ti, ax), "f")]
  @@ ("F1" :> R(<<sh[ax + 1]>>, <<ti[ax + 1]>>, "f"))
  @@ ("M1" :> R(<<2>> \o Without(sh, ax), <<2>> \o Without(ti, ax), "f"))
  @@ ("T1" :> R(Sub(sh, k + 1, 3) \o Sub(sh, 1, k), Sub(ti, k + 1, 3) \o Sub(ti, 1, k), "f"))
  @@ ("G1" :> R(sh, sh, "f"))
  @@ ("A1" :> R(<<sh[1], sh[2]>>, <<ti[1], ti[2]>>, "f"))
  @@ ("B1" :> R(<<sh[2], sh[3]>>, <<ti[2], ti[3]>>, "f"))
  @@ [f \in {"C1", "C2"} |-> R(<<sh[1], sh[3]>>, <<ti[1], ti[3]>>, "f")]
  @@ [f \in Scal |-> R(<<>>, <<>>, "f")]
  @@ ("V1" :> R(<<sh[ax + 1], 3>>, <<vt, 3>>, "f"))
  @@ ("N1" :> R([i \in 1..3 |-> CeilDiv(sh[i], ti[i])], <<1, 1, 1>>, "f"))
  @@ ("I1" :> R(Without(sh, ax), Without(ti, ax), "i"))
  @@ ("K1" :> R(Sub(sh, 1, 2), Sub(ti, 1, 2), "b"))

Fresh == [m |-> 2, f |-> 2, x |-> FALSE, e |-> 0]
Zero == [m |-> 0, f |-> 0, x |-> FALSE, e |-> 0]

CF == {S, -S, Half, 2 * S}
CB == CF \cup {0}
CM(c) == IF c = 2 * S THEN 1 ELSE 0
CFr(c) == IF c = Half THEN 1 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
\* bounds of c*x, x + y, x * y, sum of up to 2^k terms
Sc(c, u) == IF c = 0 THEN Zero ELSE [m |-> u.m + CM(c), f |-> u.f + CFr(c), x |-> u.x, e |-> u.e + CM(c)]
Ad(u, v) == [m |-> Max2(u.m, v.m) + 1, f |-> Max2(u.f, v.f), x |-> u.x \/ v.x, e |-> Max2(u.e, v.e) + (IF u.x /\ v.x THEN 1 ELSE 0)]
Mu(u, v) == [m |-> u.m + v.m, f |-> u.f + v.f, x |-> u.x \/ v.x, e |-> 0]
Su(u, k) == [u EXCEPT !.m = @ + k, !.e = IF u.x THEN @ + k ELSE 0]
Inex(mm) == [m |-> mm, f |-> 16, x |-> TRUE, e |-> 3]
Fine(u) == u.m <= 9 /\ (u.x \/ u.f <= 12) /\ u.e <= 6
ExactIn(f) == ~mg[f].x

Init == /\ ten = <<>> /\ mg = <<>> /\ cls = 1 /\ log = <<>> /\ n = 0 /\ done = FALSE
Setup ==
  /\ n = 0
  /\ \E sh \in {TLCEval([i \in 1..3 |-> Pick(1..MaxExt)])} :
     \E ax \in {(IF Pick(BOOLEAN) THEN 0 ELSE Pick(1..2))}, k \in {Pick(1..2)}, one \in {Pick(BOOLEAN)} :
     \E ti \in {TLCEval([i \in 1..3 |-> IF one /\ i = ax + 1 THEN sh[i] ELSE Pick(1..sh[i])])} :
     \E vt \in {Pick(Divisors(ti[ax + 1]))} :
         /\ ten' = Tensors(sh, ti, ax, k, vt)
         /\ cls' = IF Without(sh, ax) = Tail(sh) /\ sh[1] < 3 THEN sh[1] ELSE 3   \* labels are classes in range
  /\ mg' = [f \in Reals \cup {"M1"} |-> IF f = "M1" THEN Inex(3) ELSE Fresh]
  /\ n' = 1 /\ UNCHANGED <<log, done>>

\* one request: recorded, and the bounds of the tensors it assigns updated
Do(a, d, u) == /\ Valid(ten, a) /\ Fine(u)
               /\ mg' = [mg EXCEPT ![d] = u]
               /\ log' = Append(log, [k |-> "op", a |-> a])
               /\ n' = n + 1 /\ UNCHANGED <<ten, cls, done>>
Ok == n > 0 /\ n < Depth

Fill == Ok /\ \E x \in Reals : LET c == Pick(CB) IN Do([op |-> "fill", x |-> x, alpha |-> c], x, Sc(c, Zero))
Clear == Ok /\ \E x \in Reals : Do([op |-> "clear", x |-> x], x, Zero)
Relu1 == Ok /\ \E x \in Reals : ExactIn(x) /\ Do([op |-> "relu", x |-> x], x, mg[x])
DRelu1 == Ok /\ \E x \in Reals : ExactIn(x) /\ Do([op |-> "drelu", x |-> x], x, Zero)
ScalIn == Ok /\ \E x \in Reals : LET c == Pick(CF) IN Do([op |-> "scal_inplace", x |-> x, alpha |-> c], x, Sc(c, mg[x]))
AddScalar == Ok /\ \E x \in Reals : LET c == Pick(CF)  b == Pick(CF)
                 IN  Do([op |-> "add_scalar", x |-> x, alpha |-> c, beta |-> b], x, Ad(Sc(c, Zero), Sc(b, mg[x])))
Add == Ok /\ \E x, y \in Reals : LET c == Pick(CB)  b == Pick(CB) IN x # y /\
         Do([op |-> "add", x |-> x, y |-> y, alpha |-> c, beta |-> b], y, Ad(Sc(c, mg[x]), Sc(b, mg[y])))
Axpy == Ok /\ \E x, y \in Reals : LET c == Pick(CF) IN x # y /\
         Do([op |-> "axpy", x |-> x, y |-> y, alpha |-> c], y, Ad(Sc(c, mg[x]), mg[y]))
AxpyT == Ok /\ \E z \in Scal, x, y \in Reals \ Scal : x # y /\ ExactIn(x) /\ ExactIn(z) /\
         Do([op |-> "axpy_t", a |-> z, x |-> x, y |-> y], y, Ad(Mu(mg[z], mg[x]), mg[y]))
Scal1 == Ok /\ \E x, y \in Reals : LET c == Pick(CF) IN x # y /\
         Do([op |-> "scal", x |-> x, y |-> y, alpha |-> c], y, Sc(c, mg[x]))
Prod1 == Ok /\ \E x, y \in Reals : x # y /\ ExactIn(x) /\ ExactIn(y) /\
         Do([op |-> "prod", x |-> x, y |-> y], y, Mu(mg[x], mg[y]))
Maximum == Ok /\ \E x, y \in Reals : x # y /\ Do([op |-> "maximum", x |-> x, y |-> y], y, [Ad(mg[x], mg[y]) EXCEPT !.m = @ - 1])
Copy1 == Ok /\ \E x, y \in Reals : x # y /\ Do([op |-> "copy", x |-> x, y |-> y], y, mg[x])
ReluFwd == Ok /\ \E x, y \in Reals : x # y /\ ExactIn(x) /\ Do([op |-> "relu_forward", x |-> x, y |-> y], y, mg[x])
ReluBwd == Ok /\ \E x, y, z \in Full : Cardinality({x, y, z}) = 3 /\ ExactIn(x) /\
         Do([op |-> "relu_backward", x |-> x, dy |-> y, dx |-> z], z, Ad(mg[y], mg[z]))
GeluBwd == Ok /\ \E x, y, z \in Full : Cardinality({x, y, z}) = 3 /\ ExactIn(x) /\ mg[x].m <= 3 /\ ExactIn(y) /\
         Do([op |-> "gelutanh_backward", x |-> x, dy |-> y, dx |-> z], z, [Ad(Sc(2 * S, mg[y]), mg[z]) EXCEPT !.x = TRUE, !.e = Max2(@, 3 + mg[y].m)])
Hypot1 == Ok /\ \E x, y \in Full \cup Slices : x # y /\ ExactIn(x) /\ ExactIn(y) /\ mg[x].m <= 4 /\ mg[y].m <= 4 /\
         Do([op |-> "hypot", x |-> x, y |-> y, alpha |-> S, beta |-> S], y, Inex(5))
Gelu1 == Ok /\ \E x \in Full : ExactIn(x) /\ mg[x].m <= 3 /\ Do([op |-> "gelutanh_inplace", x |-> x], x, Inex(mg[x].m))
Axes == 0..2
AddSlice == Ok /\ \E s \in Slices, y \in Full, ax \in Axes : LET c == Pick(CB)  b == Pick(CB) IN
         Do([op |-> "add_slice", s |-> s, y |-> y, axis |-> ax, alpha |-> c, beta |-> b], y, Ad(Sc(c, mg[s]), Sc(b, mg[y])))
AddSlice3 == Ok /\ \E s \in Slices, x, y \in Full, ax \in Axes : LET c == Pick(CB)  b == Pick(CB) IN x # y /\
         Do([op |-> "add_slice3", s |-> s, x |-> x, y |-> y, axis |-> ax, alpha |-> c, beta |-> b], y, Ad(Sc(c, mg[s]), Sc(b, mg[x])))
ProdSlice == Ok /\ \E s \in Slices, y \in Full, ax \in Axes : LET c == Pick(CF) IN ExactIn(s) /\ ExactIn(y) /\
         Do([op |-> "prod_slice", s |-> s, y |-> y, axis |-> ax, alpha |-> c], y, Sc(c, Mu(mg[s], mg[y])))
AddFiber == Ok /\ \E y \in Full, ax \in Axes : LET c == Pick(CB)  b == Pick(CB) IN
         Do([op |-> "add_fiber", s |-> "F1", y |-> y, axis |-> ax, batch |-> 0, alpha |-> c, beta |-> b], y, Ad(Sc(c, mg["F1"]), Sc(b, mg[y])))
ProdFiber == Ok /\ \E y \in Full, ax \in Axes : LET c == Pick(CF) IN ExactIn("F1") /\ ExactIn(y) /\
         Do([op |-> "prod_fiber", s |-> "F1", y |-> y, axis |-> ax, alpha |-> c], y, Sc(c, Mu(mg["F1"], mg[y])))
ProdFiber3 == Ok /\ \E x, y \in Full, ax \in Axes : LET c == Pick(CF) IN x # y /\ ExactIn("F1") /\ ExactIn(x) /\
         Do([op |-> "prod_fiber3", s |-> "F1", x |-> x, y |-> y, axis |-> ax, alpha |-> c], y, Sc(c, Mu(mg["F1"], mg[x])))
SumSlice == Ok /\ \E x \in Full, y \in Slices, ax \in Axes : LET c == Pick(CF)  b == Pick(CB) IN
         Do([op |-> "sum_slice", x |-> x, y |-> y, axis |-> ax, alpha |-> c, beta |-> b], y, Ad(Su(Sc(c, mg[x]), 3), Sc(b, mg[y])))
SumFiber == Ok /\ \E x \in Full, ax \in Axes : LET c == Pick(CF)  b == Pick(CB) IN
         Do([op |-> "sum_fiber", x |-> x, y |-> "F1", axis |-> ax, batch |-> 0, alpha |-> c, beta |-> b], "F1", Ad(Su(Sc(c, mg[x]), 5), Sc(b, mg["F1"])))
SumprodSlice == Ok /\ \E x, x2 \in Full, y \in Slices, ax \in Axes : LET c == Pick(CF)  b == Pick(CB) IN ExactIn(x) /\ ExactIn(x2) /\
         Do([op |-> "sumprod_slice", x |-> x, x2 |-> x2, y |-> y, axis |-> ax, alpha |-> c, beta |-> b], y, Ad(Su(Sc(c, Mu(mg[x], mg[x2])), 3), Sc(b, mg[y])))
SumprodFiber == Ok /\ \E x, x2 \in Full, ax \in Axes : LET c == Pick(CF)  b == Pick(CB) IN ExactIn(x) /\ ExactIn(x2) /\
         Do([op |-> "sumprod_fiber", x |-> x, x2 |-> x2, y |-> "F1", axis |-> ax, alpha |-> c, beta |-> b], "F1", Ad(Su(Sc(c, Mu(mg[x], mg[x2])), 5), Sc(b, mg["F1"])))
NormSlice == Ok /\ \E x \in Full, y \in Slices, ax \in Axes : LET b == Pick({0, S}) IN ExactIn(x) /\ mg[x].m <= 3 /\ mg[x].f <= 7 /\ mg[y].m <= 3 /\ ExactIn(y) /\
         Do([op |-> "norm_slice", x |-> x, y |-> y, axis |-> ax, alpha |-> S, beta |-> b], y, Inex(6))
Nrm2 == Ok /\ \E x \in Full, y \in Scal : LET b == Pick({0, S}) IN ExactIn(x) /\ mg[x].m <= 3 /\ mg[x].f <= 7 /\ ExactIn(y) /\ mg[y].m <= 3 /\
         Do([op |-> "nrm2", x |-> x, y |-> y, tmp |-> "N1", alpha |-> S, beta |-> b], y, Inex(6))
ClearM == Ok /\ Do([op |-> "clear", x |-> "M1"], "M1", Inex(3))
MaxSum == Ok /\ \E x \in Full, ax \in Axes : ExactIn(x) /\ mg[x].m <= 3 /\
         Do([op |-> "maxsumexp", x |-> x, y |-> "M1", axis |-> ax], "M1", Inex(3))
\* right after maxsumexp of the same tensor the argument of exp is bounded
SoftOf(m, a) == /\ Valid(ten, m) /\ Valid(ten, a) /\ mg' = [mg EXCEPT ![a.y] = Inex(0)]
                /\ log' = log \o <<[k |-> "op", a |-> m], [k |-> "op", a |-> a]>>
                /\ n' = n + 1 /\ UNCHANGED <<ten, cls, done>>
Softmax == Ok /\ \E x, y \in Full, ax \in Axes : ExactIn(x) /\ mg[x].m <= 3 /\ x # y /\
         SoftOf([op |-> "maxsumexp", x |-> x, y |-> "M1", axis |-> ax],
                [op |-> "softmax", s |-> "M1", x |-> x, y |-> y, axis |-> ax, alpha |-> S])
SoftmaxIn == Ok /\ \E y \in Full, ax \in Axes : ExactIn(y) /\ mg[y].m <= 3 /\
         SoftOf([op |-> "maxsumexp", x |-> y, y |-> "M1", axis |-> ax],
                [op |-> "softmax_inplace", s |-> "M1", y |-> y, axis |-> ax, alpha |-> S])
LogSum == Ok /\ \E x \in Full, y \in Slices, ax \in Axes : ExactIn(x) /\ mg[x].m <= 3 /\
         SoftOf([op |-> "maxsumexp", x |-> x, y |-> "M1", axis |-> ax], [op |-> "logsumexp", x |-> "M1", y |-> y])
Gemm == Ok /\ \E u, v, w \in Mats, ta, tb \in BOOLEAN : LET c == Pick(CF)  b == Pick(CB) IN
         w \notin {u, v} /\ ExactIn(u) /\ ExactIn(v) /\
         Do([op |-> "gemm", a |-> u, b |-> v, c |-> w, ta |-> ta, tb |-> tb, ndim |-> 1, batch |-> 0, alpha |-> c, beta |-> b],
            w, Ad(Su(Sc(c, Mu(mg[u], mg[v])), 3), Sc(b, mg[w])))
GemmFull == Ok /\ \E x, x2 \in Full, w \in Mats, ta \in BOOLEAN : LET c == Pick(CF)  b == Pick(CB) IN ExactIn(x) /\ ExactIn(x2) /\
         Do([op |-> "gemm", a |-> x, b |-> w, c |-> x2, ta |-> ta, tb |-> FALSE, ndim |-> 1, batch |-> 0, alpha |-> c, beta |-> b],
            x2, Ad(Su(Sc(c, Mu(mg[x], mg[w])), 3), Sc(b, mg[x2]))) /\ x # x2 /\ ExactIn(w)
Transp == Ok /\ \E x, y \in Full \cup Mats \cup {"T1"}, k \in 1..2 : LET c == Pick(CF) IN x # y /\
         Do([op |-> "transpose", x |-> x, y |-> y, ndim |-> k, alpha |-> c], y, Sc(c, mg[x]))
Gather == Ok /\ \E x \in Full : Do([op |-> "gather", x |-> x, y |-> "G1"], "G1", mg[x])
Scatter == Ok /\ \E y \in Full : Do([op |-> "scatter", x |-> "G1", y |-> y], y, mg["G1"])
CopyInt == Ok /\ \E x, y \in Full \cup {"G1"} : x # y /\
         Do([op |-> "copy_intersection", x |-> x, y |-> y, xo |-> TLCEval([i \in 1..3 |-> Pick(0..2)]), yo |-> TLCEval([i \in 1..3 |-> Pick(0..2)])],
            y, [Ad(mg[x], mg[y]) EXCEPT !.m = @ - 1])
Mask == Ok /\ \E y \in Full : Do([op |-> "mask_scalar", mask |-> "K1", y |-> y, alpha |-> Pick({0, S}), batch |-> 1], y, mg[y])
Embed == Ok /\ \E e \in Full, ax \in Axes : Do([op |-> "embedding", i |-> "I1", v |-> "V1", e |-> e, axis |-> ax], e, mg["V1"])
EmbedB == Ok /\ \E e \in Full, ax \in Axes :
         Do([op |-> "embedding_backward", i |-> "I1", v |-> "V1", e |-> e, axis |-> ax], "V1", Ad(Su(mg[e], 5), mg["V1"]))
SubIdx == Ok /\ \E y \in Full : Do([op |-> "subtract_indexed_outputs", i |-> "I1", y |-> y, alpha |-> S], y, Ad(mg[y], Zero))
TotSum == Ok /\ \E s \in Slices, x \in Full, y \in Scal : LET c == Pick(CF) IN
         Do([op |-> "total_sum_accum", i |-> "I1", s |-> s, x |-> x, y |-> y, alpha |-> c], y, Ad(Su(Sc(c, Ad(mg[s], mg[x])), 5), mg[y]))
\* the application looks at a tensor, waits, or gives the runtime some time
Look == Ok /\ \E x \in Reals \cup {"M1"} : log' = Append(log, [k |-> "chk", t |-> x]) /\ n' = n + 1 /\ UNCHANGED <<ten, mg, cls, done>>
Wait == Ok /\ log' = Append(log, [k |-> "wait"]) /\ n' = n + 1 /\ UNCHANGED <<ten, mg, cls, done>>
Write == Ok /\ \E x \in Reals : log' = Append(log, [k |-> "set", t |-> x])
            /\ mg' = [mg EXCEPT ![x] = Fresh] /\ n' = n + 1 /\ UNCHANGED <<ten, cls, done>>
Finish == n = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<ten, mg, cls, log, n>>

Next == \/ Setup \/ Finish \/ Fill \/ Clear \/ Relu1 \/ DRelu1 \/ ScalIn \/ AddScalar \/ Add \/ Axpy \/ AxpyT \/ Scal1
        \/ Prod1 \/ Maximum \/ Copy1 \/ ReluFwd \/ ReluBwd \/ GeluBwd \/ Hypot1 \/ Gelu1 \/ AddSlice \/ AddSlice3
        \/ ProdSlice \/ AddFiber \/ ProdFiber \/ ProdFiber3 \/ SumSlice \/ SumFiber \/ SumprodSlice \/ SumprodFiber
        \/ NormSlice \/ Nrm2 \/ MaxSum \/ ClearM \/ Softmax \/ SoftmaxIn \/ LogSum \/ Gemm \/ GemmFull \/ Transp \/ Gather \/ Scatter \/ CopyInt \/ Mask
        \/ Embed \/ EmbedB \/ SubIdx \/ TotSum \/ Look \/ Wait \/ Write
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(<<"BEH", ToJson([ten |-> [f \in DOMAIN ten |-> [sh |-> ten[f].shape, ti |-> ten[f].tile, dt |-> ten[f].dt]],
                                        cls |-> cls, log |-> log])>>)
=============================================================================
