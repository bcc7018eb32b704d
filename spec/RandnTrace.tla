------------------------------ MODULE RandnTrace ------------------------------
(***************************************************************************)
(* Random normal tensors.  The specification is a virtual tensor of        *)
(* standard normal numbers Z[seed][position], which is unknown but fixed.  *)
(* The first generation of a seed covers the whole virtual tensor and      *)
(* reveals Z; every later window, with any tiling, mean, deviation, element*)
(* order or interface, must show mean + dev * Z, and bit for bit the same  *)
(* numbers when mean and deviation are those of the first generation.      *)
(* A "far" case has a virtual tensor too large to be generated: there every*)
(* standard window reveals its part of Z, which is then a partial function *)
(* of the index.                                                           *)
(***************************************************************************)
EXTENDS FixMath, Tiling, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
VARIABLES l, far, und, z, raw  \* z, raw: seed number -> sequence over the virtual tensor, or (far) index -> number

Valid(e) ==
  /\ Len(e.start) = Len(e.sh) /\ Len(e.und) = Len(e.sh)
  /\ \A i \in 1..Len(e.sh) : e.start[i] >= 0 /\ e.start[i] + e.sh[i] <= e.und[i]
\* position in the virtual tensor of element p of a window
Pos(e, p) == LET ix == UnravelIx(p, e.sh)
             IN  RavelIx([i \in 1..Len(ix) |-> ix[i] + e.start[i]], und) + 1
\* index in the virtual tensor of element p (from 0) of a window
At(e, p) == LET ix == UnravelIx(p, e.sh) IN [i \in 1..Len(ix) |-> ix[i] + e.start[i]]
Scaled(e, x) == FAdd(e.mean, FMul(e.dev, x))
Shows(e) ==
  /\ Len(e.v) = Prod(e.sh)
  /\ e.s \in DOMAIN z =>
       \A p \in 1..Len(e.v) :
         LET q == IF far THEN At(e, p - 1) ELSE Pos(e, p - 1)
         IN  q \in DOMAIN z[e.s] =>
             /\ Close(e.v[p], Scaled(e, z[e.s][q]), 3 + Abs(e.dev) \div S, 20)
             /\ (e.mean = 0 /\ e.dev = One) => e.r[p] = raw[e.s][q]
Standard(e) == e.mean = 0 /\ e.dev = One
\* what a window of a far case adds to Z
Part(e, v) == LET n == Len(v)
              IN  [k \in {At(e, p - 1) : p \in 1..n} |->
                     v[RavelIx([i \in 1..Len(k) |-> k[i] - e.start[i]], e.sh) + 1]]
Distinct(q) == Cardinality({q[i] : i \in DOMAIN q})
Size(q) == Cardinality(DOMAIN q)
\* numbers of one virtual tensor differ from one another, and so do the tensors of two seeds
Random ==
  /\ \A s \in DOMAIN z : Size(z[s]) >= 8 => 2 * Distinct(raw[s]) > Size(raw[s])
  /\ far => \A s \in DOMAIN z : 8 * Distinct(raw[s]) > 7 * Size(raw[s])
  /\ \A s, t \in DOMAIN z : s # t /\ Size(z[s]) >= 8 =>
       2 * Cardinality({i \in DOMAIN z[s] \cap DOMAIN z[t] : raw[s][i] = raw[t][i]}) < Size(z[s])
\* sample mean and mean square of n standard normal numbers, with wide margins
RECURSIVE SumTo(_, _)
SumTo(q, i) == IF i = 0 THEN 0 ELSE SumTo(q, i - 1) + q[i] \div 256
RECURSIVE SqTo(_, _)
SqTo(q, i) == IF i = 0 THEN 0 ELSE SqTo(q, i - 1) + (((q[i] \div 256) * (q[i] \div 256)) \div 256)
ISq(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
Normal(q) == LET n == Len(q)  d == ISq(n) + 1
             IN  n < 30 \/ /\ Abs(SumTo(q, n)) <= 7 * 256 * d
                           /\ Abs(SqTo(q, n) - 256 * n) <= 14 * 256 * d
Guard(e) ==
  CASE e.k = "gen" -> IF Valid(e) THEN e.res = "ok" /\ (e.shown => Shows(e)) ELSE e.res = "err"
    [] e.k = "end" -> /\ Random
                      /\ \A s \in DOMAIN z : \A i \in DOMAIN z[s] : IsNum(z[s][i])
                      \* the generator starts at the seed itself, so small seeds give an outlier first
                      /\ \A i \in 1..Len(e.large) : Normal(z[e.large[i]])
    [] OTHER -> e.k = "case"
Reveals(e) == e.k = "gen" /\ e.res = "ok" /\ e.shown /\ (IF far THEN Standard(e) ELSE e.s \notin DOMAIN z)
Known(f, s) == IF s \in DOMAIN f THEN f[s] ELSE <<>>
With(f, e, v) == IF far THEN (e.s :> (Part(e, v) @@ Known(f, e.s))) @@ f ELSE (e.s :> v) @@ f
Init == l = 1 /\ far = FALSE /\ und = <<>> /\ z = <<>> /\ raw = <<>>
RECURSIVE NextCase(_)
NextCase(i) == IF i > N THEN N + 1 ELSE IF Log[i].k = "case" THEN i ELSE NextCase(i + 1)
Next ==
  /\ l <= N
  /\ LET e == Log[l]
     IN  IF Guard(e)
         THEN /\ l' = l + 1
              /\ und' = IF e.k = "case" THEN e.und ELSE und
              /\ far' = IF e.k = "case" THEN e.far ELSE far
              /\ z' = IF e.k = "case" THEN <<>> ELSE IF Reveals(e) THEN With(z, e, e.v) ELSE z
              /\ raw' = IF e.k = "case" THEN <<>> ELSE IF Reveals(e) THEN With(raw, e, e.r) ELSE raw
         ELSE /\ PrintT(<<"TRACE-REJECTED", l, ToJson([valid |-> IF e.k = "gen" THEN Valid(e) ELSE FALSE])>>)
              /\ l' = NextCase(l + 1) /\ far' = FALSE /\ und' = <<>> /\ z' = <<>> /\ raw' = <<>>
Spec == Init /\ [][Next]_<<l, far, und, z, raw>>
View == l
Done == l = N + 1 => PrintT(<<"TRACE-DONE", N>>)
=============================================================================
