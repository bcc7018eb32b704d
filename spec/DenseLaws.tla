------------------------------ MODULE DenseLaws ------------------------------
(***************************************************************************)
(* Dense against itself: identities between operations that any correct    *)
(* definition has.  A state is a law, a shape with an axis, and a seed.    *)
(***************************************************************************)
EXTENDS Dense
CONSTANTS Seeds
VARIABLES law, sh, axis, seed

Rnd(s, i) == LET z == ((s * 7919 + i * 104729 + 12345) % 65521) IN ((z * 137 + (z \div 7) * 31) % 33) - 16
T(s, t) == [shape |-> s, tile |-> s, dt |-> "f", prec |-> 64, ex |-> FALSE, val |-> [i \in 1..ProdSeq(s) |-> Rnd(seed * 50 + t, i) * (S \div 8)]]
Z(s) == [T(s, 0) EXCEPT !.val = [i \in 1..ProdSeq(s) |-> 0]]
With(t, v) == [t EXCEPT !.val = v]
Times(t, f) == With(t, [i \in 1..Size(t) |-> FMul(f, t.val[i])])
Plus(t, u) == With(t, [i \in 1..Size(t) |-> FAdd(t.val[i], u.val[i])])
Do(M, a, f) == With(M[f], Writes(M, a)[f])
Dot(t, u) == FSum([i \in 1..Size(t) |-> FMul(t.val[i], u.val[i])])
Same(t, u) == t.shape = u.shape /\ AllClose(t.val, u.val, 24, 12)
Near(x, y) == Close(x, y, 24, 12)
n == Len(sh)
slice == Without(sh, axis)
pair == <<2>> \o slice
fiber == <<sh[axis + 1]>>

\* 2 f(operands) = f(2 operands)
Degree1 ==
  LET M == [x |-> T(sh, 1), y |-> T(sh, 2), s |-> T(slice, 3), f |-> T(fiber, 4), e |-> T(<<>>, 5)]
      D == [g \in DOMAIN M |-> Times(M[g], 2 * S)]
      ab == [alpha |-> S \div 2, beta |-> -S]
      Q == {ab @@ [op |-> "add", x |-> "x", y |-> "y"], ab @@ [op |-> "hypot", x |-> "x", y |-> "y"], [op |-> "maximum", x |-> "x", y |-> "y"],
            ab @@ [op |-> "scal", x |-> "x", y |-> "y"], [op |-> "relu_forward", x |-> "x", y |-> "y"],
            ab @@ [op |-> "add_slice", s |-> "s", y |-> "y", axis |-> axis], ab @@ [op |-> "add_fiber", s |-> "f", y |-> "y", axis |-> axis, batch |-> 0]}
      P == {ab @@ [op |-> "sum_slice", x |-> "x", y |-> "s", axis |-> axis], ab @@ [op |-> "norm_slice", x |-> "x", y |-> "s", axis |-> axis]}
      R == ab @@ [op |-> "sum_fiber", x |-> "x", y |-> "f", axis |-> axis, batch |-> 0]
  IN  /\ \A a \in Q : Same(Do(D, a, "y"), Times(Do(M, a, "y"), 2 * S))
      /\ \A a \in P : Same(Do(D, a, "s"), Times(Do(M, a, "s"), 2 * S))
      /\ Same(Do(D, R, "f"), Times(Do(M, R, "f"), 2 * S))
\* broadcasts and sums, lookups and their backward, are adjoint
Adjoint ==
  LET M == [x |-> T(sh, 1), zx |-> Z(sh), s |-> T(slice, 3), zs |-> Z(slice), f |-> T(fiber, 4), zf |-> Z(fiber),
            i |-> With(T(slice, 6), [q \in 1..ProdSeq(slice) |-> Abs(Rnd(seed, q)) % 3]), v |-> T(fiber \o <<3>>, 7), zv |-> Z(fiber \o <<3>>)]
      one == [alpha |-> One, beta |-> 0, axis |-> axis]
  IN  /\ Near(Dot(Do(M, one @@ [op |-> "sum_slice", x |-> "x", y |-> "zs"], "zs"), M.s), Dot(M.x, Do(M, one @@ [op |-> "add_slice", s |-> "s", y |-> "zx"], "zx")))
      /\ Near(Dot(Do(M, one @@ [op |-> "sum_fiber", x |-> "x", y |-> "zf", batch |-> 0], "zf"), M.f), Dot(M.x, Do(M, one @@ [op |-> "add_fiber", s |-> "f", y |-> "zx", batch |-> 0], "zx")))
      /\ Near(Dot(Do(M, [op |-> "embedding", i |-> "i", v |-> "v", e |-> "zx", axis |-> axis], "zx"), M.x),
              Dot(M.v, Do(M, [op |-> "embedding_backward", i |-> "i", v |-> "zv", e |-> "x", axis |-> axis], "zv")))
\* special cases of one another
Between ==
  LET M == [x |-> T(sh, 1), x2 |-> T(sh, 2), o |-> With(T(sh, 1), [q \in 1..ProdSeq(sh) |-> One]), zs |-> Z(slice), zf |-> Z(fiber), z2 |-> Z(pair), zt |-> Z(<<>>), tmp |-> Z(sh)]
      one == [alpha |-> One, beta |-> 0, axis |-> axis]
      sum(f) == Do(M, one @@ [op |-> "sum_slice", x |-> f, y |-> "zs"], "zs")
      sn == Do(M, [op |-> "sumnorm", x |-> "x", y |-> "z2", axis |-> axis], "z2")
      nr == Do(M, one @@ [op |-> "norm_slice", x |-> "x", y |-> "zs"], "zs")
  IN  /\ Same(sum("x"), Do(M, one @@ [op |-> "sumprod_slice", x |-> "x", x2 |-> "o", y |-> "zs"], "zs"))
      /\ Same(Do(M, one @@ [op |-> "sum_fiber", x |-> "x", y |-> "zf", batch |-> 0], "zf"), Do(M, one @@ [op |-> "sumprod_fiber", x |-> "o", x2 |-> "x", y |-> "zf"], "zf"))
      /\ Same(With(sum("x"), [q \in 1..ProdSeq(slice) |-> sn.val[2 * q - 1]]), sum("x"))
      /\ Same(With(nr, [q \in 1..ProdSeq(slice) |-> sn.val[2 * q]]), nr)
      /\ Near(FSum(sum("x").val), FSum(Do(M, one @@ [op |-> "sum_fiber", x |-> "x", y |-> "zf", batch |-> 0], "zf").val))
      \* the norm of the norms of the slices is the norm
      /\ Near(Do(M @@ ("nr" :> nr), [op |-> "nrm2", x |-> "nr", y |-> "zt", tmp |-> "zs", alpha |-> One, beta |-> 0], "zt").val[1],
              Do(M, [op |-> "nrm2", x |-> "x", y |-> "zt", tmp |-> "tmp", alpha |-> One, beta |-> 0], "zt").val[1])
\* probabilities
Soft ==
  LET M == [x |-> T(sh, 1), up |-> Plus(T(sh, 1), With(T(sh, 1), [q \in 1..ProdSeq(sh) |-> 7 * S])), z |-> Z(pair), y |-> Z(sh), zs |-> Z(slice)]
      st == Do(M, [op |-> "maxsumexp", x |-> "x", y |-> "z", axis |-> axis], "z")
      N == [M EXCEPT !.z = st]
      p == Do(N, [op |-> "softmax", x |-> "x", s |-> "z", y |-> "y", axis |-> axis, alpha |-> One], "y")
      su == Do(M, [op |-> "maxsumexp", x |-> "up", y |-> "z", axis |-> axis], "z")
      pu == Do([M EXCEPT !.z = su], [op |-> "softmax", x |-> "up", s |-> "z", y |-> "y", axis |-> axis, alpha |-> One], "y")
      tot == Do([N EXCEPT !.y = p], [op |-> "sum_slice", x |-> "y", y |-> "zs", axis |-> axis, alpha |-> One, beta |-> 0], "zs")
      l(w) == Do([M EXCEPT !.z = w], [op |-> "logsumexp", x |-> "z", y |-> "zs"], "zs")
  IN  /\ \A q \in 1..Size(tot) : Near(tot.val[q], One)
      /\ \A q \in 1..Size(p) : p.val[q] >= 0 /\ p.val[q] <= One + 8
      /\ Same(p, pu)
      /\ Same(Plus(l(st), With(l(st), [q \in 1..Size(l(st)) |-> 7 * S])), l(su))
\* x normalised by its own sums and norms has mean b and mean square deviation g
Normal ==
  LET k == sh[axis + 1]
      M == [x |-> T(sh, 1), z |-> Z(pair), gb |-> With(Z(<<2>>), <<S \div 2, S>>), zs |-> Z(slice)]
      y == Do([M EXCEPT !.z = Do(M, [op |-> "sumnorm", x |-> "x", y |-> "z", axis |-> axis], "z")],
              [op |-> "normalize", gb |-> "gb", s |-> "z", y |-> "x", l |-> k, eps |-> 0, axis |-> axis], "x")
      N == [x |-> y, zs |-> Z(slice)]
      sum == Do(N, [op |-> "sum_slice", x |-> "x", y |-> "zs", axis |-> axis, alpha |-> One, beta |-> 0], "zs")
      m == Pre(sh, axis)
      flat(q) == \A i, j \in 1..k : Row(M.x.val, q, m, k)[i] = Row(M.x.val, q, m, k)[j]
      sq(q) == FSum([i \in 1..k |-> LET d == FSub(Row(y.val, q, m, k)[i], S) IN FMul(d, d)])
  IN  k < 2 \/ \A q \in 0..(Size(sum) - 1) : flat(q) \/ (Close(sum.val[q + 1], k * S, 300, 9) /\ Close(sq(q), k * (S \div 4), 600, 8))
\* matrices
Matrix ==
  LET A == T(<<2, 3>>, 1)  B == T(<<3, 2>>, 2)  E == T(<<2, 4>>, 3)
      M == [a |-> A, b |-> B, e |-> E, ab |-> Z(<<2, 2>>), ba |-> Z(<<2, 2>>), at |-> Z(<<3, 2>>), bt |-> Z(<<2, 3>>), ct |-> Z(<<2, 2>>), be |-> Z(<<3, 4>>), l |-> Z(<<2, 4>>), r |-> Z(<<2, 4>>)]
      g == [op |-> "gemm", alpha |-> One, beta |-> 0, ta |-> FALSE, tb |-> FALSE, ndim |-> 1, batch |-> 0]
      mul(N, x, y, z) == Do(N, g @@ [a |-> x, b |-> y, c |-> z], z)
      tr(N, x, z) == Do(N, [op |-> "transpose", x |-> x, y |-> z, ndim |-> 1, alpha |-> One], z)
      ab == mul(M, "a", "b", "ab")
      at == tr(M, "a", "at")  bt == tr(M, "b", "bt")
      N == [[M EXCEPT !.at = at] EXCEPT !.bt = bt]
  IN  \* (ab)' = b' a', by transposed operands and by flags; (ab) e = a (be)
      /\ Same(tr([M EXCEPT !.ab = ab], "ab", "ct"), mul(N, "bt", "at", "ba"))
      /\ Same(ab, Do(N, [[g EXCEPT !.ta = TRUE] EXCEPT !.tb = TRUE] @@ [a |-> "at", b |-> "bt", c |-> "ab"], "ab"))
      /\ AllClose(mul([M EXCEPT !.ab = ab], "ab", "e", "l").val, mul([M EXCEPT !.be = mul(M, "b", "e", "be")], "a", "be", "r").val, 60, 12)
      \* distributive, and the coefficients
      /\ Same(Do([M EXCEPT !.ab = ab], [[g EXCEPT !.alpha = 2 * S] EXCEPT !.beta = -S] @@ [a |-> "a", b |-> "b", c |-> "ab"], "ab"), ab)
Laws == {"Degree1", "Adjoint", "Between", "Soft", "Normal", "Matrix"}
Init == law \in Laws /\ sh \in {<<4>>, <<1>>, <<2, 3>>, <<3, 1>>, <<2, 3, 2>>, <<1, 4, 3>>} /\ axis \in 0..2 /\ axis < Len(sh) /\ seed \in Seeds /\ (law = "Matrix" => sh = <<4>>)
Next == UNCHANGED <<law, sh, axis, seed>>
Spec == Init /\ [][Next]_<<law, sh, axis, seed>>
Holds == CASE law = "Degree1" -> Degree1 [] law = "Adjoint" -> Adjoint [] law = "Between" -> Between
           [] law = "Soft" -> Soft [] law = "Normal" -> Normal [] law = "Matrix" -> Matrix
=============================================================================
