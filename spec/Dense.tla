-------------------------------- MODULE Dense --------------------------------
(***************************************************************************)
(* The denotational meaning of every NNTile tensor operation.              *)
(*                                                                         *)
(* A tensor is a record                                                    *)
(*   shape : sequence of extents (empty = 0 dimensions = one element)      *)
(*   tile  : sequence of tile extents                                      *)
(*   dt    : "f" real, "i" integer, "b" logical                            *)
(*   val   : sequence of elements in Fortran order                         *)
(*   ex    : TRUE while all values are exactly representable results       *)
(* An operation is a record a with field a.op and its arguments; tensors   *)
(* are named.  Rejects(M, a) says that the request is invalid in memory M, *)
(* Writes(M, a) gives the new values of the tensors it assigns.  Tilings   *)
(* appear in Rejects only: no result depends on them.                      *)
(***************************************************************************)
EXTENDS FixMath, Sequences, FiniteSets, TLC

\* content of memory nobody wrote; like an unrepresentable number, it may be anything
Undef == Big

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))
Sub(s, a, b) == SubSeq(s, a, b)
Vec(n, F(_)) == TLCEval([p \in 1..n |-> F(p - 1)])
CeilDiv(a, b) == (a + b - 1) \div b
Ndim(t) == Len(t.shape)
Size(t) == Len(t.val)
Grid(t) == [i \in 1..Len(t.shape) |-> CeilDiv(t.shape[i], t.tile[i])]
\* extents before, at, and after a 0-based axis
Pre(s, axis) == ProdSeq(Sub(s, 1, axis))
Post(s, axis) == ProdSeq(Sub(s, axis + 2, Len(s)))
Without(s, axis) == Sub(s, 1, axis) \o Sub(s, axis + 2, Len(s))

\* alpha*x + beta*y where a zero coefficient means the operand is not looked at
Lin(alpha, x, beta, y) ==
  IF beta = 0 THEN (IF alpha = 0 THEN 0 ELSE FMul(alpha, x))
  ELSE IF alpha = 0 THEN FMul(beta, y)
  ELSE FAdd(FMul(alpha, x), FMul(beta, y))
HypotLin(alpha, x, beta, y) ==
  IF beta = 0 THEN (IF alpha = 0 THEN 0 ELSE FAbs(FMul(alpha, x)))
  ELSE IF alpha = 0 THEN FAbs(FMul(beta, y))
  ELSE FHypot(FMul(alpha, x), FMul(beta, y))

Half == S \div 2
InvSqrt2 == 46341
InvSqrt2Pi == 26145
C0 == 52290               \* sqrt(2/pi)
C1 == 2930                \* 0.044715
C3 == 8791                \* 3 * 0.044715
Relu(x) == IF x > 0 THEN x ELSE 0
DRelu(x) == IF x > 0 THEN One ELSE 0
PhiN(x) == FMul(Half, FAdd(One, FErf(FMul(x, InvSqrt2))))
Gelu(x) == FMul(x, PhiN(x))
DGelu(x) == FAdd(PhiN(x), FMul(FMul(x, InvSqrt2Pi), FExp(FNeg(FMul(Half, FMul(x, x))))))
GTArg(x) == FMul(C0, FAdd(x, FMul(C1, FMul(x, FMul(x, x)))))
GeluTanh(x) == FMul(FMul(Half, x), FAdd(One, FTanh(GTArg(x))))
DGeluTanh(x) ==
  LET t == FTanh(GTArg(x))
  IN  FAdd(FMul(Half, FAdd(One, t)),
           FMul(FMul(FMul(Half, x), FSub(One, FMul(t, t))),
                FMul(C0, FAdd(One, FMul(C3, FMul(x, x))))))

RECURSIVE HypotAll(_, _, _)
HypotAll(q, i, j) == IF j - i = 1 THEN FAbs(q[j]) ELSE LET m == (i + j) \div 2 IN FHypot(HypotAll(q, i, m), HypotAll(q, m, j))
Norm2(q) == IF q = <<>> THEN 0 ELSE HypotAll(q, 0, Len(q))

\* merge finite elements of a row into the pair <<max, sum>>; sum = 0 means empty
MergeRow(mx, sm, row) ==
  LET fin == SelectSeq(row, LAMBDA v : ~IsInf(v))
  IN  IF fin = <<>> THEN <<mx, sm>>
      ELSE LET m0 == FMaxSeq(fin)
               m1 == IF sm = 0 THEN m0 ELSE FMax(m0, mx)
               s0 == IF sm = 0 THEN 0 ELSE FMul(sm, FExp(FSub(mx, m1)))
           IN  <<m1, FAdd(s0, FSum(Vec(Len(fin), LAMBDA i : FExp(FSub(fin[i + 1], m1)))))>>

\* multi-index of linear index p within a shape, as a sequence of 0-based indices
RECURSIVE Unravel(_, _)
Unravel(p, s) == IF s = <<>> THEN <<>> ELSE <<p % s[1]>> \o Unravel(p \div s[1], Tail(s))
RECURSIVE Ravel(_, _)
Ravel(ix, s) == IF s = <<>> THEN 0 ELSE ix[1] + s[1] * Ravel(Tail(ix), Tail(s))

------------------------------------------------------------------------------
\* Validity of requests
SameTr(t, u) == t.shape = u.shape /\ t.tile = u.tile
SliceOf(s, t, axis) ==      \* s is a slice of t without the axis
  /\ Ndim(t) = Ndim(s) + 1
  /\ axis >= 0 /\ axis < Ndim(t)
  /\ s.shape = Without(t.shape, axis)
  /\ s.tile = Without(t.tile, axis)
PairOf(s, t, axis) ==       \* s holds 2 values for each slice element of t
  /\ Ndim(t) = Ndim(s) /\ Ndim(t) > 0
  /\ axis >= 0 /\ axis < Ndim(t)
  /\ s.shape[1] = 2 /\ s.tile[1] = 2
  /\ Tail(s.shape) = Without(t.shape, axis)
  /\ Tail(s.tile) = Without(t.tile, axis)
FiberOf(f, t, axis, b) ==   \* f is a fiber of t along the axis with b batch dims
  LET n == Ndim(t)
  IN  /\ b >= 0 /\ Ndim(f) = b + 1
      /\ axis >= 0 /\ axis < n - b
      /\ f.shape = <<t.shape[axis + 1]>> \o Sub(t.shape, n - b + 1, n)
      /\ f.tile = <<t.tile[axis + 1]>> \o Sub(t.tile, n - b + 1, n)
GemmOk(a, A, B, C) ==
  LET n == a.ndim  b == a.batch  na == Ndim(A)  nb == Ndim(B)  nc == Ndim(C)
      K(s, tr, m) == IF tr THEN Sub(s, 1, n) ELSE Sub(s, m - b - n + 1, m - b)
      O(s, tr, m) == IF tr THEN Sub(s, n + 1, m - b) ELSE Sub(s, 1, m - b - n)
      Bt(s, m) == Sub(s, m - b + 1, m)
  IN  \* the tile interface does without outer products
      /\ (IF "lvl" \in DOMAIN a THEN n > 0 ELSE n >= 0) /\ b >= 0 /\ na >= b + n /\ nb >= b + n
      /\ na + nb = nc + 2 * n + b
      /\ Bt(A.shape, na) = Bt(B.shape, nb) /\ Bt(A.shape, na) = Bt(C.shape, nc)
      /\ Bt(A.tile, na) = Bt(B.tile, nb) /\ Bt(A.tile, na) = Bt(C.tile, nc)
      /\ K(A.shape, a.ta, na) = K(B.shape, ~a.tb, nb)
      /\ K(A.tile, a.ta, na) = K(B.tile, ~a.tb, nb)
      /\ O(A.shape, a.ta, na) = Sub(C.shape, 1, na - b - n)
      /\ O(A.tile, a.ta, na) = Sub(C.tile, 1, na - b - n)
      /\ O(B.shape, ~a.tb, nb) = Sub(C.shape, na - b - n + 1, nc - b)
      /\ O(B.tile, ~a.tb, nb) = Sub(C.tile, na - b - n + 1, nc - b)
EmbedOk(ix, v, e, axis) ==
  /\ Ndim(e) = Ndim(ix) + 1
  /\ Ndim(v) = 2
  /\ axis >= 0 /\ axis < Ndim(e)
  /\ ix.shape = Without(e.shape, axis) /\ ix.tile = Without(e.tile, axis)
  /\ e.shape[axis + 1] = v.shape[1]
  /\ v.tile[2] = v.shape[2]
  /\ e.tile[axis + 1] % v.tile[1] = 0
LabelsOk(lb, t) ==
  /\ Ndim(t) = Ndim(lb) + 1
  /\ lb.shape = Tail(t.shape) /\ lb.tile = Tail(t.tile)
  /\ t.tile[1] = t.shape[1]

Valid(M, a) ==
  LET T(f) == M[f]
  IN
  CASE a.op \in {"fill", "clear", "relu", "drelu", "gelu", "dgelu", "gelutanh_inplace",
                 "dgelutanh", "pow", "sqrt_inplace", "scal_inplace", "add_scalar",
                 "hypot_scalar_inverse"} -> TRUE
    [] a.op \in {"add", "hypot", "scal", "prod", "maximum", "sqrt", "copy", "gelutanh",
                 "relu_forward", "axpy"} -> SameTr(T(a.x), T(a.y))
    [] a.op = "axpy_t" -> SameTr(T(a.x), T(a.y)) /\ Ndim(T(a.a)) = 0
    [] a.op \in {"relu_backward", "gelu_backward", "gelutanh_backward"} ->
         SameTr(T(a.x), T(a.dy)) /\ SameTr(T(a.x), T(a.dx))
    [] a.op = "addcdiv" -> SameTr(T(a.n), T(a.d)) /\ SameTr(T(a.n), T(a.y))
    [] a.op \in {"adam", "adamw"} ->
         SameTr(T(a.p), T(a.g)) /\ SameTr(T(a.p), T(a.m)) /\ SameTr(T(a.p), T(a.v))
    [] a.op \in {"add_slice", "prod_slice"} -> SliceOf(T(a.s), T(a.y), a.axis)
    [] a.op = "add_slice3" -> SliceOf(T(a.s), T(a.y), a.axis) /\ SameTr(T(a.x), T(a.y))
    [] a.op = "add_fiber" -> FiberOf(T(a.s), T(a.y), a.axis, a.batch)
    [] a.op = "prod_fiber" -> FiberOf(T(a.s), T(a.y), a.axis, 0)
    [] a.op = "prod_fiber3" -> FiberOf(T(a.s), T(a.y), a.axis, 0) /\ SameTr(T(a.x), T(a.y))
    [] a.op \in {"sum_slice", "norm_slice"} -> SliceOf(T(a.y), T(a.x), a.axis)
    [] a.op = "sumprod_slice" -> SameTr(T(a.x), T(a.x2)) /\ SliceOf(T(a.y), T(a.x), a.axis)
    [] a.op = "sum_fiber" -> FiberOf(T(a.y), T(a.x), a.axis, a.batch)
    [] a.op = "sumprod_fiber" -> SameTr(T(a.x), T(a.x2)) /\ FiberOf(T(a.y), T(a.x), a.axis, 0)
    [] a.op \in {"sumnorm", "maxsumexp"} -> PairOf(T(a.y), T(a.x), a.axis)
    [] a.op = "softmax" -> PairOf(T(a.s), T(a.y), a.axis) /\ SameTr(T(a.x), T(a.y))
    [] a.op = "softmax_inplace" -> PairOf(T(a.s), T(a.y), a.axis)
    [] a.op = "logsumexp" -> Ndim(T(a.x)) > 0 /\ T(a.x).shape = <<2>> \o T(a.y).shape
                             /\ T(a.x).tile = <<2>> \o T(a.y).tile
    [] a.op = "normalize" ->
         /\ T(a.gb).shape = <<2>> /\ T(a.gb).tile = <<2>>
         /\ a.l > 0 /\ a.eps > 0
         /\ PairOf(T(a.s), T(a.y), a.axis)
    [] a.op = "nrm2_tile" -> Ndim(T(a.y)) = 0 /\ Ndim(T(a.tmp)) = 0
    [] a.op = "nrm2" -> Ndim(T(a.y)) = 0 /\ T(a.tmp).shape = Grid(T(a.x))
                        /\ \A i \in 1..Ndim(T(a.tmp)) : T(a.tmp).tile[i] = 1
    [] a.op = "gemm" -> GemmOk(a, T(a.a), T(a.b), T(a.c))
    [] a.op = "transpose" ->
         LET x == T(a.x)  y == T(a.y)  n == Ndim(x)
         IN  /\ a.ndim > 0 /\ a.ndim < n /\ Ndim(y) = n
             /\ y.shape = Sub(x.shape, a.ndim + 1, n) \o Sub(x.shape, 1, a.ndim)
             /\ y.tile = Sub(x.tile, a.ndim + 1, n) \o Sub(x.tile, 1, a.ndim)
    \* exchange with host arrays (h, an untiled tensor); 0-dimensional tensors use arrays of one element
    [] a.op \in {"from_array", "to_array"} ->
         LET h == T(a.h)  x == T(a.x)
         IN  h.shape = (IF Ndim(x) = 0 THEN <<1>> ELSE x.shape)
    [] a.op = "gather" -> T(a.x).shape = T(a.y).shape /\ ProdSeq(Grid(T(a.y))) = 1
    [] a.op = "scatter" -> T(a.x).shape = T(a.y).shape /\ ProdSeq(Grid(T(a.x))) = 1
    [] a.op = "copy_intersection" ->
         Ndim(T(a.x)) = Ndim(T(a.y)) /\ Len(a.xo) = Ndim(T(a.x)) /\ Len(a.yo) = Ndim(T(a.x))
    [] a.op = "mask_scalar" ->
         LET mk == T(a.mask)  y == T(a.y)
         IN  /\ a.batch >= 0 /\ Ndim(mk) = Ndim(y) - a.batch
             /\ mk.shape = Sub(y.shape, 1, Ndim(mk)) /\ mk.tile = Sub(y.tile, 1, Ndim(mk))
    [] a.op \in {"embedding", "embedding_backward"} -> EmbedOk(T(a.i), T(a.v), T(a.e), a.axis)
    [] a.op = "subtract_indexed_outputs" -> LabelsOk(T(a.i), T(a.y))
    [] a.op = "total_sum_accum" -> LabelsOk(T(a.i), T(a.x)) /\ SameTr(T(a.i), T(a.s))
                                   /\ Ndim(T(a.y)) = 0

Rejects(M, a) == ~Valid(M, a)
------------------------------------------------------------------------------
\* Results.  Every case is a function from names of assigned tensors to values.
Map1(x, F(_)) == LET v == x.val IN Vec(Len(v), LAMBDA p : F(v[p + 1]))
Map2(x, y, F(_, _)) == LET v == x.val  w == y.val IN Vec(Len(v), LAMBDA p : F(v[p + 1], w[p + 1]))

SliceIx(p, m, k) == (p % m) + m * (p \div (m * k))
\* the row of x that slice element q (0-based) selects
Row(v, q, m, k) == [l \in 1..k |-> v[(q % m) + m * ((l - 1) + k * (q \div m)) + 1]]

AdamStep(a, p, g0, m0, v0, decoupled) ==
  LET p1 == IF decoupled /\ a.wd # 0 THEN FMul(p, FSub(One, FMul(a.lr, a.wd))) ELSE p
      g == IF ~decoupled /\ a.wd # 0 THEN FAdd(g0, FMul(a.wd, p)) ELSE g0
      m == IF a.it = 1 THEN FMul(FSub(One, a.b1), g)
           ELSE FAdd(FMul(a.b1, m0), FMul(FSub(One, a.b1), g))
      v == IF a.it = 1 THEN FMul(FSqrt(FSub(One, a.b2)), FAbs(g))
           ELSE FHypot(FMul(FSqrt(a.b2), v0), FMul(FSqrt(FSub(One, a.b2)), g))
      c1 == FDiv(a.lr, FSub(One, IPow(a.b1, a.it)))
      c2 == FDiv(One, FSqrt(FSub(One, IPow(a.b2, a.it))))
      den == FAdd(FMul(v, c2), a.eps)
  IN  <<FSub(p1, FDiv(FMul(c1, m), den)), m, v>>

NormalizeDev(mean, ssq, eps) == FSqrt(FAdd(FMax(FSub(ssq, FMul(mean, mean)), 0), eps))

InSrc(ix, a, x) == \A i \in 1..Len(ix) :
                     LET g == a.yo[i] + ix[i] - a.xo[i] IN g >= 0 /\ g < x.shape[i]

Writes(M, a) ==
  LET T(f) == M[f]
      One1(f, v) == f :> v
  IN
  CASE a.op = "fill" -> One1(a.x, Map1(T(a.x), LAMBDA v : a.alpha))
    [] a.op = "clear" -> One1(a.x, Map1(T(a.x), LAMBDA v : 0))
    [] a.op = "relu" -> One1(a.x, Map1(T(a.x), Relu))
    [] a.op = "drelu" -> One1(a.x, Map1(T(a.x), DRelu))
    [] a.op = "gelu" -> One1(a.x, Map1(T(a.x), Gelu))
    [] a.op = "dgelu" -> One1(a.x, Map1(T(a.x), DGelu))
    [] a.op = "gelutanh_inplace" -> One1(a.x, Map1(T(a.x), GeluTanh))
    [] a.op = "dgelutanh" -> One1(a.x, Map1(T(a.x), DGeluTanh))
    [] a.op = "pow" -> One1(a.x, Map1(T(a.x), LAMBDA v : FMul(a.alpha, FPow(v, a.exp))))
    [] a.op = "sqrt_inplace" -> One1(a.x, Map1(T(a.x), FSqrt))
    [] a.op = "scal_inplace" -> One1(a.x, Map1(T(a.x), LAMBDA v : IF a.alpha = 0 THEN 0 ELSE FMul(a.alpha, v)))
    [] a.op = "add_scalar" -> One1(a.x, Map1(T(a.x), LAMBDA v : IF a.beta = 0 THEN a.alpha ELSE FAdd(a.alpha, FMul(a.beta, v))))
    [] a.op = "hypot_scalar_inverse" ->
         One1(a.x, Map1(T(a.x), LAMBDA v : FDiv(One, FHypot(FMul(a.alpha, v), a.eps))))
    [] a.op = "add" -> One1(a.y, Map2(T(a.x), T(a.y), LAMBDA v, w : Lin(a.alpha, v, a.beta, w)))
    [] a.op = "hypot" -> One1(a.y, IF a.alpha = 0 /\ a.beta = One THEN T(a.y).val
                                   ELSE Map2(T(a.x), T(a.y), LAMBDA v, w : HypotLin(a.alpha, v, a.beta, w)))
    [] a.op = "scal" -> One1(a.y, Map1(T(a.x), LAMBDA v : FMul(a.alpha, v)))
    [] a.op = "prod" -> One1(a.y, Map2(T(a.x), T(a.y), FMul))
    [] a.op = "maximum" -> One1(a.y, Map2(T(a.x), T(a.y), FMax))
    [] a.op = "sqrt" -> One1(a.y, Map1(T(a.x), FSqrt))
    [] a.op = "gelutanh" -> One1(a.y, Map1(T(a.x), GeluTanh))
    [] a.op = "relu_forward" -> One1(a.y, Map1(T(a.x), Relu))
    [] a.op = "from_array" -> One1(a.x, T(a.h).val)
    [] a.op = "to_array" -> One1(a.h, T(a.x).val)
    [] a.op \in {"copy", "gather", "scatter"} -> One1(a.y, T(a.x).val)
    [] a.op = "axpy" -> One1(a.y, Map2(T(a.x), T(a.y), LAMBDA v, w : Lin(a.alpha, v, One, w)))
    [] a.op = "axpy_t" -> LET al == T(a.a).val[1]
                          IN  One1(a.y, Map2(T(a.x), T(a.y), LAMBDA v, w : FAdd(FMul(al, v), w)))
    [] a.op \in {"relu_backward", "gelu_backward", "gelutanh_backward"} ->
         LET x == T(a.x).val  dy == T(a.dy).val  dx == T(a.dx).val
             D(v) == IF a.op = "relu_backward" THEN DRelu(v)
                     ELSE IF a.op = "gelu_backward" THEN DGelu(v) ELSE DGeluTanh(v)
         IN  One1(a.dx, Vec(Len(x), LAMBDA p : FAdd(dx[p + 1], FMul(D(x[p + 1]), dy[p + 1]))))
    [] a.op = "addcdiv" ->
         LET n == T(a.n).val  d == T(a.d).val  y == T(a.y).val
         IN  One1(a.y, Vec(Len(y), LAMBDA p : FAdd(y[p + 1], FDiv(FMul(a.alpha, n[p + 1]), FAdd(d[p + 1], a.eps)))))
    [] a.op \in {"adam", "adamw"} ->
         LET p == T(a.p).val  g == T(a.g).val  m == T(a.m).val  v == T(a.v).val
             R == Vec(Len(p), LAMBDA i : AdamStep(a, p[i + 1], g[i + 1], m[i + 1], v[i + 1], a.op = "adamw"))
             Col(c) == Vec(Len(p), LAMBDA i : R[i + 1][c])
         IN  (a.p :> Col(1)) @@ (a.m :> Col(2)) @@ (a.v :> Col(3))
    [] a.op \in {"add_slice", "add_slice3", "prod_slice"} ->
         LET y == T(a.y)  m == Pre(y.shape, a.axis)  k == y.shape[a.axis + 1]  s == T(a.s).val
             x == IF a.op = "add_slice3" THEN T(a.x).val ELSE y.val
         IN  One1(a.y, Vec(Size(y), LAMBDA p :
               LET sv == s[SliceIx(p, m, k) + 1]
               IN  IF a.op = "prod_slice" THEN FMul(FMul(a.alpha, sv), x[p + 1])
                   ELSE Lin(a.alpha, sv, a.beta, x[p + 1])))
    [] a.op \in {"add_fiber", "prod_fiber", "prod_fiber3"} ->
         LET y == T(a.y)  b == IF a.op = "add_fiber" THEN a.batch ELSE 0
             m == Pre(y.shape, a.axis)  k == y.shape[a.axis + 1]
             n == ProdSeq(Sub(y.shape, a.axis + 2, Ndim(y) - b))  s == T(a.s).val
             x == IF a.op = "prod_fiber3" THEN T(a.x).val ELSE y.val
         IN  One1(a.y, Vec(Size(y), LAMBDA p :
               LET sv == s[((p \div m) % k) + k * (p \div (m * k * n)) + 1]
               IN  IF a.op = "add_fiber" THEN Lin(a.alpha, sv, a.beta, x[p + 1])
                   ELSE FMul(FMul(a.alpha, sv), x[p + 1])))
    [] a.op \in {"sum_slice", "norm_slice", "sumprod_slice"} ->
         LET x == T(a.x)  m == Pre(x.shape, a.axis)  k == x.shape[a.axis + 1]  y == T(a.y).val
             v == IF a.op = "sumprod_slice" THEN Map2(x, T(a.x2), FMul) ELSE x.val
         IN  One1(a.y, Vec(Len(y), LAMBDA q :
               LET r == Row(v, q, m, k)
               IN  IF a.op = "norm_slice" THEN HypotLin(a.alpha, Norm2(r), a.beta, y[q + 1])
                   ELSE Lin(a.alpha, FSum(r), a.beta, y[q + 1])))
    [] a.op \in {"sum_fiber", "sumprod_fiber"} ->
         LET x == T(a.x)  b == IF a.op = "sum_fiber" THEN a.batch ELSE 0
             m == Pre(x.shape, a.axis)  k == x.shape[a.axis + 1]
             n == ProdSeq(Sub(x.shape, a.axis + 2, Ndim(x) - b))  y == T(a.y).val
             v == IF a.op = "sumprod_fiber" THEN Map2(x, T(a.x2), FMul) ELSE x.val
         IN  One1(a.y, Vec(Len(y), LAMBDA q :
               LET l == q % k  bb == q \div k
                   r == [i \in 1..(m * n) |->
                           LET i0 == (i - 1) % m  j == (i - 1) \div m
                           IN  v[i0 + m * (l + k * (j + n * bb)) + 1]]
               IN  Lin(a.alpha, FSum(r), a.beta, y[q + 1])))
    [] a.op = "sumnorm" ->
         \* the request on tensors overwrites, the one on tiles adds to what is there
         LET x == T(a.x)  m == Pre(x.shape, a.axis)  k == x.shape[a.axis + 1]
             acc == "acc" \in DOMAIN a /\ a.acc
             y == T(a.y).val
         IN  One1(a.y, Vec(Size(T(a.y)), LAMBDA p :
               LET r == Row(x.val, p \div 2, m, k)
               IN  IF p % 2 = 0 THEN (IF acc THEN FAdd(y[p + 1], FSum(r)) ELSE FSum(r))
                   ELSE (IF acc THEN FHypot(y[p + 1], Norm2(r)) ELSE Norm2(r))))
    [] a.op = "maxsumexp" ->
         LET x == T(a.x)  m == Pre(x.shape, a.axis)  k == x.shape[a.axis + 1]  y == T(a.y).val
         IN  One1(a.y, Vec(Len(y), LAMBDA p :
               LET q == p \div 2
               IN  MergeRow(y[2 * q + 1], y[2 * q + 2], Row(x.val, q, m, k))[(p % 2) + 1]))
    [] a.op \in {"softmax", "softmax_inplace"} ->
         LET y == T(a.y)  m == Pre(y.shape, a.axis)  k == y.shape[a.axis + 1]  s == T(a.s).val
             x == IF a.op = "softmax" THEN T(a.x).val ELSE y.val
         IN  One1(a.y, Vec(Size(y), LAMBDA p :
               LET q == SliceIx(p, m, k)  v == x[p + 1]
               IN  IF IsInf(v) THEN 0
                   ELSE FDiv(FMul(a.alpha, FExp(FSub(v, s[2 * q + 1]))), s[2 * q + 2])))
    [] a.op = "logsumexp" ->
         LET x == T(a.x).val
         IN  One1(a.y, Vec(Size(T(a.y)), LAMBDA q : FAdd(x[2 * q + 1], FLn(x[2 * q + 2]))))
    [] a.op = "normalize" ->
         LET y == T(a.y)  m == Pre(y.shape, a.axis)  k == y.shape[a.axis + 1]  s == T(a.s).val
             g == T(a.gb).val
         IN  One1(a.y, Vec(Size(y), LAMBDA p :
               LET q == SliceIx(p, m, k)
                   mean == FDiv(s[2 * q + 1], a.l * S)
                   msq == FDiv(FMul(s[2 * q + 2], s[2 * q + 2]), a.l * S)
                   dev == NormalizeDev(mean, msq, a.eps)
               IN  FAdd(FMul(g[1], FDiv(FSub(y.val[p + 1], mean), dev)), g[2])))
    [] a.op \in {"nrm2", "nrm2_tile"} ->
         One1(a.y, <<HypotLin(a.alpha, Norm2(T(a.x).val), a.beta, T(a.y).val[1])>>)
           @@ One1(a.tmp, Map1(T(a.tmp), LAMBDA v : Undef))
    [] a.op = "gemm" ->
         LET A == T(a.a)  B == T(a.b)  C == T(a.c)  n == a.ndim  b == a.batch
             na == Ndim(A)
             Kk == IF a.ta THEN ProdSeq(Sub(A.shape, 1, n))
                   ELSE ProdSeq(Sub(A.shape, na - b - n + 1, na - b))
             Mm == IF a.ta THEN ProdSeq(Sub(A.shape, n + 1, na - b))
                   ELSE ProdSeq(Sub(A.shape, 1, na - b - n))
             Bb == ProdSeq(Sub(A.shape, na - b + 1, na))
             Nn == Size(C) \div (Mm * Bb)
             Ae(i, l, z) == IF a.ta THEN A.val[l + Kk * (i + Mm * z) + 1] ELSE A.val[i + Mm * (l + Kk * z) + 1]
             Be(l, j, z) == IF a.tb THEN B.val[j + Nn * (l + Kk * z) + 1] ELSE B.val[l + Kk * (j + Nn * z) + 1]
         IN  One1(a.c, Vec(Size(C), LAMBDA p :
               LET i == p % Mm  j == (p \div Mm) % Nn  z == p \div (Mm * Nn)
               IN  Lin(a.alpha, FSum([l \in 1..Kk |-> FMul(Ae(i, l - 1, z), Be(l - 1, j, z))]),
                       a.beta, C.val[p + 1])))
    [] a.op = "transpose" ->
         LET x == T(a.x)  m == ProdSeq(Sub(x.shape, 1, a.ndim))  n == Size(x) \div m
         IN  One1(a.y, Vec(Size(x), LAMBDA p :
               LET j == p % n  i == p \div n IN FMul(a.alpha, x.val[i + m * j + 1])))
    [] a.op = "copy_intersection" ->
         LET x == T(a.x)  y == T(a.y)
         IN  One1(a.y, Vec(Size(y), LAMBDA p :
               LET ix == Unravel(p, y.shape)
                   sx == [i \in 1..Len(ix) |-> a.yo[i] + ix[i] - a.xo[i]]
               IN  IF InSrc(ix, a, x) THEN x.val[Ravel(sx, x.shape) + 1] ELSE y.val[p + 1]))
    [] a.op = "mask_scalar" ->
         LET mk == T(a.mask).val  y == T(a.y).val
         IN  One1(a.y, Vec(Len(y), LAMBDA p : IF mk[(p % Len(mk)) + 1] # 0 THEN y[p + 1] ELSE a.alpha))
    [] a.op = "embedding" ->
         LET e == T(a.e)  m == Pre(e.shape, a.axis)  k == e.shape[a.axis + 1]
             ix == T(a.i).val  v == T(a.v).val
         IN  One1(a.e, Vec(Size(e), LAMBDA p :
               v[((p \div m) % k) + k * ix[SliceIx(p, m, k) + 1] + 1]))
    [] a.op = "embedding_backward" ->
         LET e == T(a.e)  m == Pre(e.shape, a.axis)  k == e.shape[a.axis + 1]
             ix == T(a.i).val  v == T(a.v).val
         IN  One1(a.v, Vec(Len(v), LAMBDA p :
               LET l == p % k  w == p \div k
                   hits == SelectSeq([q \in 1..Len(ix) |-> q - 1], LAMBDA q : ix[q + 1] = w)
               IN  FAdd(v[p + 1], FSum([h \in 1..Len(hits) |->
                     LET q == hits[h] IN e.val[(q % m) + m * (l + k * (q \div m)) + 1]]))))
    [] a.op = "subtract_indexed_outputs" ->
         LET y == T(a.y)  k == y.shape[1]  ix == T(a.i).val
         IN  One1(a.y, Vec(Size(y), LAMBDA p :
               IF ix[(p \div k) + 1] = p % k THEN FSub(y.val[p + 1], a.alpha) ELSE y.val[p + 1]))
    [] a.op = "total_sum_accum" ->
         LET x == T(a.x)  k == x.shape[1]  ix == T(a.i).val  s == T(a.s).val
         IN  One1(a.y, <<FAdd(T(a.y).val[1], FMul(a.alpha,
               FSum([q \in 1..Len(ix) |-> FSub(s[q], x.val[k * (q - 1) + ix[q] + 1])])))>>)

\* Operations whose results are exact whenever their operands are
ExactOps == {"fill", "clear", "relu", "drelu", "scal_inplace", "add_scalar", "add", "scal",
             "prod", "maximum", "relu_forward", "copy", "gather", "scatter", "from_array", "to_array", "axpy", "axpy_t",
             "relu_backward", "add_slice", "add_slice3", "prod_slice", "add_fiber",
             "prod_fiber", "prod_fiber3", "sum_slice", "sumprod_slice", "sum_fiber",
             "sumprod_fiber", "gemm", "transpose", "copy_intersection", "mask_scalar",
             "embedding", "embedding_backward", "subtract_indexed_outputs"}
Operands(a) == {a[f] : f \in (DOMAIN a) \cap {"x", "y", "a", "b", "c", "s", "x2", "n", "d", "dy",
                 "dx", "p", "g", "m", "v", "e", "gb", "tmp", "mask", "i", "h"}}

------------------------------------------------------------------------------
\* Element types.  All operands of a request are reals of one precision, except
\* labels (integers) and masks (logical); what only moves elements takes other
\* types as well.
Moves == {"copy", "scatter", "gather", "copy_intersection", "from_array", "to_array"}
TypesOk(M, a) ==
  LET lab == IF "i" \in DOMAIN a THEN {a.i} ELSE {}
      msk == IF "mask" \in DOMAIN a THEN {a.mask} ELSE {}
      rest == Operands(a) \ (lab \cup msk)
  IN  /\ \A f \in lab : M[f].dt = "i"
      /\ \A f \in msk : M[f].dt = "b"
      /\ \A f, g \in rest : M[f].dt = M[g].dt /\ (M[f].dt = "f" => M[f].prec = M[g].prec)
      /\ \A f \in rest : M[f].dt \in (IF a.op \notin Moves THEN {"f"}
                                      ELSE IF a.op \in {"scatter", "gather", "from_array", "to_array"} THEN {"f", "i", "b"} ELSE {"f", "i"})
=============================================================================
