--------------------------------- MODULE Nets ---------------------------------
(***************************************************************************)
(* The mathematical meaning of layers, losses, optimizers and models.      *)
(*                                                                         *)
(* Everything is defined by textbook formulas on index functions, not as   *)
(* the composition of tensor operations by which NNTile computes it.  A    *)
(* forward request assigns its outputs; a backward request adds the vector *)
(* Jacobian product to the gradients listed as required and to no other    *)
(* tensor.  In an operation record, gradient fields hold "" if the         *)
(* gradient is not required.                                               *)
(***************************************************************************)
EXTENDS Dense

Sum(n, F(_)) == FSum([i \in 1..n |-> F(i - 1)])
\* a contribution F to the gradient f (nothing if the gradient is not required)
AddTo(M, f, F(_)) == IF f = "" THEN <<>> ELSE << <<f, Vec(Len(M[f].val), F)>> >>
\* add contributions one after another: one tensor may receive several
RECURSIVE AccFrom(_, _, _)
AccFrom(M, W, q) ==
  IF q = <<>> THEN W
  ELSE LET f == q[1][1]  v == q[1][2]
           base == IF f \in DOMAIN W THEN W[f] ELSE M[f].val
       IN  AccFrom(M, (f :> Vec(Len(v), LAMBDA p : FAdd(base[p + 1], v[p + 1]))) @@ W, Tail(q))
Acc(M, q) == AccFrom(M, <<>>, q)

------------------------------------------------------------------------------
\* Fully connected layer: y(m,n) = sum_k x(m,k) w(k,n) + b(n).
\* side "L": w holds (k,n), y holds (m,n); side "R": w holds (n,k), y holds (n,m).
\* x holds (m,k) or (k,m).
LinShape(M, a) ==
  LET xs == M[a.x].shape  ws == M[a.w].shape  nx == Len(xs)  nw == Len(ws)
      xmk == (a.side = "L") = ~a.ta         \* x is stored as (m,k)
      K == ProdSeq(IF xmk THEN Sub(xs, nx - a.nd + 1, nx) ELSE Sub(xs, 1, a.nd))
  IN  [xmk |-> xmk, K |-> K, M |-> ProdSeq(xs) \div K, N |-> ProdSeq(ws) \div K]
LinX(d, v, m, k) == IF d.xmk THEN v[m + d.M * k + 1] ELSE v[k + d.K * m + 1]
LinW(d, a, v, k, n) == IF a.side = "L" THEN v[k + d.K * n + 1] ELSE v[n + d.N * k + 1]
LinY(d, a, v, m, n) == IF a.side = "L" THEN v[m + d.M * n + 1] ELSE v[n + d.N * m + 1]
\* the bias runs along the last axis (L) or the first axis (R) of y
LinB(d, a, nb, n) == IF a.side = "L" THEN n \div (d.N \div nb) ELSE n % nb

LinearFwd(M, a) ==
  LET d == LinShape(M, a)  x == M[a.x].val  w == M[a.w].val
      b == IF a.b = "" THEN <<0>> ELSE M[a.b].val
  IN  a.y :> Vec(d.M * d.N, LAMBDA p :
        LET m == IF a.side = "L" THEN p % d.M ELSE p \div d.N
            n == IF a.side = "L" THEN p \div d.M ELSE p % d.N
        IN  FAdd(Sum(d.K, LAMBDA k : FMul(LinX(d, x, m, k), LinW(d, a, w, k, n))),
                 b[LinB(d, a, Len(b), n) + 1]))
LinearBwd(M, a) ==
  LET d == LinShape(M, a)  x == M[a.x].val  w == M[a.w].val  dy == M[a.gy].val
      nb == IF a.gb = "" THEN 1 ELSE Len(M[a.gb].val)
  IN  AddTo(M, a.gx, LAMBDA p :
        LET m == IF d.xmk THEN p % d.M ELSE p \div d.K
            k == IF d.xmk THEN p \div d.M ELSE p % d.K
        IN  Sum(d.N, LAMBDA n : FMul(LinY(d, a, dy, m, n), LinW(d, a, w, k, n))))
   \o AddTo(M, a.gw, LAMBDA p :
        LET k == IF a.side = "L" THEN p % d.K ELSE p \div d.N
            n == IF a.side = "L" THEN p \div d.K ELSE p % d.N
        IN  Sum(d.M, LAMBDA m : FMul(LinX(d, x, m, k), LinY(d, a, dy, m, n))))
   \o AddTo(M, a.gb, LAMBDA q :
        Sum(d.M * d.N, LAMBDA i :
          LET m == i % d.M  n == i \div d.M
          IN  IF LinB(d, a, nb, n) = q THEN LinY(d, a, dy, m, n) ELSE 0))

------------------------------------------------------------------------------
\* Elementwise activations
ActF(f, x) == IF f = "relu" THEN Relu(x) ELSE IF f = "gelu" THEN Gelu(x) ELSE GeluTanh(x)
ActD(f, x) == IF f = "relu" THEN DRelu(x) ELSE IF f = "gelu" THEN DGelu(x) ELSE DGeluTanh(x)
ActFwd(M, a) == a.y :> Map1(M[a.x], LAMBDA v : ActF(a.f, v))
ActBwd(M, a) == LET x == M[a.x].val  dy == M[a.gy].val
                IN  AddTo(M, a.gx, LAMBDA p : FMul(ActD(a.f, x[p + 1]), dy[p + 1]))

\* Sum of two tensors of one shape
AddFwd(M, a) == LET x == M[a.x].val  y == M[a.x2].val
                IN  a.y :> Vec(Len(x), LAMBDA p : FAdd(x[p + 1], y[p + 1]))
AddBwd(M, a) ==
  LET dy == M[a.gy].val  D(p) == dy[p + 1]
  IN  IF a.gx = a.gx2 THEN AddTo(M, a.gx, LAMBDA p : FAdd(D(p), D(p)))   \* x + x
      ELSE AddTo(M, a.gx, D) \o AddTo(M, a.gx2, D)

\* Sum with a slice repeated along the axis
AddSliceFwd(M, a) ==
  LET x == M[a.x]  m == Pre(x.shape, a.axis)  k == x.shape[a.axis + 1]  s == M[a.x2].val
  IN  a.y :> Vec(Size(x), LAMBDA p : FAdd(x.val[p + 1], s[SliceIx(p, m, k) + 1]))
AddSliceBwd(M, a) ==
  LET x == M[a.x]  m == Pre(x.shape, a.axis)  k == x.shape[a.axis + 1]  dy == M[a.gy].val
  IN  AddTo(M, a.gx, LAMBDA p : dy[p + 1])
      \o AddTo(M, a.gx2, LAMBDA q : FSum(Row(dy, q, m, k)))

\* Lookup of columns: y(.., l, ..) = w(l, index(.., ..))
EmbedFwd(M, a) ==
  LET y == M[a.y]  m == Pre(y.shape, a.axis)  k == y.shape[a.axis + 1]
      ix == M[a.i].val  w == M[a.w].val
  IN  a.y :> Vec(Size(y), LAMBDA p : w[((p \div m) % k) + k * ix[SliceIx(p, m, k) + 1] + 1])
EmbedBwd(M, a) ==
  LET y == M[a.gy]  m == Pre(y.shape, a.axis)  k == y.shape[a.axis + 1]  ix == M[a.i].val
  IN  AddTo(M, a.gw, LAMBDA p :
        LET l == p % k  c == p \div k
        IN  Sum(Len(ix), LAMBDA q : IF ix[q + 1] = c THEN Row(y.val, q, m, k)[l + 1] ELSE 0))

\* Mean over the first axis, remaining axes in reverse order
GapFwd(M, a) ==
  LET x == M[a.x]  n == x.shape[1]  c == x.shape[2]  d == x.shape[3]
  IN  a.y :> Vec(c * d, LAMBDA p :
        LET j == p % d  i == p \div d
        IN  FDiv(Sum(n, LAMBDA t : x.val[t + n * (i + c * j) + 1]), n * S))
GapBwd(M, a) ==
  LET x == M[a.x]  n == x.shape[1]  c == x.shape[2]  d == x.shape[3]  dy == M[a.gy].val
  IN  AddTo(M, a.gx, LAMBDA p :
        LET i == (p \div n) % c  j == p \div (n * c) IN FDiv(dy[j + d * i + 1], n * S))

------------------------------------------------------------------------------
\* Normalisation along an axis: y = gamma (x - mean) / sqrt(var + eps) + beta
LnStats(x, axis, eps) ==
  LET m == Pre(x.shape, axis)  k == x.shape[axis + 1]  n == Size(x) \div k
      mean == Vec(n, LAMBDA q : FDiv(FSum(Row(x.val, q, m, k)), k * S))
      dev(q, l) == FSub(Row(x.val, q, m, k)[l], mean[q + 1])
      inv == Vec(n, LAMBDA q : FDiv(One, FSqrt(FAdd(FDiv(FSum([l \in 1..k |-> FMul(dev(q, l), dev(q, l))]), k * S), eps))))
  IN  [m |-> m, k |-> k, n |-> n, inv |-> inv,
       hat |-> Vec(Size(x), LAMBDA p : LET q == SliceIx(p, m, k)
                                       IN  FMul(FSub(x.val[p + 1], mean[q + 1]), inv[q + 1]))]
LnFwd(M, a) ==
  LET x == M[a.x]  t == LnStats(x, a.axis, a.eps)  g == M[a.g].val  b == M[a.be].val
  IN  a.y :> Vec(Size(x), LAMBDA p :
        LET l == (p \div t.m) % t.k IN FAdd(FMul(g[l + 1], t.hat[p + 1]), b[l + 1]))
LnBwd(M, a) ==
  LET x == M[a.x]  t == LnStats(x, a.axis, a.eps)  g == M[a.g].val  dy == M[a.gy].val
      gd == Vec(Size(x), LAMBDA p : FMul(g[((p \div t.m) % t.k) + 1], dy[p + 1]))
      mg == Vec(t.n, LAMBDA q : FDiv(FSum(Row(gd, q, t.m, t.k)), t.k * S))
      gh == Vec(Size(x), LAMBDA p : FMul(gd[p + 1], t.hat[p + 1]))
      mh == Vec(t.n, LAMBDA q : FDiv(FSum(Row(gh, q, t.m, t.k)), t.k * S))
      \* all elements with index l along the axis
      Fib(v, l) == Sum(Size(x), LAMBDA p : IF (p \div t.m) % t.k = l THEN v[p + 1] ELSE 0)
      dh == Vec(Size(x), LAMBDA p : FMul(dy[p + 1], t.hat[p + 1]))
  IN  AddTo(M, a.gx, LAMBDA p :
        LET q == SliceIx(p, t.m, t.k)
        IN  FMul(t.inv[q + 1], FSub(FSub(gd[p + 1], mg[q + 1]), FMul(t.hat[p + 1], mh[q + 1]))))
   \o AddTo(M, a.gg, LAMBDA l : Fib(dh, l))
   \o AddTo(M, a.gbe, LAMBDA l : Fib(dy, l))

------------------------------------------------------------------------------
\* Scaled dot-product attention.  q, k, v hold (d, s, b) with b running over
\* batch and head; mask(i, j) false forbids position j to look at position i.
AttShape(q) == [D |-> q[1], L |-> q[2], B |-> ProdSeq(q) \div (q[1] * q[2])]
AttScale(d) == FDiv(One, FSqrt(d.D * S))
AttLogit(d, q, k, mask, i, j, b) ==
  IF mask # <<>> /\ mask[i + d.L * j + 1] = 0 THEN NInf
  ELSE FMul(AttScale(d), Sum(d.D, LAMBDA e : FMul(k[e + d.D * (i + d.L * b) + 1], q[e + d.D * (j + d.L * b) + 1])))
\* column (j, b) of logits
AttCol(d, q, k, mask, j, b) == [i \in 1..d.L |-> AttLogit(d, q, k, mask, i - 1, j, b)]
SoftCol(col) ==
  LET ms == MergeRow(0, 0, col)
  IN  [i \in 1..Len(col) |-> IF IsInf(col[i]) THEN 0 ELSE FDiv(FExp(FSub(col[i], ms[1])), ms[2])]
\* probabilities (i, j, b)
AttProb(d, q, k, mask) ==
  LET cols == [c \in 1..(d.L * d.B) |-> TLCEval(SoftCol(AttCol(d, q, k, mask, (c - 1) % d.L, (c - 1) \div d.L)))]
  IN  TLCEval(cols)
AttOut(d, A, v) ==
  Vec(d.D * d.L * d.B, LAMBDA p :
    LET e == p % d.D  c == p \div d.D  b == c \div d.L
    IN  Sum(d.L, LAMBDA i : FMul(v[e + d.D * (i + d.L * b) + 1], A[c + 1][i + 1])))
\* gradients with respect to q, k, v
AttGrad(d, q, k, v, A, do) ==
  LET dA == TLCEval([c \in 1..(d.L * d.B) |-> TLCEval([i \in 1..d.L |->
              LET b == (c - 1) \div d.L
              IN  Sum(d.D, LAMBDA e : FMul(v[e + d.D * (i - 1 + d.L * b) + 1], do[e + d.D * (c - 1) + 1]))])])
      dS == TLCEval([c \in 1..(d.L * d.B) |->
              LET z == FSum([i \in 1..d.L |-> FMul(A[c][i], dA[c][i])])
              IN  TLCEval([i \in 1..d.L |-> FMul(A[c][i], FSub(dA[c][i], z))])])
      n == d.D * d.L * d.B
      sc == AttScale(d)
  IN  [q |-> Vec(n, LAMBDA p :
               LET e == p % d.D  c == p \div d.D  b == c \div d.L
               IN  FMul(sc, Sum(d.L, LAMBDA i : FMul(k[e + d.D * (i + d.L * b) + 1], dS[c + 1][i + 1])))),
       k |-> Vec(n, LAMBDA p :
               LET e == p % d.D  i == (p \div d.D) % d.L  b == p \div (d.D * d.L)
               IN  FMul(sc, Sum(d.L, LAMBDA j : FMul(q[e + d.D * (j + d.L * b) + 1], dS[j + d.L * b + 1][i + 1])))),
       v |-> Vec(n, LAMBDA p :
               LET e == p % d.D  i == (p \div d.D) % d.L  b == p \div (d.D * d.L)
               IN  Sum(d.L, LAMBDA j : FMul(do[e + d.D * (j + d.L * b) + 1], A[j + d.L * b + 1][i + 1])))]
MaskVal(M, f) == IF f = "" THEN <<>> ELSE M[f].val

\* Multi-head attention layer.  Inputs x_q, x_k, x_v (emb, s, b); weights
\* w_q, w_k, w_v (head, d, emb) and w (emb, head, d); biases (d, head) and (emb).
\* head-batch index: b + batch * head
MhaDims(M, a) ==
  LET w == M[a.wq].shape  x == M[a.xq].shape
  IN  [H |-> w[1], D |-> w[2], L |-> x[2], N |-> x[3], B |-> x[3] * w[1]]
MhaProj(M, d, x, w, bias) ==
  LET E == M[x].shape[1]  xv == M[x].val  wv == M[w].val  bv == MaskVal(M, bias)
  IN  Vec(d.D * d.L * d.B, LAMBDA p :
        LET e == p % d.D  s == (p \div d.D) % d.L  bh == p \div (d.D * d.L)
            b == bh % d.N  h == bh \div d.N
            y == Sum(E, LAMBDA c : FMul(wv[h + d.H * (e + d.D * c) + 1], xv[c + E * (s + d.L * b) + 1]))
        IN  IF bias = "" THEN y ELSE FAdd(y, bv[e + d.D * h + 1]))
MhaCore(M, a) ==
  LET d == MhaDims(M, a)
      q == MhaProj(M, d, a.xq, a.wq, a.bq)
      k == MhaProj(M, d, a.xk, a.wk, a.bk)
      v == MhaProj(M, d, a.xv, a.wv, a.bv)
      A == AttProb(d, q, k, MaskVal(M, a.mask))
  IN  [d |-> d, q |-> q, k |-> k, v |-> v, A |-> A, o |-> AttOut(d, A, v)]
\* element (head h, component e, position s, batch b) of a head tensor
Hd(d, v, h, e, s, b) == v[e + d.D * (s + d.L * (b + d.N * h)) + 1]
MhaFwd(M, a) ==
  LET c == MhaCore(M, a)  d == c.d  E == M[a.w].shape[1]  w == M[a.w].val  bo == MaskVal(M, a.bo)
  IN  a.y :> Vec(E * d.L * d.N, LAMBDA p :
        LET o == p % E  s == (p \div E) % d.L  b == p \div (E * d.L)
            y == Sum(d.H * d.D, LAMBDA i : FMul(w[o + E * i + 1], Hd(d, c.o, i % d.H, i \div d.H, s, b)))
        IN  IF a.bo = "" THEN y ELSE FAdd(y, bo[o + 1]))
MhaBwd(M, a) ==
  LET c == MhaCore(M, a)  d == c.d  E == M[a.w].shape[1]  w == M[a.w].val  dy == M[a.gy].val
      do == Vec(d.D * d.L * d.B, LAMBDA p :
              LET e == p % d.D  s == (p \div d.D) % d.L  bh == p \div (d.D * d.L)
                  b == bh % d.N  h == bh \div d.N
              IN  Sum(E, LAMBDA o : FMul(w[o + E * (h + d.H * e) + 1], dy[o + E * (s + d.L * b) + 1])))
      g == AttGrad(d, c.q, c.k, c.v, c.A, do)
      SB(F(_, _)) == Sum(d.L * d.N, LAMBDA i : F(i % d.L, i \div d.L))
      GradX(f, x, wt, dq) ==
        LET e1 == M[x].shape[1]  wv == M[wt].val
        IN  AddTo(M, f, LAMBDA p :
              LET ci == p % e1  s == (p \div e1) % d.L  b == p \div (e1 * d.L)
              IN  Sum(d.H * d.D, LAMBDA i : FMul(wv[i + d.H * d.D * ci + 1], Hd(d, dq, i % d.H, i \div d.H, s, b))))
      GradW(f, x, dq) ==
        LET e1 == M[x].shape[1]  xv == M[x].val
        IN  AddTo(M, f, LAMBDA p :
              LET h == p % d.H  e == (p \div d.H) % d.D  ci == p \div (d.H * d.D)
              IN  SB(LAMBDA s, b : FMul(Hd(d, dq, h, e, s, b), xv[ci + e1 * (s + d.L * b) + 1])))
      GradB(f, dq) == AddTo(M, f, LAMBDA p : SB(LAMBDA s, b : Hd(d, dq, p \div d.D, p % d.D, s, b)))
  IN  AddTo(M, a.gw, LAMBDA p :
        LET o == p % E  h == (p \div E) % d.H  e == p \div (E * d.H)
        IN  SB(LAMBDA s, b : FMul(dy[o + E * (s + d.L * b) + 1], Hd(d, c.o, h, e, s, b))))
   \o AddTo(M, a.gbo, LAMBDA o : SB(LAMBDA s, b : dy[o + E * (s + d.L * b) + 1]))
   \o GradW(a.gwq, a.xq, g.q) \o GradW(a.gwk, a.xk, g.k) \o GradW(a.gwv, a.xv, g.v)
   \o GradB(a.gbq, g.q) \o GradB(a.gbk, g.k) \o GradB(a.gbv, g.v)
   \o GradX(a.gxq, a.xq, a.wq, g.q) \o GradX(a.gxk, a.xk, a.wk, g.k) \o GradX(a.gxv, a.xv, a.wv, g.v)

\* The fused operations: tmp buffers may hold anything afterwards
FlashMax(M, a) ==
  LET d == AttShape(M[a.q].shape)  y == M[a.y].val  q == M[a.q].val  k == M[a.k].val  mk == MaskVal(M, a.mask)
  IN  (a.y :> Vec(Len(y), LAMBDA p :
        LET c == p \div 2  col == AttCol(d, q, k, mk, c % d.L, c \div d.L)
        IN  MergeRow(y[2 * c + 1], y[2 * c + 2], col)[(p % 2) + 1]))
FlashProb(M, a) ==      \* relative to the given maxima and sums
  LET d == AttShape(M[a.q].shape)  s == M[a.s].val  q == M[a.q].val  k == M[a.k].val  mk == MaskVal(M, a.mask)
  IN  TLCEval([c \in 1..(d.L * d.B) |-> TLCEval([i \in 1..d.L |->
        LET z == AttLogit(d, q, k, mk, i - 1, (c - 1) % d.L, (c - 1) \div d.L)
        IN  IF IsInf(z) THEN 0 ELSE FDiv(FExp(FSub(z, s[2 * c - 1])), s[2 * c])])])
FlashOut(M, a) == a.y :> AttOut(AttShape(M[a.q].shape), FlashProb(M, a), M[a.v].val)
FlashGrad(M, a) ==
  LET d == AttShape(M[a.q].shape)
      g == AttGrad(d, M[a.q].val, M[a.k].val, M[a.v].val, FlashProb(M, a), M[a.gy].val)
  IN  (a.gq :> g.q) @@ (a.gk :> g.k) @@ (a.gv :> g.v)

------------------------------------------------------------------------------
\* Losses
FrobCalc(M, a) ==
  LET x == M[a.x].val  y == M[a.t].val
      d == Vec(Len(x), LAMBDA p : FSub(x[p + 1], y[p + 1]))
      v == Sum(Len(x), LAMBDA p : FMul(d[p + 1], d[p + 1]))
  IN  (a.gx :> d) @@ (a.val :> <<FMul(Half, v)>>)
CrossCalc(M, a) ==
  LET x == M[a.x]  k == x.shape[1]  n == Size(x) \div k  lb == M[a.t].val
      Col(c) == [i \in 1..k |-> x.val[i + k * (c - 1)]]
      lse(c) == LET ms == MergeRow(0, 0, Col(c)) IN FAdd(ms[1], FLn(ms[2]))
      prob == TLCEval([c \in 1..n |-> TLCEval(SoftCol(Col(c)))])
      v == FSum([c \in 1..n |-> FSub(lse(c), Col(c)[lb[c] + 1])])
  IN  (a.val :> <<FAdd(M[a.val].val[1], FMul(a.scale, v))>>)
      @@ (IF a.gx = "" THEN <<>> ELSE a.gx :> Vec(Size(x), LAMBDA p :
           LET c == (p \div k) + 1  i == p % k
           IN  FMul(a.scale, FSub(prob[c][i + 1], IF lb[c] = i THEN One ELSE 0))))

------------------------------------------------------------------------------
\* Optimizers.  The state of an optimizer: the tensor a.hp holding the number
\* of steps made and the settings, and for every parameter moments in tensors
\* of their own; parameters are a sequence of records [p, g, m, v, vm] of
\* tensor names.  A gradient has no defined content after a step.
\* Saving and loading copies all of this (snap).
HpFields == <<"it", "lr", "wd", "mom", "damp", "b1", "b2", "eps", "lr0", "full">>
Settings(M, a) == [f \in {HpFields[i] : i \in 1..Len(HpFields)} |->
                     M[a.hp].val[CHOOSE i \in 1..Len(HpFields) : HpFields[i] = f]]
SgdStep(M, a, h, r, it) ==
  LET p == M[r.p].val  g == M[r.g].val  m == M[r.m].val
      G(i) == IF h.wd = 0 THEN g[i] ELSE FAdd(g[i], FMul(h.wd, p[i]))
      m1 == Vec(Len(p), LAMBDA i :
              IF it = 1 THEN G(i + 1)
              ELSE FAdd(FMul(h.mom, m[i + 1]), FMul(FSub(One, h.damp), G(i + 1))))
      d(i) == IF h.mom = 0 THEN G(i)
              ELSE IF a.nesterov THEN FAdd(G(i), FMul(h.mom, m1[i])) ELSE m1[i]
  IN  (r.p :> Vec(Len(p), LAMBDA i :
        LET u == FMul(h.lr, d(i + 1))
        IN  FSub(p[i + 1], u)))
      @@ (IF h.mom = 0 THEN <<>> ELSE r.m :> m1)
\* learning rate of step it with a linear warm-up
WarmLr(h, it) ==
  IF h.full > 1 /\ it < h.full
  THEN FAdd(h.lr0, FDiv(FMul(FSub(h.lr, h.lr0), (it - 1) * S), (h.full - 1) * S)) ELSE h.lr
AdamOpt(M, a, h, r, it) ==
  LET p == M[r.p].val  g == M[r.g].val  m == M[r.m].val  v == M[r.v].val
      lr == WarmLr(h, it)
      G(i) == IF h.wd = 0 \/ a.dec THEN g[i] ELSE FAdd(g[i], FMul(h.wd, p[i]))
      P(i) == IF h.wd = 0 \/ ~a.dec THEN p[i] ELSE FSub(p[i], FMul(FMul(lr, h.wd), p[i]))
      m1 == Vec(Len(p), LAMBDA i : IF it = 1 THEN FMul(FSub(One, h.b1), G(i + 1))
                                   ELSE FAdd(FMul(h.b1, m[i + 1]), FMul(FSub(One, h.b1), G(i + 1))))
      \* square root of the second moment
      v1 == Vec(Len(p), LAMBDA i : IF it = 1 THEN FMul(FSqrt(FSub(One, h.b2)), FAbs(G(i + 1)))
              ELSE FHypot(FMul(FSqrt(h.b2), v[i + 1]), FMul(FSqrt(FSub(One, h.b2)), G(i + 1))))
      vm1 == IF ~a.ams THEN v1
             ELSE Vec(Len(p), LAMBDA i : IF it = 1 THEN v1[i + 1] ELSE FMax(M[r.vm].val[i + 1], v1[i + 1]))
      c1 == FSub(One, IPow(h.b1, it))
      c2 == FSqrt(FSub(One, IPow(h.b2, it)))
  IN  (r.p :> Vec(Len(p), LAMBDA i :
        FSub(P(i + 1), FDiv(FMul(FDiv(lr, c1), m1[i + 1]), FAdd(FDiv(vm1[i + 1], c2), h.eps)))))
      @@ (r.m :> m1) @@ (r.v :> v1) @@ (IF a.ams THEN r.vm :> vm1 ELSE <<>>)
OptStep(M, a) ==
  LET h == Settings(M, a)
      it == h.it + 1
      One1(r) == (IF a.kind = "sgd" THEN SgdStep(M, a, h, r, it) ELSE AdamOpt(M, a, h, r, it))
                 @@ (r.g :> Map1(M[r.g], LAMBDA v : Undef))
      R[i \in 0..Len(a.ps)] == IF i = 0 THEN a.hp :> [M[a.hp].val EXCEPT ![1] = it] ELSE TLCEval(One1(a.ps[i])) @@ R[i - 1]
  IN  R[Len(a.ps)]

------------------------------------------------------------------------------
\* Copy values (saving and loading a state)
SnapAll(M, a) == LET R[i \in 0..Len(a.prs)] ==
                       IF i = 0 THEN <<>> ELSE (a.prs[i][2] :> M[a.prs[i][1]].val) @@ R[i - 1]
                 IN  R[Len(a.prs)]
\* Reference models keep their weights as row-major arrays.  Element ix of y is
\* element off + SUM st[k] * ix[k] of the array x (back: the other way round)
RECURSIVE Place(_, _, _, _)
Place(sh, off, st, p) ==
  IF sh = <<>> THEN off ELSE Place(Tail(sh), off + Head(st) * (p % Head(sh)), Tail(st), p \div Head(sh))
Relayout(M, a) ==
  IF ~a.back THEN a.y :> Vec(Size(M[a.y]), LAMBDA p : M[a.x].val[Place(M[a.y].shape, a.off, a.st, p) + 1])
  ELSE LET sh == M[a.y].shape
           at == {<<Place(sh, a.off, a.st, p), p>> : p \in 0..(Size(M[a.y]) - 1)}
           src == TLCEval([q \in {z[1] : z \in at} |-> (CHOOSE z \in at : z[1] = q)[2]])
       IN  a.x :> Vec(Size(M[a.x]), LAMBDA q : IF q \in DOMAIN src THEN M[a.y].val[src[q] + 1] ELSE M[a.x].val[q + 1])
ClearAll(M, a) == LET R[i \in 0..Len(a.ts)] ==
                       IF i = 0 THEN <<>> ELSE (a.ts[i] :> Map1(M[a.ts[i]], LAMBDA v : 0)) @@ R[i - 1]
                  IN  R[Len(a.ts)]

SimpleNetOps == {"linear_fwd", "linear_bwd", "act_fwd", "act_bwd", "sum_fwd", "sum_bwd", "addslice_fwd",
                 "addslice_bwd", "embed_fwd", "embed_bwd", "gap_fwd", "gap_bwd", "ln_fwd", "ln_bwd",
                 "mha_fwd", "mha_bwd", "flash_maxsumexp", "flash_softmax_gemm", "flash_backward",
                 "frob", "crossentropy", "opt_step", "snap", "relayout", "clear_all", "build"}
NetWrites(M, a) ==
  CASE a.op = "linear_fwd" -> LinearFwd(M, a)
    [] a.op = "linear_bwd" -> Acc(M, LinearBwd(M, a))
    [] a.op = "act_fwd" -> ActFwd(M, a)
    [] a.op = "act_bwd" -> Acc(M, ActBwd(M, a))
    [] a.op = "sum_fwd" -> AddFwd(M, a)
    [] a.op = "sum_bwd" -> Acc(M, AddBwd(M, a))
    [] a.op = "addslice_fwd" -> AddSliceFwd(M, a)
    [] a.op = "addslice_bwd" -> Acc(M, AddSliceBwd(M, a))
    [] a.op = "embed_fwd" -> EmbedFwd(M, a)
    [] a.op = "embed_bwd" -> Acc(M, EmbedBwd(M, a))
    [] a.op = "gap_fwd" -> GapFwd(M, a)
    [] a.op = "gap_bwd" -> Acc(M, GapBwd(M, a))
    [] a.op = "ln_fwd" -> LnFwd(M, a)
    [] a.op = "ln_bwd" -> Acc(M, LnBwd(M, a))
    [] a.op = "mha_fwd" -> MhaFwd(M, a)
    [] a.op = "mha_bwd" -> Acc(M, MhaBwd(M, a))
    [] a.op = "flash_maxsumexp" -> FlashMax(M, a)
    [] a.op = "flash_softmax_gemm" -> FlashOut(M, a)
    [] a.op = "flash_backward" -> FlashGrad(M, a)
    [] a.op = "frob" -> FrobCalc(M, a)
    [] a.op = "crossentropy" -> CrossCalc(M, a)
    [] a.op = "opt_step" -> OptStep(M, a)
    [] a.op = "snap" -> SnapAll(M, a)
    [] a.op = "relayout" -> Relayout(M, a)
    [] a.op = "clear_all" -> ClearAll(M, a)
    [] a.op = "build" -> <<>>

------------------------------------------------------------------------------
\* Memories.  Assign(m, W, e): the tensors in W (name -> values) assigned
Assign(m, W, e) == [f \in DOMAIN m |->
     IF f \in DOMAIN W THEN [m[f] EXCEPT !.val = W[f], !.ex = e] ELSE m[f]]
\* exactness of the results of a
IsExIn(m, a) == a.op \in ExactOps /\ \A f \in Operands(a) : m[f].ex

\* one request after another (a layer of layers, a model)
RECURSIVE Apply(_, _), Train(_, _)
Apply(m, a) ==
  IF a.op = "seq"
  THEN LET R[i \in 0..Len(a.ops)] == IF i = 0 THEN m ELSE TLCEval(Apply(R[i - 1], a.ops[i]))
       IN  R[Len(a.ops)]
  ELSE IF a.op = "train" THEN Train(m, a)
  ELSE IF a.op = "snap"
  THEN LET R[i \in 0..Len(a.prs)] == IF i = 0 THEN m
             ELSE [R[i - 1] EXCEPT ![a.prs[i][2]].val = m[a.prs[i][1]].val, ![a.prs[i][2]].ex = m[a.prs[i][1]].ex]
       IN  R[Len(a.prs)]
  ELSE IF a.op = "relayout"
  THEN LET W == Relayout(m, a)
       IN  Assign(m, W, m[a.x].ex /\ m[a.y].ex)
  ELSE Assign(m, IF a.op \in SimpleNetOps THEN NetWrites(m, a) ELSE Writes(m, a), IsExIn(m, a))

\* Training: for every epoch and batch, the gradient of the sum of losses over
\* the minibatches of the batch, then one step.  a.data[b][k] = <<x, y>>;
\* a.hist[n] receives the loss of the n-th batch.
Train(m, a) ==
  LET nb == Len(a.data)
      Mini(M0, xy) ==
        LET Z == [op |-> "clear_all", ts |-> a.agrads]
            I == [op |-> "snap", prs |-> << <<xy[1], a.x>>, <<xy[2], a.y>> >>]
        IN  Apply(M0, [op |-> "seq", ops |-> <<Z, I>> \o a.fwd \o <<a.loss>> \o a.bwd])
      Batch(M0, n) ==       \* n-th batch altogether (from 0)
        LET d == a.data[(n % nb) + 1]
            M1 == Apply(M0, [op |-> "clear_all", ts |-> a.pgrads \o <<a.val>>])
            R[k \in 0..Len(d)] == IF k = 0 THEN M1 ELSE TLCEval(Mini(R[k - 1], d[k]))
            M2 == R[Len(d)]
        IN  Apply(M2, [op |-> "seq", ops |-> << [op |-> "snap", prs |-> << <<a.val, a.hist[n + 1]>> >>], a.step>>])
      T[n \in 0..(a.epochs * nb)] == IF n = 0 THEN m ELSE TLCEval(Batch(T[n - 1], n - 1))
  IN  T[a.epochs * nb]

\* A network request is refused if types or shapes do not fit
NetTypesOk(M, a) == a.op \in SimpleNetOps \cup {"seq", "train"} \/ TypesOk(M, a)
\* Building a layer or a model makes tensors of its own and touches no other
Buildable(M, a) ==
  CASE a.cls = "linear" -> a.side \in {"L", "R"} /\ a.nd > 0 /\ (a.bias => Len(a.add) <= 1)
    [] a.cls = "act" -> a.f \in {"relu", "gelu", "gelutanh"}
    [] a.cls = "mixermlp" -> a.side \in {"L", "R"}
    [] a.cls = "embedding" -> (a.ytile % a.wtile) = 0
    [] a.cls \in {"attention", "flash"} ->
         /\ (M[a.q].shape[1] % a.heads) = 0
         /\ \A f \in {a.ks, a.vs} : \A i \in 2..3 : M[f].shape[i] = M[a.q].shape[i] /\ M[f].tile[i] = M[a.q].tile[i]
    [] a.cls = "deeprelu" -> a.side \in {"L", "R"} /\ a.nd > 0 /\ a.layers > 1
       \* the last layer returns to the nd dimensions of the input, with a bias
    [] a.cls = "deeplinear" -> a.side \in {"L", "R"} /\ a.nd = 1 /\ a.layers > 1
    [] a.cls = "mlpmixer" -> a.layers > 0
RECURSIVE NetValid(_, _)
NetValid(M, a) ==
  CASE a.op = "seq" -> \A i \in 1..Len(a.ops) : NetValid(M, a.ops[i])
    [] a.op = "build" -> Buildable(M, a)
    [] a.op \in SimpleNetOps \cup {"train"} -> TRUE
    [] OTHER -> Valid(M, a)
=============================================================================
