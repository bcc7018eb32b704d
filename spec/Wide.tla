--------------------------------- MODULE Wide ---------------------------------
(***************************************************************************)
(* Naturals beyond the machine integers of TLC: sequences of digits to the *)
(* base 10000, the lowest first, no zero at the end.  <<-1>> stands for    *)
(* any negative number.  With them the arithmetic of shapes (Tiling) is    *)
(* stated for extents whose products need 64 bits.  Quotients are not      *)
(* computed: a quotient is checked against the products that define it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
WB == 10000
WOk(a) == \A i \in 1..Len(a) : a[i] \in 0..(WB - 1)
WNorm(a) == IF a = <<>> THEN TRUE ELSE a[Len(a)] # 0
WIsNat(a) == WOk(a) /\ WNorm(a)
WOne == <<1>>
Dig(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
WMax(a, b) == IF a > b THEN a ELSE b
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > WMax(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % WB>> \o AddFrom(a, b, i + 1, s \div WB)
WAdd(a, b) == AddFrom(a, b, 1, 0)
\* a digit times a number
RECURSIVE MulDig(_, _, _, _)
MulDig(d, b, i, c) ==
  IF i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == d * b[i] + c IN <<s % WB>> \o MulDig(d, b, i + 1, s \div WB)
RECURSIVE WMul(_, _)
WMul(a, b) == IF a = <<>> THEN <<>> ELSE WAdd(Trim(MulDig(a[1], b, 1, 0)), Trim(<<0>> \o WMul(Tail(a), b)))
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
WLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, Len(a))
WLeq(a, b) == a = b \/ WLess(a, b)

\* ---- the arithmetic of shapes over these numbers
RECURSIVE WProd(_)
WProd(s) == IF s = <<>> THEN WOne ELSE WMul(s[1], WProd(Tail(s)))
RECURSIVE WRavel(_, _)
WRavel(ix, s) == IF s = <<>> THEN <<>> ELSE WAdd(ix[1], WMul(s[1], WRavel(Tail(ix), Tail(s))))
WInBox(ix, s) == Len(ix) = Len(s) /\ \A i \in 1..Len(s) : WIsNat(ix[i]) /\ WLess(ix[i], s[i])
WStride(s) == [i \in 1..Len(s) |-> WProd(SubSeq(s, 1, i - 1))]
\* g is the number of tiles of size t that cover n:  (g - 1) t < n <= g t
WCount(g, n, t) == WLeq(n, WMul(g, t)) /\ WLess(WMul(g, t), WAdd(n, t))
\* e is the extent of tile number k along a dimension of extent n
WExtent(e, n, t, k) ==
  LET end == WMul(WAdd(k, WOne), t)
  IN  IF WLeq(end, n) THEN e = t ELSE WAdd(e, WMul(k, t)) = n
WTile(e, sh, ti, k) == Len(e) = Len(sh) /\ \A i \in 1..Len(sh) : WExtent(e[i], sh[i], ti[i], k[i])
WTraits(o, sh, ti) ==
  LET d == Len(sh)
  IN  /\ o.ndim = d /\ o.sh = sh /\ o.ti = ti /\ o.n = WProd(sh) /\ o.stride = WStride(sh)
      /\ Len(o.grid) = d /\ \A i \in 1..d : WCount(o.grid[i], sh[i], ti[i])
      /\ o.gn = WProd(o.grid) /\ o.gstride = WStride(o.grid)
      /\ Len(o.left) = d /\ \A i \in 1..d : WAdd(o.left[i], WMul(o.grid[i], ti[i])) = WAdd(sh[i], ti[i])
      /\ o.ms = [i \in 1..(d + 1) |-> <<WProd(SubSeq(sh, 1, i - 1)), WProd(SubSeq(sh, i, d))>>]
\* the answer of a question; g is the grid (checked by WTraits)
WAnswer(f, sh, ti, g, ix, o) ==
  LET Lin(s) == IF WInBox(ix, s) THEN o.res = "ok" /\ o.r = <<WRavel(ix, s)>> ELSE o.res = "err"
      \* the index of a linear offset is the only one in range with that offset
      Mul(s) == IF WIsNat(ix[1]) /\ WLess(ix[1], WProd(s))
                THEN o.res = "ok" /\ WInBox(o.r, s) /\ WRavel(o.r, s) = ix[1] ELSE o.res = "err"
  IN  CASE f = 0 -> Lin(sh)
        [] f = 1 -> Mul(sh)
        [] f = 2 -> IF Len(ix) # Len(sh) THEN o.res = "err" ELSE o.res = "ok" /\ o.r = <<IF WInBox(ix, sh) THEN WOne ELSE <<>>>>
        [] f = 3 -> IF WInBox(ix, g) THEN o.res = "ok" /\ WTile(o.r, sh, ti, ix) ELSE o.res = "err"
        [] f = 4 -> Lin(g)
        [] f = 5 -> Mul(g)
=============================================================================
