------------------------------- MODULE FixMathPure -------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic used by all specifications.                 *)
(*                                                                         *)
(* A real x is represented by the integer nearest to x * S, S = 2^16.      *)
(* Three integers outside the range of data stand for NaN and infinities.  *)
(* Every operator is defined here in plain TLA+ over unbounded integers.   *)
(* TLC's integers have 32 bits, so for evaluation the operators are bound  *)
(* to spec/java/FixMath.java, which evaluates the same definitions on 64   *)
(* bits (module FixMathTest compares the two wherever 32 bits suffice).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

S    == 65536
One  == S
NaN  == -2147483647
PInf == 2147483647
NInf == -2147483646
Big  == 2147483646       \* magnitude outside the representable range
IsNum(a) == a > -2147483600 /\ a < 2147483600
IsInf(a) == a = PInf \/ a = NInf

Norm(a) == IF a >= 2147483600 \/ a <= -2147483600 THEN Big ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a

\* round(a*b/c), ties upwards; c > 0
MulDiv(a, b, c) == (2 * a * b + c) \div (2 * c)

FNeg(a) == IF a = NaN \/ a = Big THEN a ELSE IF a = PInf THEN NInf ELSE IF a = NInf THEN PInf ELSE -a
FAbs(a) == IF IsInf(a) THEN PInf ELSE IF ~IsNum(a) THEN a ELSE Abs(a)

FAdd(a, b) ==
  IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a = Big \/ b = Big THEN Big
  ELSE IF IsInf(a) THEN (IF IsInf(b) /\ b # a THEN NaN ELSE a)
  ELSE IF IsInf(b) THEN b
  ELSE Norm(a + b)
FSub(a, b) == FAdd(a, FNeg(b))

FMul(a, b) ==
  IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a = Big \/ b = Big THEN Big
  ELSE IF IsInf(a) \/ IsInf(b)
       THEN (IF a = 0 \/ b = 0 THEN NaN
             ELSE IF (a > 0) = (b > 0) THEN PInf ELSE NInf)
  ELSE Norm(MulDiv(a, b, S))

FDiv(a, b) ==
  IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a = Big \/ b = Big THEN Big
  ELSE IF IsInf(a) THEN (IF IsInf(b) THEN NaN ELSE IF (a > 0) = (b >= 0) THEN PInf ELSE NInf)
  ELSE IF IsInf(b) THEN 0
  ELSE IF b = 0 THEN (IF a = 0 THEN NaN ELSE IF a > 0 THEN PInf ELSE NInf)
  ELSE IF b > 0 THEN Norm(MulDiv(a, S, b)) ELSE Norm(MulDiv(-a, S, -b))

\* Integer square root of a*b (a, b >= 0), rounded to nearest
ISqrt(a, b) ==
  LET r == CHOOSE r \in 0..(a + b) : r * r <= a * b /\ (r + 1) * (r + 1) > a * b
  IN  IF a * b - r * r > r THEN r + 1 ELSE r
FSqrt(a) ==
  IF a = NaN \/ a = Big THEN a ELSE IF a = PInf THEN PInf
  ELSE IF a < 0 THEN NaN ELSE ISqrt(a, S)
\* sqrt(a^2 + b^2) scaled so that squares of data stay in range
FHypot(a, b) ==
  IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a = Big \/ b = Big THEN Big
  ELSE IF IsInf(a) \/ IsInf(b) THEN PInf
  ELSE Norm(ISqrt(a * a + b * b, 1))

Pow2(n) == IF n = 0 THEN 1 ELSE 2 ^ n
Ln2 == 45426             \* ln 2 * S

\* exp: range reduction x = n ln2 + r, Taylor polynomial in r (scale 2^24)
S24 == 16777216
Ln2S24 == 11629080
FExp(a) ==
  IF a = NaN \/ a = Big THEN a
  ELSE IF a = PInf THEN PInf
  ELSE IF a = NInf THEN 0
  ELSE IF a < -12 * S THEN 0
  ELSE IF a > 681500 THEN Big           \* exp(10.399) = 32827
  ELSE LET n == (a * 256) \div Ln2S24
           r == a * 256 - n * Ln2S24
           t1 == r
           t2 == MulDiv(t1, r, 2 * S24)
           t3 == MulDiv(t2, r, 3 * S24)
           t4 == MulDiv(t3, r, 4 * S24)
           t5 == MulDiv(t4, r, 5 * S24)
           t6 == MulDiv(t5, r, 6 * S24)
           t7 == MulDiv(t6, r, 7 * S24)
           t8 == MulDiv(t7, r, 8 * S24)
           p  == S24 + t1 + t2 + t3 + t4 + t5 + t6 + t7 + t8
       IN  IF n >= 0 THEN Norm(MulDiv(p, Pow2(n), 256)) ELSE MulDiv(p, 1, 256 * Pow2(-n))

\* natural logarithm: x = m 2^n with m in [1,2), ln m = 2 artanh((m-1)/(m+1))
RECURSIVE LogScale(_, _)
LogScale(m, n) == IF m >= 2 * S THEN LogScale((m + 1) \div 2, n + 1)
                  ELSE IF m < S THEN LogScale(2 * m, n - 1)
                  ELSE <<m, n>>
FLn(a) ==
  IF a = NaN \/ a = Big \/ a = PInf THEN a
  ELSE IF a = 0 THEN NInf
  ELSE IF a < 0 THEN NaN
  ELSE LET mn == LogScale(a, 0)
           m  == mn[1]
           u  == MulDiv(m - S, S24, m + S)
           u2 == MulDiv(u, u, S24)
           u3 == MulDiv(u, u2, S24)
           u5 == MulDiv(u3, u2, S24)
           u7 == MulDiv(u5, u2, S24)
           u9 == MulDiv(u7, u2, S24)
           u11 == MulDiv(u9, u2, S24)
           s  == u + MulDiv(u3, 1, 3) + MulDiv(u5, 1, 5) + MulDiv(u7, 1, 7)
                   + MulDiv(u9, 1, 9) + MulDiv(u11, 1, 11)
       IN  MulDiv(s, 2, 256) + mn[2] * Ln2

\* tanh by exponentials
FTanh(a) ==
  IF a = NaN \/ a = Big THEN a
  ELSE IF a > 8 * S THEN One ELSE IF a < -8 * S THEN -One
  ELSE IF a >= 0 THEN LET e == FExp(-2 * a) IN FDiv(One - e, One + e)
  ELSE LET e == FExp(2 * a) IN FDiv(e - One, One + e)

\* erf, Abramowitz-Stegun 7.1.26 (absolute error below 2e-7 plus rounding)
FErf(a) ==
  IF a = NaN \/ a = Big THEN a
  ELSE IF a > 4 * S THEN One ELSE IF a < -4 * S THEN -One
  ELSE LET x == Abs(a)
           t == MulDiv(S, S, S + MulDiv(21470, x, S))
           p1 == MulDiv(69561, t, S) - 95232
           p2 == MulDiv(p1, t, S) + 93155
           p3 == MulDiv(p2, t, S) - 18645
           p4 == MulDiv(p3, t, S) + 16700
           p5 == MulDiv(p4, t, S)
           y == S - MulDiv(p5, FExp(-MulDiv(x, x, S)), S)
       IN  IF a >= 0 THEN y ELSE -y

FMax(a, b) == IF a = NaN THEN b ELSE IF b = NaN THEN a
              ELSE IF a = Big \/ b = Big THEN Big
              ELSE IF a = NInf THEN b ELSE IF b = NInf THEN a ELSE IF a >= b THEN a ELSE b
\* a < b for data values (minus infinity is below everything)
FLt(a, b) == IF a = NInf THEN b # NInf /\ b # NaN
             ELSE IF b = NInf \/ a = NaN \/ b = NaN THEN FALSE ELSE a < b

\* sums and maxima of sequences
RECURSIVE FSum(_)
FSum(q) == IF q = <<>> THEN 0 ELSE FAdd(q[1], FSum([i \in 1..(Len(q) - 1) |-> q[i + 1]]))
RECURSIVE FMaxSeq(_)
FMaxSeq(q) == IF q = <<>> THEN NInf ELSE FMax(q[1], FMaxSeq([i \in 1..(Len(q) - 1) |-> q[i + 1]]))

RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN One ELSE FMul(IPow(a, n - 1), a)
\* a^e for fixed-point e: integers exactly, otherwise through exp/ln
FPow(a, e) ==
  IF e % S = 0
  THEN (IF e >= 0 THEN IPow(a, e \div S) ELSE FDiv(One, IPow(a, (-e) \div S)))
  ELSE IF a = 0 THEN (IF e > 0 THEN 0 ELSE PInf)
  ELSE FExp(FMul(e, FLn(a)))

\* observed value a is within tol + |b| * 2^-rel of the expected value b
\* (not-a-number and infinities only match themselves; an expected value out of
\* the representable range says nothing)
Close(a, b, tol, rel) ==
  IF b = Big THEN TRUE
  ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN a = b
  ELSE LET d == a - b
           ad == IF d < 0 THEN -d ELSE d
       IN  ad <= tol + (IF rel = 0 THEN 0 ELSE Abs(b) \div Pow2(rel))
AllClose(q, r, tol, rel) == \A p \in 1..Len(q) : Close(q[p], r[p], tol, rel)
=============================================================================
