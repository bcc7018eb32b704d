----------------------------- MODULE FixMathTest -----------------------------
(***************************************************************************)
(* The number domain itself.                                               *)
(*  - P is FixMath evaluated by TLC from its TLA+ definitions (module      *)
(*    FixMathPure is FixMath under another name, so that the Java binding  *)
(*    does not apply to it); the two have to agree wherever 32 bits do.    *)
(*  - the operators satisfy the laws of the real functions they stand for. *)
(* A state is a pair of sample points.                                     *)
(***************************************************************************)
EXTENDS FixMath
P == INSTANCE FixMathPure
CONSTANTS N
VARIABLES a, b

\* sample points: small, around one, large, special
Special == {NaN, PInf, NInf, 0, 1, -1, One, -One, Big}
Pts == {(i * i * i * 37 + i * 11) : i \in (-N)..N}
Init == a \in Pts \cup Special /\ b \in Pts \cup Special
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Small(x) == IsNum(x) /\ x > -32000 /\ x < 32000
Tiny(x) == IsNum(x) /\ x > -700 /\ x < 700
Ok(x) == ~IsNum(x) \/ Small(x)
SameArith ==
  /\ FNeg(a) = P!FNeg(a) /\ FMax(a, b) = P!FMax(a, b) /\ FLt(a, b) = P!FLt(a, b) /\ FAbs(a) = P!FAbs(a)
  /\ (Ok(a) /\ Ok(b)) => FAdd(a, b) = P!FAdd(a, b) /\ FSub(a, b) = P!FSub(a, b) /\ FMul(a, b) = P!FMul(a, b)
  /\ (Ok(a) /\ Ok(b) /\ Small(a \div 2)) => FDiv(a \div 2, b) = P!FDiv(a \div 2, b)
  /\ (Ok(a) /\ Ok(b)) => FSum(<<a, b, a>>) = P!FSum(<<a, b, a>>) /\ FMaxSeq(<<a, b, a>>) = P!FMaxSeq(<<a, b, a>>)
  /\ \A t \in {0, 3}, r \in {0, 4} : Close(a, b, t, r) = P!Close(a, b, t, r)
SameRoot == Tiny(a) /\ Tiny(b) => FHypot(a \div 8, b \div 8) = P!FHypot(a \div 8, b \div 8)
Within(x, y, d) == Close(x, y, d, 9)
Mid(x) == IsNum(x) /\ x > -5 * S /\ x < 5 * S
\* an operand small enough for relative precision of its exponent or logarithm
Laws ==
  /\ (Mid(a) /\ Mid(b)) => /\ FMul(a, b) = FMul(b, a) /\ FAdd(a, b) = FAdd(b, a)
                           /\ (Abs(b) > S \div 8 => Within(FMul(FDiv(a, b), b), a, 40))
                           /\ FHypot(a, b) = FHypot(FNeg(b), a)
                           /\ Within(FSqrt(FAdd(FMul(a, a), FMul(b, b))), FHypot(a, b), 400)
                           /\ (Abs(a) + Abs(b) < 5 * S => Within(FMul(FExp(a), FExp(b)), FExp(FAdd(a, b)), 200))
                           /\ (a < b => FExp(a) <= FExp(b) /\ FTanh(a) <= FTanh(b) /\ FErf(a) <= FErf(b) + 8)
  /\ Mid(a) => /\ Within(FLn(FExp(a)), a, IF a < -2 * S THEN 2000 ELSE 60)
               /\ FTanh(FNeg(a)) = -FTanh(a) /\ Close(FErf(FNeg(a)), -FErf(a), 8, 0)
               /\ Within(FSqrt(FMul(a, a)), Abs(a), 300)
               /\ (a > S \div 16 => Within(FPow(a, S \div 2), FSqrt(a), 60) /\ Within(FPow(a, 3 * S), FMul(a, FMul(a, a)), 60) /\ Within(FPow(a, -S), FDiv(One, a), 60))
\* known values, in 2^-16
Points ==
  /\ Within(FExp(One), 178145, 3) /\ Within(FExp(-One), 24109, 3) /\ FExp(0) = One /\ FExp(NInf) = 0
  /\ Within(FLn(2 * S), 45426, 3) /\ Within(FLn(10 * S), 150902, 5) /\ FLn(One) = 0
  /\ Within(FTanh(One), 49912, 4) /\ Within(FErf(One), 55227, 4) /\ Within(FErf(S \div 2), 34112, 4) /\ Within(FSqrt(2 * S), 92682, 2)
  /\ FDiv(One, 0) = PInf /\ FDiv(0, 0) = NaN /\ FMul(PInf, 0) = NaN /\ FAdd(PInf, NInf) = NaN
=============================================================================
