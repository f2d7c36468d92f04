------------------------------ MODULE MC_Field ------------------------------
(***************************************************************************)
(* Theorems of the field model (C01-C05, C08), by exhaustion over small    *)
(* primes: the ring laws, inverses, powers, roots, signs, conversions.     *)
(***************************************************************************)
EXTENDS PrimeField
LOCAL INSTANCE Integers
CONSTANT Primes
VARIABLES p, a, b, c, st
vars == <<p, a, b, c, st>>
Init == p \in Primes /\ a \in 0 .. p - 1 /\ b = 0 /\ c = 0 /\ st = 0
Next == st = 0 /\ st' = 1 /\ b' \in 0 .. p - 1 /\ c' \in 0 .. p - 1 /\ UNCHANGED <<p, a>>
Spec == Init /\ [][Next]_vars

Closed == \A x \in {FAdd(p, a, b), FSub(p, a, b), FMul(p, a, b), FNeg(p, a), FInv(p, a), FDiv(p, a, b), FSqr(p, a), FRed(p, a - b * c)} : IsElt(p, x)
Ring ==
  /\ FAdd(p, a, b) = FAdd(p, b, a) /\ FMul(p, a, b) = FMul(p, b, a)
  /\ FAdd(p, FAdd(p, a, b), c) = FAdd(p, a, FAdd(p, b, c))
  /\ FMul(p, FMul(p, a, b), c) = FMul(p, a, FMul(p, b, c))
  /\ FMul(p, a, FAdd(p, b, c)) = FAdd(p, FMul(p, a, b), FMul(p, a, c))
  /\ FAdd(p, a, Zero) = a /\ FMul(p, a, One) = a /\ FAdd(p, a, FNeg(p, a)) = Zero
  /\ FSub(p, a, b) = FAdd(p, a, FNeg(p, b)) /\ FSub(p, FAdd(p, a, b), b) = a
\* reduction is a homomorphism from the integers, also for negative ones
Reduction ==
  LET m == a - c * p n == b * p - c IN
  /\ FRed(p, m + n) = FAdd(p, FRed(p, m), FRed(p, n))
  /\ FRed(p, m * n) = FMul(p, FRed(p, m), FRed(p, n))
  /\ FRed(p, m) = FRed(p, m + p)
Inverse ==
  /\ FInv(p, Zero) = Zero
  /\ a # Zero => FMul(p, a, FInv(p, a)) = One /\ FInv(p, FInv(p, a)) = a /\ FInv(p, a) = FPow(p, a, p - 2)
  /\ b # Zero => FMul(p, FDiv(p, a, b), b) = a
  /\ FDiv(p, a, Zero) = Zero
Powers ==
  \A e \in -3 .. 5 :
  /\ FPow(p, a, 0) = One
  /\ FPow(p, a, e + 1) = (IF e = -1 THEN One ELSE FMul(p, FPow(p, a, e), a)) \/ (a = Zero /\ e < 0)
  /\ a # Zero => FPow(p, a, e + p - 1) = FPow(p, a, e) /\ FPow(p, a, 0 - e) = FInv(p, FPow(p, a, e))
  /\ FPow(p, FMul(p, a, b), e) = FMul(p, FPow(p, a, e), FPow(p, b, e))
  /\ FPow(p, a, c) = FPow(p, a, c + (p - 1) * b) \/ a = Zero
Squares ==
  /\ FIsSquare(p, a) = (\E y \in 0 .. p - 1 : FIsRoot(p, y, a))
  /\ FIsSquare(p, a) = (FPow(p, a, (p - 1) \div 2) \in {Zero, One})
  /\ FIsSquare(p, FSqr(p, a))
  /\ (a # Zero /\ b # Zero) => (FIsSquare(p, FMul(p, a, b)) = (FIsSquare(p, a) = FIsSquare(p, b)))
  /\ (FIsSquare(p, a) /\ a # Zero) =>
       \A sg \in {1, -1} : FIsRoot(p, FRootSgn(p, a, sg), a) /\ FSgn(FRootSgn(p, a, sg)) = sg
  /\ FRootSgn(p, Zero, 1) = Zero /\ FRootSgn(p, Zero, -1) = Zero
Sign == a # Zero => FSgn(FNeg(p, a)) = 0 - FSgn(a)
Coding ==
  /\ FFromBE(p, FToBE(p, a)) = a /\ FFromLE(p, FToLE(p, a)) = a
  /\ Len(FToBE(p, a)) = FSize(p)
  /\ FFromBE(p, <<b, c>>) = FRed(p, 256 * b + c) /\ FFromLE(p, <<b, c>>) = FRed(p, 256 * c + b)
  /\ FFromBE(p, <<0>> \o FToBE(p, a)) = a /\ FFromLE(p, FToLE(p, a) \o <<0>>) = a
\* numeric text in every radix
Dig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Text ==
  LET n == 16 * a + (b % 16) IN
  /\ ParseText(<<48, 120, Dig(a % 16), Dig(b % 16)>>) = 16 * (a % 16) + (b % 16)
  /\ ParseText(<<45, 48, 120, Dig(a % 16), Dig(b % 16)>>) = 0 - (16 * (a % 16) + (b % 16))
  /\ ParseText(<<48, 111, Dig(a % 8), Dig(b % 8)>>) = 8 * (a % 8) + (b % 8)
  /\ ParseText(<<48, 98, Dig(a % 2), Dig(b % 2), Dig(c % 2)>>) = 4 * (a % 2) + 2 * (b % 2) + (c % 2)
  /\ ParseText(<<Dig(a % 10), Dig(b % 10)>>) = 10 * (a % 10) + (b % 10)
  /\ ParseText(<<45, Dig(a % 10), Dig(b % 10)>>) = 0 - (10 * (a % 10) + (b % 10))
  /\ ParseText(<< >>) = 0
=============================================================================
