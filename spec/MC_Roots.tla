------------------------------- MODULE MC_Roots -----------------------------
(***************************************************************************)
(* The root algorithms the library documents refine the abstract roots     *)
(* (C03, C07): exponentiation for p = 3 mod 4, the candidate corrected by  *)
(* a square root of -1 for p = 5 mod 8, and the algorithm for quadratic    *)
(* extensions; and inversion by exponentiation (C02).                      *)
(***************************************************************************)
EXTENDS QuadField
LOCAL INSTANCE Integers
CONSTANTS Primes, QPrimes
VARIABLES p, a, q, st
vars == <<p, a, q, st>>
Init == st = 0 /\ q \in BOOLEAN /\ p \in (IF q THEN QPrimes ELSE Primes) /\ a = <<0, 0>>
Next == st = 0 /\ st' = 1 /\ a' \in (0 .. p - 1) \X (IF q THEN 0 .. p - 1 ELSE {0}) /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars

SqrtM1 == LET t == FPow(p, 2, (p - 5) \div 8) IN FMul(p, FAdd(p, 2 * FSqr(p, t), 1), t)
FRootAlg(x) ==
  IF p % 4 = 3 THEN FPow(p, x, (p + 1) \div 4)
  ELSE LET t0 == FPow(p, x, (p - 5) \div 8 + 1)
       IN IF FSqr(p, t0) = x THEN t0 ELSE FMul(p, t0, SqrtM1)
QRootAlg(x) ==
  LET a1 == QPow(p, x, (p - 3) \div 4)
      x0 == QMul(p, a1, x)
      al == QMul(p, a1, x0)
      t  == QAdd(p, al, QOne)
  IN IF t = QZero THEN QMul(p, x0, <<0, 1>>) ELSE QMul(p, x0, QPow(p, t, (p - 1) \div 2))
RootFp  == (~q /\ HasRoots(p)) => (FIsSquare(p, a[1]) => FIsRoot(p, FRootAlg(a[1]), a[1]))
\* what the algorithm returns for a non-square is no root
NoRoot  == (~q /\ HasRoots(p) /\ ~FIsSquare(p, a[1])) => ~FIsRoot(p, FRootAlg(a[1]), a[1])
MinusOne == (~q /\ p % 8 = 5) => FSqr(p, SqrtM1) = p - 1
RootFp2 == q => (QIsSquare(p, a) => QIsRoot(p, QRootAlg(a), a))
Fermat  == ~q => FInv(p, a[1]) = PowMod(a[1], p - 2, p)
\* windows of 3 bits from the top, leading zeros included, compute the same power
RECURSIVE Windowed(_, _, _)
Windowed(x, e, n) ==                       \* the n lowest bits of e
  IF n = 0 THEN QOne
  ELSE LET h == Windowed(x, e \div 2, n - 1) s == QSqr(p, h) IN IF e % 2 = 1 THEN QMul(p, s, x) ELSE s
Window == (q /\ p <= 7) => \A e \in 0 .. 20 : Windowed(a, e, 6) = QPow(p, a, e)
=============================================================================
