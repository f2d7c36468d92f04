---------------------------- MODULE MC_QuadField ----------------------------
(***************************************************************************)
(* Theorems of the model of quadratic extensions (C06, C07), by exhaustion.*)
(***************************************************************************)
EXTENDS QuadField
LOCAL INSTANCE Integers
CONSTANT Primes
VARIABLES p, a, b, c, st
vars == <<p, a, b, c, st>>
E(q) == (0 .. q - 1) \X (0 .. q - 1)
\* c stands for a third element only where there are few of them
Init == p \in Primes /\ a \in E(p) /\ b = QZero /\ c = QZero /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ UNCHANGED <<p, a>>
        /\ b' \in E(p)
        /\ c' \in (IF p <= 3 THEN E(p) ELSE {<<1, 0>>, <<2, p - 1>>, <<0, p - 2>>})
Spec == Init /\ [][Next]_vars

Ring ==
  /\ QAdd(p, a, b) = QAdd(p, b, a) /\ QMul(p, a, b) = QMul(p, b, a)
  /\ QAdd(p, QAdd(p, a, b), c) = QAdd(p, a, QAdd(p, b, c))
  /\ QMul(p, QMul(p, a, b), c) = QMul(p, a, QMul(p, b, c))
  /\ QMul(p, a, QAdd(p, b, c)) = QAdd(p, QMul(p, a, b), QMul(p, a, c))
  /\ QAdd(p, a, QZero) = a /\ QMul(p, a, QOne) = a /\ QAdd(p, a, QNeg(p, a)) = QZero
  /\ QSub(p, a, b) = QAdd(p, a, QNeg(p, b))
  /\ QMul(p, <<0, 1>>, <<0, 1>>) = QNeg(p, QOne)
  /\ QIsElt(p, QMul(p, a, b)) /\ QIsElt(p, QAdd(p, a, b)) /\ QIsElt(p, QNeg(p, a))
  \* no divisors of zero, since -1 is no square in Fp
  /\ (QMul(p, a, b) = QZero) => (a = QZero \/ b = QZero)
Inverse ==
  /\ QInv(p, QZero) = QZero /\ QDiv(p, a, QZero) = QZero
  /\ a # QZero => QMul(p, a, QInv(p, a)) = QOne
  /\ b # QZero => QMul(p, QDiv(p, a, b), b) = a
Embedding ==
  /\ QElt(p, a[1] - p) = <<a[1], 0>>
  /\ QMul(p, QElt(p, a[1]), QElt(p, b[1])) = QElt(p, a[1] * b[1])
  /\ QAdd(p, QElt(p, a[1]), QElt(p, b[1])) = QElt(p, a[1] + b[1])
Powers ==
  /\ QPow(p, a, 0) = QOne
  /\ \A e \in 0 .. 5 : QPow(p, a, e + 1) = QMul(p, QPow(p, a, e), a)
  /\ a # QZero => QPow(p, a, p * p - 1) = QOne /\ QPow(p, a, -2) = QInv(p, QSqr(p, a))
  /\ QPow(p, a, p) = <<a[1], FNeg(p, a[2])>>         \* Frobenius is conjugation
Squares ==
  /\ QIsSquare(p, QSqr(p, a))
  /\ (b = QZero /\ c = <<2, p - 1>>) => QIsSquare(p, a) = (\E y \in E(p) : QIsRoot(p, y, a))
Sign == a # QZero => QSgn(QNeg(p, a)) = 0 - QSgn(a)
Coding ==
  /\ QFromBE(p, QToBE(p, a)) = a /\ QFromLE(p, QToLE(p, a)) = a
  /\ Len(QToBE(p, a)) = QSize(p) /\ Len(QToLE(p, a)) = QSize(p)
=============================================================================
