----------------------------- MODULE QuadField ------------------------------
(***************************************************************************)
(* The quadratic extension Fp[i]/(i^2+1), p = 3 mod 4.  An element is the  *)
(* pair <<a0, a1>> standing for a0 + a1*i.                                 *)
(***************************************************************************)
EXTENDS PrimeField
LOCAL INSTANCE SequencesExt

QZero == <<Zero, Zero>>
QOne  == <<One, Zero>>
QElt(p, n) == <<FRed(p, n), Zero>>
QIsElt(p, a)  == IsElt(p, a[1]) /\ IsElt(p, a[2])
QAdd(p, a, b) == <<FAdd(p, a[1], b[1]), FAdd(p, a[2], b[2])>>
QSub(p, a, b) == <<FSub(p, a[1], b[1]), FSub(p, a[2], b[2])>>
QNeg(p, a)    == <<FNeg(p, a[1]), FNeg(p, a[2])>>
QMul(p, a, b) == <<FSub(p, Times(a[1], b[1]), Times(a[2], b[2])),
                   FAdd(p, Times(a[1], b[2]), Times(a[2], b[1]))>>
QSqr(p, a)    == QMul(p, a, a)
QNorm(p, a)   == FAdd(p, Times(a[1], a[1]), Times(a[2], a[2]))
QInv(p, a)    == LET d == FInv(p, QNorm(p, a))
                 IN <<FMul(p, a[1], d), FMul(p, FNeg(p, a[2]), d)>>
QDiv(p, a, b) == QMul(p, a, QInv(p, b))

\* most significant bit first
BitsMSB(e) == LET l == BitLen(e) IN [i \in 1 .. l |-> Bit(e, l - i)]
BitsLSB(e) == LET l == BitLen(e) IN [i \in 1 .. l |-> Bit(e, i - 1)]

QPowNat(p, a, e) ==
  FoldLeft(LAMBDA acc, bit : IF bit = 1 THEN QMul(p, QSqr(p, acc), a) ELSE QSqr(p, acc),
           QOne, BitsMSB(e))
QPow(p, a, e) == IF Less(e, Zero) THEN QPowNat(p, QInv(p, a), Minus(Zero, e))
                 ELSE QPowNat(p, a, e)

\* a is a square in the extension iff its norm is a square in Fp
\* (MC_QuadField checks this against the definition by exhaustion)
QIsSquare(p, a)  == FIsSquare(p, QNorm(p, a))
QIsRoot(p, y, a) == QIsElt(p, y) /\ QSqr(p, y) = a
QSgn(a) == IF a[1] = Zero THEN FSgn(a[2]) ELSE FSgn(a[1])

QSize(p)      == 2 * FSize(p)
QToBE(p, a)   == FToBE(p, a[1]) \o FToBE(p, a[2])
QToLE(p, a)   == FToLE(p, a[1]) \o FToLE(p, a[2])
QFromBE(p, s) == LET n == FSize(p)
                 IN <<FFromBE(p, SubSeq(s, 1, n)), FFromBE(p, SubSeq(s, n + 1, 2 * n))>>
QFromLE(p, s) == LET n == FSize(p)
                 IN <<FFromLE(p, SubSeq(s, 1, n)), FFromLE(p, SubSeq(s, n + 1, 2 * n))>>
=============================================================================
