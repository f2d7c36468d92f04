-------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Standard encodings of points: SEC 1 for Weierstrass and Montgomery      *)
(* points, RFC 8032 for Edwards points.                                    *)
(***************************************************************************)
EXTENDS Curves

EdSize(c) == (BitLen(c.p) + 8) \div 8

Encode(c, P, compress) ==
  IF c.kind = "e"
  THEN LET n == EdSize(c) s == BytesLE(P.y, n)
       IN [s EXCEPT ![n] = s[n] + (IF Odd(P.x) THEN 128 ELSE 0)]
  ELSE IF P.inf THEN <<0>>
  ELSE IF compress THEN <<IF Odd(P.y) THEN 3 ELSE 2>> \o FToBE(c.p, P.x)
  ELSE <<4>> \o FToBE(c.p, P.x) \o FToBE(c.p, P.y)

Bad    == [ok |-> FALSE]
Good(P) == [ok |-> TRUE, P |-> P]

\* The inverse of Encode, written as the decoder's decision procedure.
\* MC_Codec checks: Decode(s) = Good(P) iff s is one of P's encodings.
DecodeSec1(c, s) ==
  LET n == FSize(c.p) IN
  IF Len(s) = 1 THEN IF s[1] = 0 THEN Good(Inf) ELSE Bad
  ELSE IF Len(s) = n + 1 /\ s[1] \in {2, 3} THEN
    LET x == FromBE(Tail(s)) IN
    IF ~Less(x, c.p) THEN Bad
    ELSE LET rhs == IF c.kind = "w" THEN WRhs(c, x) ELSE MRhs(c, x) IN
         IF ~FIsSquare(c.p, rhs) THEN Bad
         ELSE IF rhs = Zero /\ s[1] = 3 THEN Bad
         ELSE Good(Aff(x, FRootSgn(c.p, rhs, IF s[1] = 2 THEN 1 ELSE 0 - 1)))
  ELSE IF Len(s) = 2 * n + 1 /\ s[1] = 4 THEN
    LET x == FromBE(SubSeq(s, 2, n + 1)) y == FromBE(SubSeq(s, n + 2, 2 * n + 1)) IN
    IF Less(x, c.p) /\ Less(y, c.p) /\ OnCurveXY(c, x, y) THEN Good(Aff(x, y)) ELSE Bad
  ELSE Bad

DecodeEd(c, s) ==
  LET n == EdSize(c) IN
  IF Len(s) # n THEN Bad ELSE
  LET sign == s[n] \div 128
      y    == FromLE([s EXCEPT ![n] = s[n] % 128]) IN
  IF ~Less(y, c.p) THEN Bad ELSE
  LET yy  == FSqr(c.p, y)
      den == FSub(c.p, FMul(c.p, c.d, yy), c.a)
      xx  == FDiv(c.p, FSub(c.p, yy, One), den) IN
  IF den = Zero \/ ~FIsSquare(c.p, xx) THEN Bad
  ELSE IF xx = Zero /\ sign = 1 THEN Bad
  ELSE Good(Aff(FRootSgn(c.p, xx, IF sign = 0 THEN 1 ELSE 0 - 1), y))

Decode(c, s) == IF c.kind = "e" THEN DecodeEd(c, s) ELSE DecodeSec1(c, s)
=============================================================================
