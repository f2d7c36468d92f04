------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* The groups of points of the three curve models.                         *)
(*   kind "w":  y^2 = x^3 + a x + b                                        *)
(*   kind "m":  b y^2 = x^3 + a x^2 + x        (s: auxiliary constant)     *)
(*   kind "e":  a x^2 + y^2 = 1 + d x^2 y^2                                *)
(* A curve is a record with fields kind, p, a, b, d, s, r, h, gx, gy       *)
(* (unused ones 0).  An abstract point is [inf, x, y]; the identity is     *)
(* [inf |-> TRUE, x |-> 0, y |-> 0] for "w" and "m", and the affine        *)
(* point (0,1) for "e".                                                    *)
(* The code never stores abstract points: it stores projective (X:Y:Z) or  *)
(* extended (X:Y:T:Z) coordinates.  ValidRep / AbsOf / RepOf relate the    *)
(* two.                                                                    *)
(***************************************************************************)
EXTENDS QuadField
LOCAL INSTANCE SequencesExt

Aff(x, y) == [inf |-> FALSE, x |-> x, y |-> y]
Inf       == [inf |-> TRUE, x |-> Zero, y |-> Zero]
Id(c)     == IF c.kind = "e" THEN Aff(Zero, One) ELSE Inf

\* right-hand side x^3+ax+b of a Weierstrass curve
WRhs(c, x) == FAdd(c.p, FMul(c.p, x, FAdd(c.p, FSqr(c.p, x), c.a)), c.b)
\* (x^3+ax^2+x)/b of a Montgomery curve
MRhs(c, x) == FDiv(c.p, FMul(c.p, x, FAdd(c.p, FMul(c.p, x, FAdd(c.p, x, c.a)), One)), c.b)

OnCurveXY(c, x, y) ==
  LET p == c.p IN
  CASE c.kind = "w" -> FSqr(p, y) = WRhs(c, x)
    [] c.kind = "m" -> FSqr(p, y) = MRhs(c, x)
    [] c.kind = "e" -> FAdd(p, FMul(p, c.a, FSqr(p, x)), FSqr(p, y))
                         = FAdd(p, One, FMul(p, c.d, FMul(p, FSqr(p, x), FSqr(p, y))))
OnCurve(c, P) == \/ P.inf /\ c.kind # "e"
                 \/ ~P.inf /\ IsElt(c.p, P.x) /\ IsElt(c.p, P.y) /\ OnCurveXY(c, P.x, P.y)

Gen(c) == Aff(c.gx, c.gy)

Neg(c, P) == IF P.inf THEN P
             ELSE IF c.kind = "e" THEN Aff(FNeg(c.p, P.x), P.y)
             ELSE Aff(P.x, FNeg(c.p, P.y))

\* chord and tangent
ChordAdd(c, P, Q) ==
  LET p == c.p IN
  IF P.inf THEN Q
  ELSE IF Q.inf THEN P
  ELSE IF P.x = Q.x /\ FAdd(p, P.y, Q.y) = Zero THEN Inf
  ELSE LET lam == IF P.x = Q.x
                  THEN IF c.kind = "w"
                       THEN FDiv(p, Plus(Times(N(3), Times(P.x, P.x)), c.a), Times(Two, P.y))
                       ELSE FDiv(p, Plus(Plus(Times(N(3), Times(P.x, P.x)), Times(Two, Times(c.a, P.x))), One),
                                    Times(Two, Times(c.b, P.y)))
                  ELSE FDiv(p, Minus(Q.y, P.y), Minus(Q.x, P.x))
           l2  == Times(lam, lam)
           x3  == IF c.kind = "w" THEN FSub(p, l2, Plus(P.x, Q.x))
                  ELSE FSub(p, Times(c.b, l2), Plus(c.a, Plus(P.x, Q.x)))
           y3  == FSub(p, Times(lam, Minus(P.x, x3)), P.y)
       IN Aff(x3, y3)

EdAdd(c, P, Q) ==
  LET p  == c.p
      m  == FMul(p, Times(c.d, Times(P.x, Q.x)), Times(P.y, Q.y))
      x3 == FDiv(p, Plus(Times(P.x, Q.y), Times(P.y, Q.x)), Plus(One, m))
      y3 == FDiv(p, Minus(Times(P.y, Q.y), Times(c.a, Times(P.x, Q.x))), Minus(One, m))
  IN Aff(x3, y3)

Add(c, P, Q) == IF c.kind = "e" THEN EdAdd(c, P, Q) ELSE ChordAdd(c, P, Q)
Sub(c, P, Q) == Add(c, P, Neg(c, Q))

\* k*P by definition ...
RECURSIVE NTimes(_, _, _)
NTimes(c, k, P) == IF k = 0 THEN Id(c) ELSE Add(c, NTimes(c, k - 1, P), P)
\* ... and as evaluated for large k (MC_Groups checks that they agree)
Mul(c, k, P) ==
  FoldLeft(LAMBDA acc, bit : LET dd == Add(c, acc, acc)
                             IN IF bit = 1 THEN Add(c, dd, P) ELSE dd,
           Id(c), BitsMSB(k))

(*------------------------------ preconditions ----------------------------*)
\* what the library requires of curve parameters (p an odd prime > 3)
Nonsingular(c) ==
  LET p == c.p IN
  CASE c.kind = "w" -> FAdd(p, Times(N(4), Times(c.a, Times(c.a, c.a))), Times(N(27), Times(c.b, c.b))) # Zero
    [] c.kind = "m" -> c.b # Zero /\ FSqr(p, c.a) # FRed(p, N(4))
    [] c.kind = "e" -> c.a # Zero /\ c.d # Zero /\ c.a # c.d

(*---------------------------- representations ----------------------------*)
\* o has fields x, y, z (and t for Edwards)
ValidRep(c, o) ==
  LET p == c.p IN
  /\ IsElt(p, o.x) /\ IsElt(p, o.y) /\ IsElt(p, o.z)
  /\ IF c.kind = "e"
     THEN /\ IsElt(p, o.t)
          /\ o.z # Zero
          /\ FMul(p, o.x, o.y) = FMul(p, o.t, o.z)
          /\ LET x2 == FSqr(p, o.x) y2 == FSqr(p, o.y) z2 == FSqr(p, o.z) t2 == FSqr(p, o.t)
             IN FAdd(p, FMul(p, c.a, x2), y2) = FAdd(p, z2, FMul(p, c.d, t2))
     ELSE IF o.z = Zero THEN o.x = Zero /\ o.y # Zero
     ELSE IF c.kind = "w"
     THEN FMul(p, FSqr(p, o.y), o.z)
            = FAdd(p, FMul(p, o.x, FAdd(p, FSqr(p, o.x), FMul(p, c.a, FSqr(p, o.z)))),
                      FMul(p, c.b, FMul(p, o.z, FSqr(p, o.z))))
     ELSE FMul(p, c.b, FMul(p, FSqr(p, o.y), o.z))
            = FMul(p, o.x, FAdd(p, FAdd(p, FSqr(p, o.x), FMul(p, c.a, FMul(p, o.x, o.z))), FSqr(p, o.z)))
AbsOf(c, o) == IF o.z = Zero THEN Inf
               ELSE LET i == FInv(c.p, o.z) IN Aff(FMul(c.p, o.x, i), FMul(c.p, o.y, i))
\* o represents the abstract point P
Represents(c, o, P) ==
  LET p == c.p IN
  IF P.inf THEN o.x = Zero /\ o.z = Zero /\ o.y # Zero
  ELSE o.z # Zero /\ o.x = FMul(p, P.x, o.z) /\ o.y = FMul(p, P.y, o.z)
=============================================================================
