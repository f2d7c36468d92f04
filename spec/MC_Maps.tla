------------------------------- MODULE MC_Maps ------------------------------
(***************************************************************************)
(* Theorems of the models of the maps to curves (C16-C20): with accepted   *)
(* parameters they are total, land on the curve, take the sign of their    *)
(* argument, and agree with the equations that define them; and the        *)
(* straight-line programs of RFC 9380 (which the code follows) refine the  *)
(* definitions.                                                            *)
(***************************************************************************)
EXTENDS Toys
LOCAL INSTANCE Integers
CONSTANTS Primes, Kinds
VARIABLES c, z, u, st
vars == <<c, z, u, st>>
Init == /\ \E p \in Primes : c \in ToysOver(p, Kinds)
        /\ z = 0 /\ u = 0 /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ UNCHANGED c
        /\ z' \in F(c.p) /\ u' \in F(c.p)
Spec == Init /\ [][Next]_vars

p == c.p
W == c.kind = "w" /\ HasRoots(p)
M == c.kind = "m" /\ HasRoots(p)
SameSign(P) == P.y = 0 \/ FSgn(P.y) = FSgn(u)
Mirror(f(_)) == u # 0 => f(FNeg(p, u)).x = f(u).x /\ (f(u).y # 0 => f(FNeg(p, u)).y = FNeg(p, f(u).y))

SswuTotal == (W /\ SswuOk(c, z)) =>
  LET P == Sswu(c, z, u) IN OnCurve(c, P) /\ ~P.inf /\ SameSign(P) /\ Mirror(LAMBDA t : Sswu(c, z, t))
\* x1 and x2 = Z u^2 x1 satisfy g(x2) = Z^3 u^6 g(x1) away from the exceptional arguments
SswuIdentity == (W /\ SswuOk(c, z) /\ ~SswuExceptional(p, z, u)) =>
  LET zu2 == FMul(p, z, FSqr(p, u))
      x1  == FMul(p, FDiv(p, FNeg(p, c.b), c.a), FAdd(p, One, FInv(p, FAdd(p, FSqr(p, zu2), zu2))))
  IN WRhs(c, FMul(p, zu2, x1)) = FMul(p, FPow(p, zu2, 3), WRhs(c, x1))
SvdwTotal == (W /\ SvdwOk(c, z)) =>
  LET P == Svdw(c, z, u) IN OnCurve(c, P) /\ ~P.inf /\ SameSign(P)
\* one of the three candidates is always good
SvdwCandidate == (W /\ SvdwOk(c, z)) =>
  LET xs == SvdwCandidates(c, z, u) IN \E i \in 1 .. 3 : FIsSquare(p, WRhs(c, xs[i]))

Ell2Total == (M /\ Ell2Ok(c, z)) =>
  LET P == Ell2(c, z, u) IN OnCurve(c, P) /\ ~P.inf /\ Ell2(c, z, FNeg(p, u)) = P

\* ---- the straight-line programs
CMov(a, b, d) == IF d THEN b ELSE a
SswuProgram ==
  LET t1  == FMul(p, z, FSqr(p, u))
      t2  == FSqr(p, t1)
      i   == FInv(p, FAdd(p, t1, t2))
      e1  == i = 0
      x1  == FMul(p, CMov(FAdd(p, i, 1), FNeg(p, FInv(p, z)), e1), FMul(p, FNeg(p, c.b), FInv(p, c.a)))
      gx1 == FAdd(p, FMul(p, FAdd(p, FSqr(p, x1), c.a), x1), c.b)
      x2  == FMul(p, t1, x1)
      gx2 == FMul(p, gx1, FMul(p, t1, t2))
      e2  == FIsSquare(p, gx1)
      y0  == FRootSgn(p, CMov(gx2, gx1, e2), 1)
      e3  == FSgn(u) = FSgn(y0)
  IN Aff(CMov(x2, x1, e2), CMov(FNeg(p, y0), y0, e3))
SvdwProgram ==
  LET gz == WRhs(c, z)
      c1 == gz
      c2 == FMul(p, FNeg(p, z), FInv(p, 2))
      t0 == FAdd(p, 3 * z * z, 4 * c.a)
      c3 == FRootSgn(p, FMul(p, FNeg(p, gz), t0), 1)
      c4 == FMul(p, FMul(p, 4, FNeg(p, gz)), FInv(p, t0))
      t1 == FMul(p, FSqr(p, u), c1)
      t2 == FAdd(p, 1, t1)
      t1b == FSub(p, 1, t1)
      t3 == FInv(p, FMul(p, t1b, t2))
      t4 == FMul(p, FMul(p, FMul(p, u, t1b), t3), c3)
      x1 == FSub(p, c2, t4)
      e1 == FIsSquare(p, WRhs(c, x1))
      x2 == FAdd(p, c2, t4)
      e2 == FIsSquare(p, WRhs(c, x2)) /\ ~e1
      x3 == FAdd(p, FMul(p, FSqr(p, FMul(p, FSqr(p, t2), t3)), c4), z)
      x  == CMov(CMov(x3, x1, e1), x2, e2)
      y0 == FRootSgn(p, WRhs(c, x), 1)
  IN Aff(x, CMov(FNeg(p, y0), y0, FSgn(u) = FSgn(y0)))
Ell2Program ==
  LET ca == FMul(p, c.a, FInv(p, c.b))
      cb == FSqr(p, FInv(p, c.b))
      t0 == FMul(p, z, FSqr(p, u))
      t1 == CMov(t0, 0, t0 = p - 1)
      x1 == FMul(p, FNeg(p, ca), FInv(p, FAdd(p, t1, 1)))
      gx1 == FMul(p, FAdd(p, FMul(p, FAdd(p, x1, ca), x1), cb), x1)
      x2 == FSub(p, FNeg(p, x1), ca)
      gx2 == FMul(p, t1, gx1)
      e2 == FIsSquare(p, gx1)
      y0 == FRootSgn(p, CMov(gx2, gx1, e2), 1)
      e3 == FSgn(y0) = 1
  IN Aff(FMul(p, CMov(x2, x1, e2), c.b), FMul(p, CMov(FNeg(p, y0), y0, e2 # e3), c.b))
SswuRefines == (W /\ SswuOk(c, z)) => SswuProgram = Sswu(c, z, u)
SvdwRefines == (W /\ SvdwOk(c, z)) => SvdwProgram = Svdw(c, z, u)
Ell2Refines == (M /\ Ell2Ok(c, z)) => Ell2Program = Ell2(c, z, u)
=============================================================================
