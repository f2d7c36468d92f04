------------------------------ MODULE HashMaps ------------------------------
(***************************************************************************)
(* Maps from field elements to curve points (RFC 9380, sections 6.6, 6.7), *)
(* written from their mathematical definitions, and the conditions under   *)
(* which their constructors accept parameters.                             *)
(***************************************************************************)
EXTENDS Codec

Half(p) == FInv(p, Two)

(*---------------------------- simplified SWU -----------------------------*)
SswuOk(c, z) ==
  LET p == c.p IN
  /\ c.a # Zero
  /\ c.b # Zero
  /\ ~FIsSquare(p, z)
  /\ z # FNeg(p, One)
  /\ FIsSquare(p, WRhs(c, FDiv(p, c.b, FMul(p, z, c.a))))

Sswu(c, z, u) ==
  LET p   == c.p
      zu2 == FMul(p, z, FSqr(p, u))
      den == FAdd(p, FSqr(p, zu2), zu2)              \* Z^2 u^4 + Z u^2
      x1  == IF den = Zero THEN FDiv(p, c.b, FMul(p, z, c.a))
             ELSE FMul(p, FDiv(p, FNeg(p, c.b), c.a), FAdd(p, One, FInv(p, den)))
      x2  == FMul(p, zu2, x1)
      x   == IF FIsSquare(p, WRhs(c, x1)) THEN x1 ELSE x2
  IN Aff(x, FRootSgn(p, WRhs(c, x), FSgn(u)))

\* the values of u whose image is exceptional
SswuExceptional(p, z, u) ==
  LET zu2 == FMul(p, z, FSqr(p, u)) IN FAdd(p, FSqr(p, zu2), zu2) = Zero

(*------------------------ Shallue - van de Woestijne ---------------------*)
SvdwT(c, z) == FAdd(c.p, Times(N(3), Times(z, z)), Times(N(4), c.a))   \* 3Z^2 + 4A
SvdwOk(c, z) ==
  LET p  == c.p
      gz == WRhs(c, z)
      t  == FDiv(p, FNeg(p, SvdwT(c, z)), FMul(p, N(4), gz))
  IN /\ gz # Zero
     /\ t # Zero
     /\ FIsSquare(p, t)
     /\ \/ FIsSquare(p, gz)
        \/ FIsSquare(p, WRhs(c, FMul(p, FNeg(p, z), Half(p))))

SvdwCandidates(c, z, u) ==
  LET p   == c.p
      gz  == WRhs(c, z)
      ugz == FMul(p, FSqr(p, u), gz)
      tv2 == FAdd(p, One, ugz)
      tv1 == FSub(p, One, ugz)
      tv3 == FInv(p, FMul(p, tv1, tv2))
      tv4 == FRootSgn(p, FMul(p, FNeg(p, gz), SvdwT(c, z)), 1)
      tv5 == FMul(p, FMul(p, u, tv1), FMul(p, tv3, tv4))
      tv6 == FDiv(p, FMul(p, FNeg(p, N(4)), gz), SvdwT(c, z))
      mzh == FMul(p, FNeg(p, z), Half(p))
      m3  == FMul(p, FSqr(p, tv2), tv3)
  IN << FSub(p, mzh, tv5), FAdd(p, mzh, tv5), FAdd(p, z, FMul(p, tv6, FSqr(p, m3))) >>

Svdw(c, z, u) ==
  LET p  == c.p
      xs == SvdwCandidates(c, z, u)
      x  == IF FIsSquare(p, WRhs(c, xs[1])) THEN xs[1]
            ELSE IF FIsSquare(p, WRhs(c, xs[2])) THEN xs[2]
            ELSE xs[3]
  IN Aff(x, FRootSgn(p, WRhs(c, x), FSgn(u)))

(*------------------------------- Elligator 2 -----------------------------*)
Ell2Ok(c, z) == c.a # Zero /\ c.b # Zero /\ ~FIsSquare(c.p, z)

\* on K t^2 = s^3 + J s^2 + s with J = a, K = b
Ell2(c, z, u) ==
  LET p  == c.p
      jk == FDiv(p, c.a, c.b)
      k2 == FSqr(p, FInv(p, c.b))
      g(x) == FMul(p, x, FAdd(p, FMul(p, x, FAdd(p, x, jk)), k2))
      d  == FAdd(p, One, FMul(p, z, FSqr(p, u)))
      x1 == IF d = Zero THEN FNeg(p, jk) ELSE FDiv(p, FNeg(p, jk), d)
      x2 == FSub(p, FNeg(p, x1), jk)
      sq == FIsSquare(p, g(x1))
      x  == IF sq THEN x1 ELSE x2
      y  == FRootSgn(p, g(x), IF sq THEN 0 - 1 ELSE 1)
  IN Aff(FMul(p, x, c.b), FMul(p, y, c.b))

(*--------------------- SSWU for curves with a or b zero -------------------*)
\* dom, cod: curves of the isogeny; c: the curve the map is asked for
AB0Ok(c, z, dom, cod) ==
  /\ c = cod
  /\ (c.a = Zero) # (c.b = Zero)
  /\ SswuOk(dom, z)
=============================================================================
