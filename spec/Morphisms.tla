------------------------------ MODULE Morphisms -----------------------------
(***************************************************************************)
(* Rational maps and isogenies between curves.                             *)
(***************************************************************************)
EXTENDS HashMaps
LOCAL INSTANCE SequencesExt

(*---------- edwards25519 <-> curve25519 (RFC 7748, section 4.1) ----------*)
\* k: the square root of -(A+2)/B' that fixes the correspondence of generators
Push25519(p, k, P) ==
  IF P.x = Zero THEN IF P.y = One THEN Inf ELSE Aff(Zero, Zero)
  ELSE LET u == FDiv(p, FAdd(p, One, P.y), FSub(p, One, P.y))
       IN Aff(u, FDiv(p, FMul(p, k, u), P.x))
Pull25519(p, k, P) ==
  IF P.inf THEN Aff(Zero, One)
  ELSE IF P.y = Zero THEN Aff(Zero, FNeg(p, One))
  ELSE Aff(FDiv(p, FMul(p, k, P.x), P.y),
           FDiv(p, FSub(p, P.x, One), FAdd(p, P.x, One)))

(*------- edwards448 <-> curve448: 4-isogenies (RFC 7748, section 4.2) ----*)
Push448(p, P) ==
  IF P.x = Zero THEN Inf
  ELSE LET x2 == FSqr(p, P.x) y2 == FSqr(p, P.y)
       IN Aff(FDiv(p, y2, x2),
              FDiv(p, FMul(p, FSub(p, FSub(p, Two, x2), y2), P.y), FMul(p, P.x, x2)))
Pull448(p, P) ==
  IF P.inf \/ (P.x = Zero /\ P.y = Zero) THEN Aff(Zero, One)
  ELSE LET u == P.x v == P.y
           u2 == FSqr(p, u) u3 == FMul(p, u2, u) u4 == FSqr(p, u2) u5 == FMul(p, u4, u)
           v2 == FSqr(p, v)
           xn == FMul(p, Times(N(4), v), FSub(p, u2, One))
           xd == FAdd(p, Minus(u4, Times(Two, u2)), Plus(Times(N(4), v2), One))
           yn == FNeg(p, FAdd(p, Minus(u5, Times(Two, u3)), Minus(u, Times(N(4), Times(u, v2)))))
           yd == FAdd(p, Minus(u5, Times(Two, Times(u2, v2))),
                         Minus(u, Plus(Times(Two, u3), Times(Two, v2))))
       IN Aff(FDiv(p, xn, xd), FDiv(p, yn, yd))

(*----------------- isogenies given by rational functions -----------------*)
\* coefficients from the constant term up
Horner(p, co, x) == FoldLeft(LAMBDA acc, k : FAdd(p, Times(acc, x), k), Zero,
                             [i \in 1 .. Len(co) |-> co[Len(co) + 1 - i]])
IsoPush(p, iso, P) ==
  IF P.inf THEN Inf
  ELSE LET xd == Horner(p, iso.xd, P.x) yd == Horner(p, iso.yd, P.x)
       IN IF xd = Zero THEN Inf
          ELSE Aff(FDiv(p, Horner(p, iso.xn, P.x), xd),
                   FMul(p, P.y, FDiv(p, Horner(p, iso.yn, P.x), yd)))

\* An isogeny given by its finite table of images (toy curves)
TablePush(tab, P) ==
  IF \E i \in 1 .. Len(tab) : tab[i][1] = P
  THEN tab[CHOOSE i \in 1 .. Len(tab) : tab[i][1] = P][2]
  ELSE Inf

\* Velu's formulas for the quotient by <T>, T of odd order l on a curve of
\* kind "w": the codomain and the image of a point
RECURSIVE Multiples(_, _, _)
Multiples(c, T, Q) == IF Q.inf THEN << >> ELSE <<Q>> \o Multiples(c, T, Add(c, Q, T))
VeluPush(c, T, P) ==
  IF P.inf THEN Inf
  ELSE LET p == c.p ks == Multiples(c, T, T) IN
  IF \E i \in 1 .. Len(ks) : ks[i] = P THEN Inf
  ELSE LET dx(PP, Q) == FSub(p, Add(c, PP, Q).x, Q.x)
           dy(PP, Q) == FSub(p, Add(c, PP, Q).y, Q.y)
       IN Aff(FoldLeft(LAMBDA acc, Q : FAdd(p, acc, dx(P, Q)), P.x, ks),
              FoldLeft(LAMBDA acc, Q : FAdd(p, acc, dy(P, Q)), P.y, ks))
VeluCodomain(c, T) ==
  LET p  == c.p
      ks == Multiples(c, T, T)
      \* every pair {Q,-Q} is met twice, hence the halves
      v  == FMul(p, Half(p), FoldLeft(LAMBDA acc, Q : FAdd(p, acc,
              FMul(p, Two, Plus(Times(N(3), Times(Q.x, Q.x)), c.a))), Zero, ks))
      w  == FMul(p, Half(p), FoldLeft(LAMBDA acc, Q : FAdd(p, acc,
              Plus(Times(N(4), Times(Q.y, Q.y)),
                   Times(Q.x, Times(Two, Plus(Times(N(3), Times(Q.x, Q.x)), c.a))))), Zero, ks))
  IN [c EXCEPT !.a = FSub(p, c.a, Times(N(5), v)), !.b = FSub(p, c.b, Times(N(7), w))]
=============================================================================
