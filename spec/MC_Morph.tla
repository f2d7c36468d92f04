------------------------------- MODULE MC_Morph -----------------------------
(***************************************************************************)
(* Theorems of the models of the morphisms (C21-C23) over small fields:    *)
(* the formulas behind the named maps are homomorphisms into the other     *)
(* curve for every curve of their family, including all exceptional        *)
(* points, and push and pull compose as stated.                            *)
(***************************************************************************)
EXTENDS Toys
LOCAL INSTANCE Integers
CONSTANTS Primes25519, Primes448, PrimesVelu
VARIABLES how, c, e, k, P, Q, st
vars == <<how, c, e, k, P, Q, st>>

\* Montgomery curve, Edwards curve and constant of the birational map of 25519:
\* -x^2 + y^2 = 1 + d x^2 y^2 with d = (2 - A)/(2 + A), k^2 = -(A + 2)/B
Bir(p) == {t \in {<<m, ToyCurve("e", p, p - 1, 0, FDiv(p, FSub(p, 2, m.a), FAdd(p, 2, m.a)), 0), kk>> :
                   m \in {mm \in MontgomeryOver(p) : mm.b = 1}, kk \in F(p)} :
             /\ FSqr(p, t[3]) = FNeg(p, FAdd(p, t[1].a, 2))
             /\ FIsSquare(p, p - 1) /\ Nonsingular(t[2]) /\ ~FIsSquare(p, t[2].d)}
\* x^2 + y^2 = 1 + d x^2 y^2 and v^2 = u^3 + (2 - 4d) u^2 + u
Iso4(p) == {<<ToyCurve("m", p, FSub(p, 2, 4 * d), 1, 0, 0), ToyCurve("e", p, 1, 0, d, 0), 0>> :
              d \in {x \in F(p) : ~FIsSquare(p, x)}}

Init == /\ P = Inf /\ Q = Inf /\ st = 0
        /\ \/ how = "25519" /\ \E p \in Primes25519 : \E t \in Bir(p) : c = t[1] /\ e = t[2] /\ k = t[3]
           \/ how = "448" /\ \E p \in Primes448 : \E t \in Iso4(p) : c = t[1] /\ e = t[2] /\ k = t[3]
           \/ how = "velu" /\ \E p \in PrimesVelu : \E w \in WeierstrassOver(p) : \E T \in PtSet(w) :
                 /\ ~T.inf /\ Len(Multiples(w, T, T)) % 2 = 0    \* odd order
                 /\ c = VeluCodomain(w, T) /\ e = w /\ k = T
\* P, Q range over the domain e, or over the codomain c for the pull
Next == /\ st = 0 /\ st' \in (IF how = "velu" THEN {1} ELSE {1, 2}) /\ UNCHANGED <<how, c, e, k>>
        /\ IF st' = 1 THEN P' \in PtSet(e) /\ Q' \in PtSet(e) ELSE P' \in PtSet(c) /\ Q' \in PtSet(c)
Spec == Init /\ [][Next]_vars

Push(X) == CASE how = "25519" -> Push25519(c.p, k, X) [] how = "448" -> Push448(c.p, X) [] how = "velu" -> VeluPush(e, k, X)
Pull(X) == IF how = "25519" THEN Pull25519(c.p, k, X) ELSE Pull448(c.p, X)
Codomains == Nonsingular(c) /\ Nonsingular(e)
PushIsHom == st = 1 =>
  /\ OnCurve(c, Push(P)) /\ Push(Id(e)) = Id(c)
  /\ Push(Add(e, P, Q)) = Add(c, Push(P), Push(Q)) /\ Push(Neg(e, P)) = Neg(c, Push(P))
PullIsHom == st = 2 =>
  /\ OnCurve(e, Pull(P)) /\ Pull(Id(c)) = Id(e)
  /\ Pull(Add(c, P, Q)) = Add(e, Pull(P), Pull(Q)) /\ Pull(Neg(c, P)) = Neg(e, Pull(P))
Compose ==
  /\ st = 1 => CASE how = "25519" -> Pull(Push(P)) = P [] how = "448" -> Pull(Push(P)) = Mul(e, 4, P) [] OTHER -> TRUE
  /\ st = 2 => CASE how = "25519" -> Push(Pull(P)) = P [] how = "448" -> Push(Pull(P)) = Mul(c, 4, P) [] OTHER -> TRUE
\* the quotient identifies exactly the multiples of T
Kernel == (how = "velu" /\ st = 1) =>
  (Push(P) = Push(Q)) = (P = Q \/ \E i \in 1 .. Len(Multiples(e, k, k)) : Add(e, Q, Multiples(e, k, k)[i]) = P)
=============================================================================
