------------------------------ MODULE MC_Groups -----------------------------
(***************************************************************************)
(* Theorems of the model of the groups (C09-C14, C24), by exhaustion over  *)
(* all curves of the three kinds over small fields: abelian groups,        *)
(* multiples, the projective representations.                              *)
(***************************************************************************)
EXTENDS Toys
LOCAL INSTANCE Integers
LOCAL INSTANCE FiniteSets
CONSTANTS Primes, Kinds
VARIABLES c, pts, P, Q, R, st
vars == <<c, pts, P, Q, R, st>>
Init == /\ \E p \in Primes : c \in ToysOver(p, Kinds)
        /\ pts = PtSet(c)
        /\ P = Id(c) /\ Q = Id(c) /\ R = Id(c) /\ st = 0
Next == /\ st = 0 /\ st' = 1 /\ UNCHANGED <<c, pts>>
        /\ P' \in pts /\ Q' \in pts /\ R' \in pts
Spec == Init /\ [][Next]_vars

Group ==
  /\ Id(c) \in pts
  /\ Add(c, P, Q) \in pts /\ Neg(c, P) \in pts
  /\ Add(c, P, Q) = Add(c, Q, P)
  /\ Add(c, Add(c, P, Q), R) = Add(c, P, Add(c, Q, R))
  /\ Add(c, P, Id(c)) = P /\ Add(c, P, Neg(c, P)) = Id(c) /\ Neg(c, Neg(c, P)) = P
  /\ Sub(c, Add(c, P, Q), Q) = P
  /\ \A X \in pts : OnCurve(c, X)
Scalars == (Q = Id(c) /\ R = Id(c)) =>
  /\ \A k \in 0 .. 8 : Mul(c, k, P) = NTimes(c, k, P)
  /\ Mul(c, Cardinality(pts), P) = Id(c)                   \* Lagrange
  /\ \A k, l \in 0 .. 4 : Mul(c, k * l, P) = Mul(c, k, Mul(c, l, P)) /\ Mul(c, k + l, P) = Add(c, Mul(c, k, P), Mul(c, l, P))
MulHom == R = Id(c) => Mul(c, 3, Add(c, P, Q)) = Add(c, Mul(c, 3, P), Mul(c, 3, Q))
\* every scaling of a point represents it, and nothing else does
Scaled(X, z) == IF X.inf THEN [x |-> 0, y |-> z, z |-> 0, t |-> 0]
                ELSE [x |-> FMul(c.p, X.x, z), y |-> FMul(c.p, X.y, z), z |-> z, t |-> FMul(c.p, FMul(c.p, X.x, X.y), z)]
Representations == (R = Id(c)) =>
  \A z \in 1 .. c.p - 1 : LET o == Scaled(P, z) IN
     /\ ValidRep(c, o) /\ AbsOf(c, o) = P
     /\ Represents(c, o, Q) = (P = Q)
\* what is valid represents a point of the curve
ValidOnly == (P = Id(c) /\ Q = Id(c) /\ R = Id(c) /\ c.p <= 5 /\ st = 1) =>
  \A x, y, z, t \in F(c.p) : LET o == [x |-> x, y |-> y, z |-> z, t |-> t] IN
     ValidRep(c, o) => AbsOf(c, o) \in pts /\ Represents(c, o, AbsOf(c, o))
\* a two-torsion test by the y coordinate (C24)
TwoTorsion == (c.kind # "e" /\ Q = Id(c) /\ R = Id(c)) => ((~P.inf /\ P.y = 0) = (P # Id(c) /\ Add(c, P, P) = Id(c)))
=============================================================================
