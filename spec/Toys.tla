-------------------------------- MODULE Toys --------------------------------
(***************************************************************************)
(* Curves over small fields, with all their points, for the models.        *)
(***************************************************************************)
EXTENDS Morphisms
LOCAL INSTANCE Integers
LOCAL INSTANCE FiniteSets

ToyCurve(kind, p, a, b, d, s) ==
  [kind |-> kind, p |-> p, a |-> a, b |-> b, d |-> d, s |-> s, r |-> 0, h |-> 1, gx |-> 0, gy |-> 0]
F(p) == 0 .. p - 1
PtSet(c) == {P \in {Aff(x, y) : x \in F(c.p), y \in F(c.p)} : OnCurveXY(c, P.x, P.y)}
            \cup (IF c.kind = "e" THEN {} ELSE {Inf})
WeierstrassOver(p) == {c \in {ToyCurve("w", p, a, b, 0, 0) : a \in F(p), b \in F(p)} : Nonsingular(c)}
MontgomeryOver(p)  == {c \in {ToyCurve("m", p, a, b, 0, 0) : a \in F(p), b \in F(p)} : Nonsingular(c)}
\* complete ones: a a square, d not
EdwardsOver(p)     == {c \in {ToyCurve("e", p, a, 0, d, 0) : a \in F(p), d \in F(p)} :
                         Nonsingular(c) /\ FIsSquare(p, c.a) /\ ~FIsSquare(p, c.d)}
ToysOver(p, kinds) == (IF "w" \in kinds THEN WeierstrassOver(p) ELSE {}) \cup
                      (IF "m" \in kinds THEN MontgomeryOver(p) ELSE {}) \cup
                      (IF "e" \in kinds THEN EdwardsOver(p) ELSE {})
Order(c) == Cardinality(PtSet(c))
=============================================================================
