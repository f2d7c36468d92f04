------------------------------- MODULE MC_Codec -----------------------------
(***************************************************************************)
(* The decoder is the inverse of the encoder and accepts nothing else      *)
(* (C14, C15): every byte string over an alphabet is decoded, and the      *)
(* result compared with the set of encodings of all points.                *)
(***************************************************************************)
EXTENDS Toys
LOCAL INSTANCE Integers
CONSTANTS Primes, Kinds
VARIABLES c, enc, s
vars == <<c, enc, s>>
\* all values of a coordinate and a little more, and the same with the top bit
Alphabet(p) == {x \in 0 .. 255 : x <= p + 3 \/ (x >= 126 /\ x <= 128 + p + 2) \/ x >= 253}
\* encoding -> point, as a set of pairs
Encodings(cv) == {<<Encode(cv, P, k), P>> : P \in PtSet(cv), k \in BOOLEAN}
Init == /\ \E p \in Primes : c \in ToysOver(p, Kinds)
        /\ enc = Encodings(c)
        /\ s = << >>
Next == /\ Len(s) < (IF c.kind = "e" THEN EdSize(c) + 1 ELSE 2 * FSize(c.p) + 1)
        /\ \E x \in (IF c.kind # "e" /\ Len(s) = 0 THEN Alphabet(c.p) \ {130, 131} ELSE Alphabet(c.p)) : s' = Append(s, x)
        /\ UNCHANGED <<c, enc>>
Spec == Init /\ [][Next]_vars
Inverse == LET hits == {e \in enc : e[1] = s} r == Decode(c, s) IN
  IF hits = {} THEN r = Bad ELSE \A h \in hits : r = Good(h[2])
\* no two points share an encoding; sizes are as documented
Injective == s = << >> =>
  /\ \A e, f \in enc : e[1] = f[1] => e[2] = f[2]
  /\ \A e \in enc : IF c.kind = "e" THEN Len(e[1]) = EdSize(c)
                    ELSE Len(e[1]) = (IF e[2].inf THEN 1 ELSE IF e[1][1] = 4 THEN 2 * FSize(c.p) + 1 ELSE FSize(c.p) + 1)
=============================================================================
