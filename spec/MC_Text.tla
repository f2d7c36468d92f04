------------------------------- MODULE MC_Text ------------------------------
(***************************************************************************)
(* The texts of values tell them apart (C28): the text of a number is its  *)
(* digits, and two values of one field, group or kind of curve have the    *)
(* same text only if they are the same.                                    *)
(***************************************************************************)
EXTENDS Redox, Integers
LOCAL INSTANCE Sequences
CONSTANTS Top, Side
VARIABLES kind, x, y
vars == <<kind, x, y>>

Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
RECURSIVE Spell(_)
Spell(n) == IF n < 10 THEN Digit(n) ELSE Spell(n \div 10) \o Digit(n % 10)

Tuples(k) == [1 .. k -> 0 .. Side]
Values(k) ==
  CASE k = "fp"  -> {VFp(Top + 1, v) : v \in 0 .. Top}
    [] k = "fp2" -> {VFp2(0, <<t[1], t[2]>>) : t \in [1 .. 2 -> 0 .. 3 * Side]}
    [] k = "Fp"  -> {VField(p) : p \in 3 .. Top}
    [] k = "rep3" -> {[k |-> "rep", s |-> [i \in 1 .. 3 |-> Show(t[i])], t |-> t] : t \in Tuples(3)}
    [] k = "rep4" -> {[k |-> "rep", s |-> [i \in 1 .. 4 |-> Show(t[i])], t |-> t] : t \in Tuples(4)}
    [] k \in {"w", "m", "e"} -> {VCurve([kind |-> k, a |-> t[1], b |-> t[2], d |-> t[2]]) : t \in [1 .. 2 -> 0 .. Side]}
Text(v) ==
  CASE v.k \in {"fp", "fp2"} -> EltText(v)
    [] v.k = "Fp"  -> FieldText(v.p)
    [] v.k = "rep" -> RepText(v.s)
    [] v.k = "cv"  -> CurveText(v.c)
Init == /\ kind \in {"fp", "fp2", "Fp", "rep3", "rep4", "w", "m", "e"}
        /\ x \in Values(kind)
        /\ y = Text(x)
\* to every other value of the kind that has the same text
Next == /\ \E z \in Values(kind) : Text(z) = y /\ x' = z
        /\ UNCHANGED <<kind, y>>
Spec == Init /\ [][Next]_vars
Apart == [][x' = x]_vars
Spelt == kind = "fp" => y = Spell(x.v)
=============================================================================
