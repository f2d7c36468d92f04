------------------------------ MODULE MC_Machine ----------------------------
(***************************************************************************)
(* The register machine of Redox explored exhaustively on small values:    *)
(* from two fields, a curve of each kind, a map, scalars and               *)
(* two working registers, every call of an alphabet is made in every       *)
(* reachable state.  Whatever the sequence of calls, every stored value is *)
(* valid (C13), values of different fields never mix (C16), a call that    *)
(* fails leaves its target empty and a call changes no register but its    *)
(* target (C27), and encodings of the values at hand decode to them (C14). *)
(***************************************************************************)
EXTENDS Redox
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
CONSTANT Kind
VARIABLES regs, last
vars == <<regs, last>>
\* the curve: y^2 = x^3+x+1 (9 points); 2 y^2 = x^3+x^2+x; x^2+y^2 = 1+2x^2y^2, over the field of 5
CV == CASE Kind = "w" -> [kind |-> "w", p |-> 5, a |-> 1, b |-> 1, d |-> 0, s |-> 0, r |-> 3, h |-> 3, gx |-> 0, gy |-> 1]
        [] Kind = "m" -> [kind |-> "m", p |-> 5, a |-> 1, b |-> 2, d |-> 0, s |-> 1, r |-> 3, h |-> 2, gx |-> 0, gy |-> 0]
        [] OTHER -> [kind |-> "e", p |-> 5, a |-> 1, b |-> 0, d |-> 2, s |-> 0, r |-> 3, h |-> 2, gx |-> 0, gy |-> 1]
\* 1 2: two fields (of 5 and 7 elements, or quadratic extensions of those of 3 and 7), 3: the curve,
\* 4 5: working registers, 6: a map to the curve, if there is one
Z == CASE Kind = "w" -> 2 [] Kind = "m" -> 2 [] OTHER -> 0
I(o, a, d) == [o |-> o, a |-> a, d |-> d]
Setup == (IF Kind = "q" THEN <<I("Fp2", <<"3">>, 1), I("Fp2", <<"7">>, 2)>> ELSE <<I("Fp", <<"5">>, 1), I("Fp", <<"7">>, 2)>>) \o
        <<I("curve", <<CV.kind, Show(CV.p), Show(CV.a), Show(IF CV.kind = "e" THEN CV.d ELSE CV.b), Show(CV.s), Show(CV.r), Show(CV.h), Show(CV.gx), Show(CV.gy)>>, 3)>> \o
        (IF Z = 0 THEN << >> ELSE <<I("elt", <<1, Show(Z)>>, 4), I("newmap", <<IF Kind = "m" THEN "ell2" ELSE "sswu", 3, 4>>, 6), I("drop", <<4>>, 0)>>)
Map == IF Z = 0 THEN VNone ELSE VNewMap(IF Kind = "m" THEN "ell2" ELSE "sswu", CV, VFp(5, Z), VNone)
ASSUME Print(<<"HEAD", ToJson(Setup)>>, TRUE)
Init == /\ regs = <<IF Kind = "q" THEN VField2(3) ELSE VField(5), IF Kind = "q" THEN VField2(7) ELSE VField(7), VCurve(CV), VNone, VNone, Map>>
        /\ last = [o |-> "none", a |-> << >>, d |-> 0]
W == {4, 5}
Strings == {<<0>>, <<2, 0>>, <<3, 0>>, <<4, 0, 1>>, <<2, 1>>, <<1>>, <<129>>, <<4>>, << >>}
Texts == {<<49, 44, 50>>, <<48, 44, 49>>, <<45, 49, 44, 49>>, <<50, 44, 48>>}     \* 1,2  0,1  -1,1  2,0
\* the alphabet, as the calls made in one step
QAlphabet(Do(_)) ==
  \E d, x, y \in W :
  \/ \E n \in {0 - 1, 0, 1} : x = 4 /\ y = 4 /\ Do(I("elt", <<1, n>>, d))
  \/ x = 4 /\ y = 4 /\ Do(I("elt", <<2, 3>>, d))
  \/ \E t \in Texts : x = 4 /\ y = 4 /\ Do(I("text", <<1, t>>, d))
  \/ \E t \in {<<0, 1>>, <<2, 2>>, <<1>>, <<255, 4>>} : x = 4 /\ y = 4 /\ (Do(I("frombe", <<1, t>>, d)) \/ Do(I("fromle", <<1, t>>, d)))
  \/ \E o \in {"add", "sub", "mul", "div", "eq"} : Do(I(o, <<x, y>>, d))
  \/ \E b \in BOOLEAN : Do(I("cmov", <<x, y, b>>, d))
  \/ \E o \in {"neg", "sqr", "inv", "sqrt", "isSquare", "isZero", "isOne", "clone", "drop", "setOne", "setZero", "sgn0", "tobe", "tole", "read"} :
       y = 4 /\ Do(I(o, <<x>>, d))
  \/ \E e \in {0 - 3, 0 - 1, 0, 3, 4, 8} : y = 4 /\ Do(I("powI", <<x, e>>, d))
Alphabet(Do(_)) ==
  \E d, x, y \in W :
  \/ \E n \in {0 - 1, 0, 2, 8} : x = 4 /\ y = 4 /\ Do(I("elt", <<1, n>>, d))
  \/ x = 4 /\ y = 4 /\ Do(I("elt", <<2, 3>>, d))
  \/ \E n \in {2, 7} : x = 4 /\ y = 4 /\ Do(I("scalar", <<3, n>>, d))
  \/ \E o \in {"identity", "gen"} : x = 4 /\ y = 4 /\ Do(I(o, <<3>>, d))
  \/ \E o \in {"add", "sub", "mul", "div", "eq"} : Do(I(o, <<x, y>>, d))
  \/ \E o \in {"neg", "sqr", "inv", "sqrt", "isSquare", "isZero", "clone", "drop", "normalize", "setOne", "sgn0", "tobe", "bitsL"} :
       y = 4 /\ Do(I(o, <<x>>, d))
  \/ \E e \in {0 - 1, 3} : y = 4 /\ Do(I("powI", <<x, e>>, d))
  \/ Do(I("point", <<3, x, y>>, d))
  \/ y = 4 /\ Do(I("map", <<6, x>>, d))
  \/ \E b \in BOOLEAN : Do(I("cmov", <<x, y, b>>, d))
  \/ y = 4 /\ Do(I("onCurve", <<3, x>>, d))
  \/ \E s \in Strings : x = 4 /\ y = 4 /\ Do(I("decode", <<3, s>>, d))
  \/ \E b \in BOOLEAN : y = 4 /\ Do(I("encode", <<x, b>>, 0))
\* the calls Rust's types admit
K(x) == regs[x].k
Typed(i) ==
  LET x == IF Len(i.a) > 0 THEN i.a[1] ELSE 1 IN
  CASE i.o \in {"add", "sub", "eq"} -> K(i.a[1]) = K(i.a[2]) /\ K(x) \in {"fp", "fp2", "sc", "pt"} /\ ~(i.o = "eq" /\ K(x) = "sc" /\ Kind = "m")
    [] i.o = "div" -> K(i.a[1]) = K(i.a[2]) /\ K(x) \in {"fp", "fp2", "sc"}
    [] i.o = "mul" -> (K(i.a[1]) = K(i.a[2]) /\ K(x) \in {"fp", "fp2", "sc"}) \/ {K(i.a[1]), K(i.a[2])} = {"pt", "sc"}
    [] i.o = "neg" -> K(x) \in {"fp", "fp2", "sc", "pt"}
    [] i.o \in {"inv"} -> K(x) \in {"fp", "fp2", "sc"}
    [] i.o \in {"sqr", "sqrt", "isSquare", "setOne", "setZero", "sgn0", "powI", "isOne"} -> K(x) \in {"fp", "fp2"}
    [] i.o \in {"tobe", "tole"} -> K(x) \in {"fp", "fp2", "sc"}
    [] i.o = "read" -> K(x) # "none"
    \* both of one field: nothing is said about selecting among elements of different fields
    [] i.o = "cmov" -> K(i.a[1]) = K(i.a[2]) /\ K(x) \in {"fp", "fp2"} /\ regs[i.a[1]].p = regs[i.a[2]].p
    [] i.o = "map" -> K(6) = "map" /\ K(i.a[2]) = "fp" /\ regs[i.a[2]].p = 5
    [] i.o = "onCurve" -> K(i.a[2]) = "pt"
    [] i.o = "bitsL" -> K(x) = "sc"
    [] i.o = "isZero" -> K(x) \in {"fp", "fp2", "pt"}
    [] i.o \in {"normalize", "encode"} -> K(x) = "pt"
    [] i.o = "clone" -> K(x) \in {"fp", "fp2", "sc", "pt"}
    [] i.o = "drop" -> K(x) # "none"
    [] i.o = "point" -> K(i.a[2]) = "fp" /\ K(i.a[3]) = "fp"
    [] OTHER -> TRUE
\* of the larger quadratic extension one element is enough
Storable(v) == (v.k = "fp2" /\ v.p = 7 => v.v = <<3, 0>>) /\ v.k \in {"fp", "fp2", "sc", "pt", "none", "panic", "err", "unit"}
QElts(p) == (0 .. p - 1) \X (0 .. p - 1)
Outcomes(v) == IF v.k \in {"root", "any"} /\ v.x.k = "fp2" THEN {VFp2(v.x.p, y) : y \in {y \in QElts(v.x.p) : v.k = "any" \/ QIsRoot(v.x.p, y, v.x.v)}}
               ELSE IF v.k = "root" THEN {VFp(v.x.p, y) : y \in {y \in 0 .. v.x.p - 1 : FIsRoot(v.x.p, y, v.x.v)}}
               ELSE IF v.k = "any" THEN {VFp(v.x.p, y) : y \in 0 .. v.x.p - 1}
               ELSE IF v.k = "npt" THEN {v.v} ELSE {v}
Do(i) ==
  /\ Typed(i)
  /\ \E v \in Outcomes(Exec(i, regs)) :
       /\ Storable(v) \/ Target(i) = 0
       /\ regs' = After(i, v, regs)
       /\ last' = i
Step == IF Kind = "q" THEN QAlphabet(Do) ELSE Alphabet(Do)
Next == Step
Spec == Init /\ [][Next]_vars
View == regs
\* prints every transition, for the tours of bin/tour.py
Emit == PrintT(<<"EDGE", ToJson(<<regs[4], regs[5]>>), ToJson(last'), ToJson(<<regs'[4], regs'[5]>>)>>)

Valid(v) ==
  CASE v.k = "fp" -> v.p \in {5, 7} /\ IsElt(v.p, v.v)
    [] v.k = "fp2" -> v.p \in {3, 7} /\ QIsElt(v.p, v.v)
    [] v.k = "sc" -> v.r = CV.r /\ 0 <= v.v /\ v.v < v.r
    [] v.k = "pt" -> v.c = CV /\ OnCurve(CV, v.P)
    [] OTHER -> v.k \in {"none", "Fp", "Fp2", "cv", "map"}
AllValid == \A i \in 1 .. 6 : Valid(regs[i])
Fixed == regs[1].p \in {3, 5} /\ regs[2].p = 7 /\ regs[3] = VCurve(CV) /\ regs[6] = Map
Frame == [][\A i \in 1 .. 6 : regs'[i] # regs[i] => i = Target(last')]_vars
\* mixing panics, equality does not
NoMix == \A i, j \in W :
  (K(i) = K(j) /\ K(i) \in {"fp", "fp2"} /\ regs[i].p # regs[j].p) =>
     /\ \A o \in {"add", "sub", "mul", "div"} : Exec(I(o, <<i, j>>, 4), regs).k = "panic"
     /\ Exec(I("eq", <<i, j>>, 0), regs) = VBool(FALSE)
\* every point at hand is what its encodings say
RoundTrip == \A i \in W : K(i) = "pt" => \A b \in BOOLEAN :
  Exec(I("decode", <<3, Exec(I("encode", <<i, b>>, 0), regs).v>>, 4), regs) = regs[i]
\* laws between two registers, in every reachable state
Laws == \A i, j \in W : (K(i) = K(j) /\ K(i) \in {"fp", "fp2", "sc", "pt"} /\ (K(i) \in {"fp", "fp2"} => regs[i].p = regs[j].p)) =>
  /\ Exec(I("add", <<i, j>>, 0), regs) = Exec(I("add", <<j, i>>, 0), regs)
  /\ VSub(VAdd(regs[i], regs[j]), regs[j]) = regs[i]
  /\ VNeg(VNeg(regs[i])) = regs[i]
  /\ VEq(regs[i], regs[j]) = (regs[i] = regs[j])
=============================================================================
