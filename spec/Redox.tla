-------------------------------- MODULE Redox -------------------------------
(***************************************************************************)
(* The library as a register machine.                                      *)
(*                                                                         *)
(* The state is a sequence of registers holding values of the library's    *)
(* public types.  Every public call is an instruction                      *)
(*      [o |-> name, a |-> arguments, d |-> destination register or 0]     *)
(* whose arguments are register numbers or literals.  Exec gives the       *)
(* abstract outcome of a call: the value it returns ("v"), and for the     *)
(* operations that update their argument in place, the register they       *)
(* update ("w").                                                           *)
(*                                                                         *)
(* Values never depend on how they were computed: a point is a group       *)
(* element, an element is a residue.  What the code stores (projective     *)
(* coordinates, cached constants, big integers) is invisible here except   *)
(* through Matches, which says what may be observed of a value.            *)
(***************************************************************************)
EXTENDS Instances

(*--------------------------------- values --------------------------------*)
VNone     == [k |-> "none"]                  \* unset register
VPanic    == [k |-> "panic"]                 \* the call panics
VErr      == [k |-> "err"]                   \* the call returns Err
VSkip     == [k |-> "skip"]                  \* the call cannot be made: an argument is unset
VUnit     == [k |-> "unit"]
VBool(b)  == [k |-> "bool", v |-> b]
VInt(i)   == [k |-> "int", v |-> i]          \* a machine integer
VNum(n)   == [k |-> "num", v |-> n]          \* a big integer
VBytes(s) == [k |-> "bytes", v |-> s]
VBits(s)  == [k |-> "bits", v |-> s]
VField(p)   == [k |-> "Fp", p |-> p]
VField2(p)  == [k |-> "Fp2", p |-> p]
VFp(p, v)   == [k |-> "fp", p |-> p, v |-> v]
VFp2(p, v)  == [k |-> "fp2", p |-> p, v |-> v]
VSc(t, r, v) == [k |-> "sc", t |-> t, r |-> r, v |-> v]
VCurve(c)   == [k |-> "cv", c |-> c]
VPt(c, P)   == [k |-> "pt", c |-> c, P |-> P]
\* any square root of v in the field of v / any element of that field
VRoot(x)    == [k |-> "root", x |-> x]
\* a point that must be seen normalized (z = 1 unless it is at infinity)
VNorm(v)    == [k |-> "npt", v |-> v]
VAny(x)     == [k |-> "any", x |-> x]
\* the memory in use; b: nothing is held by any register
VLive(b)    == [k |-> "live", v |-> b]
\* the text shown for x
VShown(x)   == [k |-> "shown", x |-> x]

IsElement(v) == v.k \in {"fp", "fp2"}

(*------------------------- points as code stores them --------------------*)
\* obs = <<"pt", X, Y, Z>> or <<"pt", X, Y, T, Z>>
RepOf(obs) == IF Len(obs) = 4 THEN [x |-> N(obs[2]), y |-> N(obs[3]), z |-> N(obs[4])]
              ELSE [x |-> N(obs[2]), y |-> N(obs[3]), t |-> N(obs[4]), z |-> N(obs[5])]
RepMatches(c, P, obs) ==
  /\ Len(obs) = IF c.kind = "e" THEN 5 ELSE 4
  /\ LET o == RepOf(obs) IN ValidRep(c, o) /\ Represents(c, o, P)

\* the texts of values.  A point is shown by some representation of it: the
\* coordinates that were shown follow the text in the observation
EltText(x) == IF x.k = "fp2" THEN Show(x.v[1]) \o "+i*" \o Show(x.v[2]) ELSE Show(x.v)
FieldText(p) == "GF(" \o Show(p) \o ")"
CurveText(c) ==
  CASE c.kind = "w" -> "Weierstrass Curve y^2=x^3+ax+b\na: " \o Show(c.a) \o "\nb: " \o Show(c.b)
    [] c.kind = "m" -> "Montgomery Curve by^2=x^3+ax^2+x\na: " \o Show(c.a) \o "\nb: " \o Show(c.b)
    [] c.kind = "e" -> "Twisted Edwards Curve ax^2+y^2=1+dx^2y^2\na: " \o Show(c.a) \o "\nd: " \o Show(c.d)
RepText(s) == "\nx: " \o s[1] \o "\ny: " \o s[2] \o (IF Len(s) = 4 THEN "\nt: " \o s[3] ELSE "") \o "\nz: " \o s[Len(s)]
NameText(name) ==
  CASE name = "SECP256K1" -> "secp256k1"
    [] name = "SECP256K1_3ISO" -> "secp256k1_3iso"
    [] name = "BLS12381G1" -> "bls12381_g1"
    [] name = "BLS12381G1_11ISO" -> "bls12381_g1_11iso"
    [] name = "CURVE25519" -> "curve25519"
    [] name = "CURVE448" -> "curve448"
    [] name = "EDWARDS25519" -> "edwards25519"
    [] name = "EDWARDS448" -> "edwards448"
    [] OTHER -> name
ShownMatches(x, o) ==
  CASE IsElement(x) \/ x.k = "sc" -> o[2] = EltText(x)
    [] x.k = "Fp"  -> o[2] = FieldText(x.p)
    [] x.k = "Fp2" -> o[2] = FieldText(x.p) \o "^2"
    [] x.k = "cv"  -> o[2] = CurveText(x.c)
    [] x.k = "pt"  -> LET s == SubSeq(o, 3, Len(o)) IN
                      RepMatches(x.c, x.P, <<"pt">> \o s) /\ o[2] = RepText(s)
    [] x.k = "name" -> o[2] = x.v

\* what may be observed of a value
Matches(v, o) ==
  CASE v.k = "fp"    -> o[1] = "fp"  /\ N(o[2]) = v.v
    [] v.k = "fp2"   -> o[1] = "fp2" /\ N(o[2]) = v.v[1] /\ N(o[3]) = v.v[2]
    [] v.k = "pt"    -> o[1] = "pt"  /\ RepMatches(v.c, v.P, o)
    [] v.k = "npt"   -> o[1] = "pt"  /\ RepMatches(v.v.c, v.v.P, o) /\ (v.v.P.inf \/ RepOf(o).z = One)
    [] v.k = "sc"    -> o[1] = "sc"  /\ N(o[2]) = v.v
    [] v.k = "num"   -> o[1] = "num" /\ N(o[2]) = v.v
    [] v.k = "int"   -> o[1] = "int" /\ o[2] = v.v
    [] v.k = "bool"  -> o[1] = "bool" /\ o[2] = v.v
    [] v.k = "bytes" -> o[1] = "bytes" /\ o[2] = v.v
    [] v.k = "bits"  -> o[1] = "bits" /\ o[2] = v.v
    [] v.k = "root"  -> IF v.x.k = "fp" THEN o[1] = "fp" /\ FIsRoot(v.x.p, N(o[2]), v.x.v)
                        ELSE o[1] = "fp2" /\ QIsRoot(v.x.p, <<N(o[2]), N(o[3])>>, v.x.v)
    [] v.k = "shown" -> o[1] = "shown" /\ ShownMatches(v.x, o)
    [] v.k = "live"  -> o[1] = "live" /\ (v.v => o[2] = 0)
    [] v.k = "any"   -> IF v.x.k = "fp" THEN o[1] = "fp" /\ IsElt(v.x.p, N(o[2]))
                        ELSE o[1] = "fp2" /\ QIsElt(v.x.p, <<N(o[2]), N(o[3])>>)
    [] OTHER         -> o[1] = v.k
\* the abstract value of an unconstrained result, once observed
Resolve(v, o) == IF v.k = "npt" THEN v.v
                 ELSE IF v.k \notin {"root", "any"} THEN v
                 ELSE IF v.x.k = "fp" THEN VFp(v.x.p, N(o[2]))
                 ELSE VFp2(v.x.p, <<N(o[2]), N(o[3])>>)

(*------------------------------- operations ------------------------------*)
VAdd(x, y) ==
  CASE x.k = "fp"  -> IF x.p # y.p THEN VPanic ELSE VFp(x.p, FAdd(x.p, x.v, y.v))
    [] x.k = "fp2" -> IF x.p # y.p THEN VPanic ELSE VFp2(x.p, QAdd(x.p, x.v, y.v))
    [] x.k = "sc"  -> IF x.r # y.r THEN VPanic ELSE VSc(x.t, x.r, FAdd(x.r, x.v, y.v))
    [] x.k = "pt"  -> IF x.c # y.c THEN VPanic ELSE VPt(x.c, Add(x.c, x.P, y.P))
VSub(x, y) ==
  CASE x.k = "fp"  -> IF x.p # y.p THEN VPanic ELSE VFp(x.p, FSub(x.p, x.v, y.v))
    [] x.k = "fp2" -> IF x.p # y.p THEN VPanic ELSE VFp2(x.p, QSub(x.p, x.v, y.v))
    [] x.k = "sc"  -> IF x.r # y.r THEN VPanic ELSE VSc(x.t, x.r, FSub(x.r, x.v, y.v))
    [] x.k = "pt"  -> IF x.c # y.c THEN VPanic ELSE VPt(x.c, Sub(x.c, x.P, y.P))
VScalarMul(pt, sc) ==
  IF pt.c.r # sc.r THEN VPanic ELSE VPt(pt.c, Mul(pt.c, sc.v, pt.P))
VMul(x, y) ==
  CASE x.k = "fp"  -> IF x.p # y.p THEN VPanic ELSE VFp(x.p, FMul(x.p, x.v, y.v))
    [] x.k = "fp2" -> IF x.p # y.p THEN VPanic ELSE VFp2(x.p, QMul(x.p, x.v, y.v))
    [] x.k = "sc" /\ y.k = "sc" -> IF x.r # y.r THEN VPanic ELSE VSc(x.t, x.r, FMul(x.r, x.v, y.v))
    [] x.k = "pt"  -> VScalarMul(x, y)
    [] y.k = "pt"  -> VScalarMul(y, x)
VDiv(x, y) ==
  CASE x.k = "fp"  -> IF x.p # y.p THEN VPanic ELSE VFp(x.p, FDiv(x.p, x.v, y.v))
    [] x.k = "fp2" -> IF x.p # y.p THEN VPanic ELSE VFp2(x.p, QDiv(x.p, x.v, y.v))
    [] x.k = "sc"  -> IF x.r # y.r THEN VPanic ELSE VSc(x.t, x.r, FDiv(x.r, x.v, y.v))
VNeg(x) ==
  CASE x.k = "fp"  -> VFp(x.p, FNeg(x.p, x.v))
    [] x.k = "fp2" -> VFp2(x.p, QNeg(x.p, x.v))
    [] x.k = "sc"  -> VSc(x.t, x.r, FNeg(x.r, x.v))
    [] x.k = "pt"  -> VPt(x.c, Neg(x.c, x.P))
VInv(x) ==
  CASE x.k = "fp"  -> VFp(x.p, FInv(x.p, x.v))
    [] x.k = "fp2" -> VFp2(x.p, QInv(x.p, x.v))
    [] x.k = "sc"  -> VSc(x.t, x.r, FInv(x.r, x.v))
VPow(x, e) == IF x.k = "fp" THEN VFp(x.p, FPow(x.p, x.v, e)) ELSE VFp2(x.p, QPow(x.p, x.v, e))

VSquare(x)   == IF x.k = "fp" THEN FIsSquare(x.p, x.v) ELSE QIsSquare(x.p, x.v)
\* Eq on values of one Rust type: different fields, groups, curves are unequal
VEq(x, y) ==
  CASE x.k = "pt"  -> x.c = y.c /\ x.P = y.P
    [] x.k = "sc"  -> x.r = y.r /\ x.v = y.v
    [] x.k = "cv"  -> x.c = y.c
    [] x.k \in {"Fp", "Fp2"} -> x.p = y.p
    [] OTHER       -> x.p = y.p /\ x.v = y.v
VIsZero(x) ==
  CASE x.k = "fp"  -> x.v = Zero
    [] x.k = "fp2" -> x.v = QZero
    [] x.k = "pt"  -> x.P = Id(x.c)
VIsOne(x) == IF x.k = "fp" THEN x.v = One ELSE x.v = QOne
VSgn(x)   == IF x.k = "fp" THEN FSgn(x.v) ELSE QSgn(x.v)

VElt(f, n)  == IF f.k = "Fp" THEN VFp(f.p, FRed(f.p, n)) ELSE VFp2(f.p, QElt(f.p, n))
Comma == 44
SplitComma(s) == LET i == CHOOSE j \in 1 .. Len(s) : s[j] = Comma /\ \A k \in 1 .. (j - 1) : s[k] # Comma
                 IN <<SubSeq(s, 1, i - 1), SubSeq(s, i + 1, Len(s))>>
VText(f, s) == IF f.k = "Fp" THEN VFp(f.p, FRed(f.p, ParseText(s)))
               ELSE LET t == SplitComma(s)
                    IN VFp2(f.p, <<FRed(f.p, ParseText(t[1])), FRed(f.p, ParseText(t[2]))>>)
VFromBytes(f, s, be) ==
  IF f.k = "Fp" THEN VFp(f.p, IF be THEN FFromBE(f.p, s) ELSE FFromLE(f.p, s))
  ELSE IF Len(s) # QSize(f.p) THEN VErr
  ELSE VFp2(f.p, IF be THEN QFromBE(f.p, s) ELSE QFromLE(f.p, s))
VToBytes(x, be) ==
  VBytes(CASE x.k = "fp"  -> IF be THEN FToBE(x.p, x.v) ELSE FToLE(x.p, x.v)
           [] x.k = "fp2" -> IF be THEN QToBE(x.p, x.v) ELSE QToLE(x.p, x.v)
           [] x.k = "sc"  -> IF be THEN FToBE(x.r, x.v) ELSE FToLE(x.r, x.v))

VNewPoint(c, x, y) ==
  IF x.p # c.p \/ y.p # c.p THEN VPanic
  ELSE IF OnCurveXY(c, x.v, y.v) THEN VPt(c, Aff(x.v, y.v)) ELSE VPanic
VDecode(c, s) == LET r == Decode(c, s) IN IF r.ok THEN VPt(c, r.P) ELSE VErr

\* a curve given by its parameters (numbers)
VNewCurve(kind, p, a, b, s, r, h, gx, gy) ==
  VCurve([kind |-> kind, p |-> p, a |-> FRed(p, a),
          b |-> IF kind = "e" THEN Zero ELSE FRed(p, b),
          d |-> IF kind = "e" THEN FRed(p, b) ELSE Zero,
          s |-> IF kind = "m" THEN FRed(p, s) ELSE Zero,
          r |-> r, h |-> h, gx |-> FRed(p, gx), gy |-> FRed(p, gy)])

(*----------------------------- maps, morphisms ---------------------------*)
\* an isogeny value: dom, cod curves; how: named, or a table of images
VIso(how, name, dom, cod, tab) ==
  [k |-> "iso", how |-> how, name |-> name, dom |-> dom, cod |-> cod, tab |-> tab]
VNamedIso(name) == LET i == NamedIso(name) IN VIso("named", name, i.dom, i.cod, << >>)
PushIso(i, P) == IF i.how = "named" THEN IsoPush(i.dom.p, NamedIso(i.name), P) ELSE TablePush(i.tab, P)
VRat(name) == [k |-> "rat", name |-> name, dom |-> RatDom(name), cod |-> RatCod(name)]

VMap(m, c, z, x) == [k |-> "map", m |-> m, c |-> c, z |-> z, x |-> x]
VNewMap(m, c, z, x) ==
  IF z.p # c.p THEN VPanic ELSE
  CASE m = "sswu" -> IF SswuOk(c, z.v) THEN VMap(m, c, z.v, VNone) ELSE VPanic
    [] m = "svdw" -> IF SvdwOk(c, z.v) THEN VMap(m, c, z.v, VNone) ELSE VPanic
    [] m = "ell2" -> IF Ell2Ok(c, z.v) THEN VMap(m, c, z.v, VNone) ELSE VPanic
    [] m = "ab0"  -> IF AB0Ok(c, z.v, x.dom, x.cod) THEN VMap(m, c, z.v, x) ELSE VPanic
    [] m = "ell2e" -> IF x.dom = c /\ Ell2Ok(x.cod, z.v) THEN VMap(m, c, z.v, x) ELSE VPanic
\* only elements of the field of the curve are mapped, and only points over the
\* field of its domain go through a morphism
VApplyMap(f, u) ==
  IF u.p # f.c.p THEN VPanic ELSE
  CASE f.m = "sswu" -> VPt(f.c, Sswu(f.c, f.z, u.v))
    [] f.m = "svdw" -> VPt(f.c, Svdw(f.c, f.z, u.v))
    [] f.m = "ell2" -> VPt(f.c, Ell2(f.c, f.z, u.v))
    [] f.m = "ab0"  -> VPt(f.c, PushIso(f.x, Sswu(f.x.dom, f.z, u.v)))
    [] f.m = "ell2e" -> VPt(f.c, RatPull(f.x.name, Ell2(f.x.cod, f.z, u.v)))
VPush(m, X) == IF X.c.p # m.dom.p THEN VPanic ELSE LET P == X.P IN VPt(m.cod, IF m.k = "iso" THEN PushIso(m, P) ELSE RatPush(m.name, P))
VPull(m, X) == IF X.c.p # m.cod.p THEN VPanic ELSE VPt(m.dom, RatPull(m.name, X.P))

(*--------------------------------- calls ---------------------------------*)
\* which arguments are registers, per instruction
RegArgs(ins) ==
  CASE ins.o \in {"Fp", "Fp2", "named", "iso", "rat", "sc", "nameof"} -> {}
    [] ins.o \in {"add", "sub", "mul", "div", "eq", "cmov", "onCurve", "map", "push", "pull", "reread"} -> {1, 2}
    [] ins.o \in {"point", "isotab"} -> IF ins.o = "point" THEN {1, 2, 3} ELSE {1, 2}
    [] ins.o = "newmap" -> {2, 3} \cup (IF ins.a[1] \in {"ab0", "ell2e"} THEN {4} ELSE {})
    [] ins.o \in {"curve", "live"} -> {}
    [] OTHER -> {1}

ExecSet(ins, R) ==
  LET a == ins.a
      X == R[a[1]]
      Y == R[a[2]]
  IN
  CASE ins.o = "add"  -> VAdd(X, Y)
    [] ins.o = "sub"  -> VSub(X, Y)
    [] ins.o = "mul"  -> VMul(X, Y)
    [] ins.o = "div"  -> VDiv(X, Y)
    [] ins.o = "neg"  -> VNeg(X)
    [] ins.o = "sqr"  -> VMul(X, X)
    [] ins.o = "inv"  -> VInv(X)
    [] ins.o = "powU" -> VPow(X, N(a[2]))                        \* big unsigned exponent
    [] ins.o = "powI" -> VPow(X, N(a[2]))                        \* big signed exponent
    [] ins.o = "xorU" -> IF a[2] = 2 THEN VMul(X, X) ELSE VPanic  \* machine-integer exponents:
    [] ins.o = "xorI" -> IF a[2] = 0 - 1 THEN VInv(X) ELSE VPanic \* only 2u32 and -1i32 exist
    [] ins.o = "divU" -> IF a[2] = 1 THEN VInv(X) ELSE VPanic     \* n / x for n = 1u32
    [] ins.o = "isZero" -> VBool(VIsZero(X))
    [] ins.o = "isOne"  -> VBool(VIsOne(X))
    [] ins.o = "eq"   -> VBool(VEq(X, Y))
    [] ins.o = "sgn0" -> VInt(VSgn(X))
    [] ins.o = "cmov" -> IF a[3] THEN Y ELSE X
    [] ins.o = "isSquare" -> VBool(VSquare(X))
    [] ins.o = "sqrt" -> IF VSquare(X) THEN VRoot(X) ELSE VAny(X)
    [] ins.o = "read" -> X
    [] ins.o = "clone" -> X
    [] ins.o = "show" -> VShown(X)
    [] ins.o = "nameof" -> VShown([k |-> "name", v |-> NameText(a[1])])
    [] ins.o = "reread" -> VElt(X, Y.v)                          \* from the text shown for Y
    [] ins.o = "drop" -> VUnit
    \* fields
    [] ins.o = "Fp"   -> VField(N(a[1]))
    [] ins.o = "Fp2"  -> VField2(N(a[1]))
    [] ins.o = "elt"  -> VElt(X, N(a[2]))                        \* from a big integer
    [] ins.o = "prim" -> VElt(X, N(a[3]))                        \* from a machine integer of type a[2]
    [] ins.o = "text" -> VText(X, a[2])
    [] ins.o = "frombe" -> VFromBytes(X, a[2], TRUE)
    [] ins.o = "fromle" -> VFromBytes(X, a[2], FALSE)
    [] ins.o = "zero" -> VElt(X, Zero)
    [] ins.o = "one"  -> VElt(X, One)
    [] ins.o = "modulus" -> VNum(X.p)
    [] ins.o = "sizeb" -> VInt(IF X.k = "Fp" THEN FSize(X.p) ELSE QSize(X.p))
    [] ins.o = "tobe" -> VToBytes(X, TRUE)
    [] ins.o = "tole" -> VToBytes(X, FALSE)
    [] ins.o = "setZero" -> IF X.k = "fp" THEN VFp(X.p, Zero) ELSE VFp2(X.p, QZero)
    [] ins.o = "setOne"  -> IF X.k = "fp" THEN VFp(X.p, One) ELSE VFp2(X.p, QOne)
    \* scalars
    [] ins.o = "sc"    -> LET r == N(a[2]) IN VSc(a[1], r, FRed(r, N(a[3])))
    [] ins.o = "scalar" -> VSc(X.c.kind, X.c.r, FRed(X.c.r, N(a[2])))
    [] ins.o = "bitsL" -> VBits(BitsMSB(X.v))
    [] ins.o = "bitsR" -> VBits(BitsLSB(X.v))
    \* curves and points
    [] ins.o = "curve" -> VNewCurve(a[1], N(a[2]), N(a[3]), N(a[4]), N(a[5]), N(a[6]), N(a[7]), N(a[8]), N(a[9]))
    [] ins.o = "named" -> VCurve(Named(a[1]))
    [] ins.o = "identity" -> VPt(X.c, Id(X.c))
    [] ins.o = "gen"   -> VPt(X.c, Gen(X.c))
    [] ins.o = "order" -> VNum(X.c.r)
    [] ins.o = "cofactor" -> VNum(X.c.h)
    [] ins.o = "field" -> VField(X.c.p)
    [] ins.o = "point" -> VNewPoint(X.c, Y, R[a[3]])
    [] ins.o = "onCurve" -> VBool(OnCurve(X.c, Y.P))
    [] ins.o = "normalize" -> VNorm(X)
    [] ins.o = "encode" -> VBytes(Encode(X.c, X.P, a[2]))
    [] ins.o = "decode" -> VDecode(X.c, a[2])
    [] ins.o = "twoTorsion" -> VBool(~X.P.inf /\ X.P.y = Zero)
    \* maps and morphisms
    [] ins.o = "iso"   -> VNamedIso(a[1])
    [] ins.o = "isotab" -> VIso("table", "", X.c, Y.c,
         [i \in 1 .. Len(a[3]) |-> LET e == a[3][i] IN
            <<Aff(N(e[1]), N(e[2])), IF Len(e) = 2 THEN Inf ELSE Aff(N(e[3]), N(e[4]))>>])
    [] ins.o = "rat"   -> VRat(a[1])
    [] ins.o = "dom"   -> VCurve(X.dom)
    [] ins.o = "cod"   -> VCurve(X.cod)
    [] ins.o = "newmap" -> VNewMap(a[1], R[a[2]].c, R[a[3]],
                                   IF a[1] \in {"ab0", "ell2e"} THEN R[a[4]] ELSE VNone)
    [] ins.o = "map"   -> VApplyMap(X, Y)
    [] ins.o = "push"  -> VPush(X, Y)
    [] ins.o = "pull"  -> VPull(X, Y)

Exec(ins, R) ==
  IF ins.o = "live" THEN VLive(\A i \in DOMAIN R : R[i].k = "none") ELSE
  IF \E i \in RegArgs(ins) : R[ins.a[i]].k = "none" THEN VSkip ELSE ExecSet(ins, R)

InPlace == {"normalize", "setZero", "setOne"}
\* the register a call writes, 0 for none
Target(ins) == IF ins.o \in InPlace \cup {"drop"} THEN ins.a[1] ELSE ins.d
\* the value it leaves there
Stored(ins, v) == IF ins.o = "drop" \/ v.k \in {"panic", "err", "skip"} THEN VNone ELSE v
After(ins, v, R) ==
  IF Target(ins) = 0 \/ (ins.o \in InPlace /\ v.k = "skip") THEN R
  ELSE [R EXCEPT ![Target(ins)] = Stored(ins, v)]
=============================================================================
