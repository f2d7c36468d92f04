------------------------------ MODULE GenMaps ------------------------------
(***************************************************************************)
(* Programs over values that do not mix, maps to curves, morphisms,        *)
(* standard curves.                                                        *)
(***************************************************************************)
EXTENDS GenCurve, Lookalikes
LOCAL INSTANCE SequencesExt

(*-------------------------------- no mixing ------------------------------*)
\* all operators on every pair of registers in rs (values of one Rust type)
Mix(rs, ops) == Flat([i \in 1 .. Len(rs) |-> Flat([j \in 1 .. Len(rs) |-> [k \in 1 .. Len(ops) |-> I(ops[k], <<rs[i], rs[j]>>, 0)]])])
Arith == <<"add", "sub", "mul", "div", "eq">>
MixPs == << <<N(7), N(11)>>, <<N(5), N(13)>>, <<N(251), N(257)>>, <<N(3), N("4294967291")>>, <<N("4294967291"), N("4294967311")>>,
            <<ModOf(1), ModOf(4)>>, <<ModOf(1), OrdOf(1)>>, <<ModOf(5), ModOf(4)>>, <<ModOf(7), ModOf(3)>>, <<ModOf(2), ModOf(9)>> >> \o Lookalikes(0)
MixP2s == << <<N(7), N(11)>>, <<N(3), N(19)>>, <<N(251), N(263)>>, <<ModOf(1), ModOf(4)>>, <<ModOf(7), ModOf(3)>>, <<ModOf(2), ModOf(9)>> >> \o Lookalikes(0)
\* two different fields and a second copy of the first one
FpMix(p, q) ==
  <<MkFp(p, 1), MkFp(q, 2), MkFp(p, 3), MkElt(1, Two, 4), MkElt(2, Two, 5), MkElt(3, Two, 6), MkElt(1, Zero, 7), MkElt(2, Zero, 8),
    MkElt(1, One, 9), MkElt(2, One, 10), MkElt(3, Dec(p), 11), MkElt(2, Dec(q), 12), I("clone", <<1>>, 13), MkElt(13, Two, 14)>>
  \o Mix([i \in 1 .. 9 |-> <<4, 5, 6, 7, 8, 9, 10, 11, 14>>[i]], Arith) \o Mix(<<1, 2, 3, 13>>, <<"eq">>) \o Read(4, 12)
Fp2Mix(p, q) ==
  <<MkFp2(p, 1), MkFp2(q, 2), MkFp2(p, 3), MkElt2(1, <<One, Two>>, 4), MkElt2(2, <<One, Two>>, 5), MkElt2(3, <<One, Two>>, 6), I("zero", <<1>>, 7), I("zero", <<2>>, 8),
    I("one", <<1>>, 9), I("one", <<2>>, 10), I("clone", <<1>>, 11), MkElt2(11, <<One, Two>>, 12)>>
  \o Mix(<<4, 5, 6, 7, 8, 9, 10, 12>>, Arith) \o Mix(<<1, 2, 3, 11>>, <<"eq">>) \o Read(4, 10)
ScMix(k, r, q) ==
  <<I("sc", <<k, Show(r), "2">>, 1), I("sc", <<k, Show(q), "2">>, 2), I("sc", <<k, Show(r), "2">>, 3), I("sc", <<k, Show(r), "0">>, 4), I("sc", <<k, Show(q), "0">>, 5),
    I("sc", <<k, Show(r), "1">>, 6), I("sc", <<k, Show(q), "1">>, 7)>>
  \o Mix(<<1, 2, 3, 4, 5, 6, 7>>, IF k = "m" THEN <<"add", "sub", "mul", "div">> ELSE Arith) \o Read(1, 7)

\* curves cs (records) of one kind, the first two equal; one or two points on each; a scalar of each
\* curve i: register i; field of i: 20+i; points 40+3i.., scalar 100+i
CurveMix(cs, heads) ==
  LET n == Len(cs)
      ps(i) == LET c == cs[i] IN <<Id(c)>> \o PtsFrom(c, Two, 2)
      pr(i, j) == 40 + 3 * i + j
      prs == Flat([i \in 1 .. n |-> <<pr(i, 0), pr(i, 1), pr(i, 2)>>])
      srs == [i \in 1 .. n |-> 100 + i]
  IN Flat(<<
       Flat([i \in 1 .. n |-> <<[heads[i] EXCEPT !.d = i], MkFp(cs[i].p, 20 + i), I("scalar", <<i, "2">>, 100 + i)>>]),
       Flat([i \in 1 .. n |-> Flat([j \in 1 .. 3 |-> MkPoint(i, 20 + i, 38, ps(i)[j], pr(i, j - 1))])]),
       \* not normalized
       Flat([i \in 1 .. n |-> <<I("add", <<pr(i, 2), pr(i, 2)>>, 150), I("sub", <<150, pr(i, 2)>>, pr(i, 2))>>]),
       Mix([i \in 1 .. n |-> i], <<"eq">>),
       Mix(prs, <<"eq", "add", "sub">>),
       Flat([k \in 1 .. Len(prs) |-> Flat([i \in 1 .. n |-> <<I("mul", <<prs[k], 100 + i>>, 0), I("mul", <<100 + i, prs[k]>>, 0)>>])]),
       \* coordinates of another field
       Flat([i \in 1 .. n |-> Flat([j \in 1 .. n |-> LET P == ps(i)[2] IN
         <<MkElt(20 + i, P.x, 151), MkElt(20 + j, P.y, 152), I("point", <<i, 151, 152>>, 0),
           MkElt(20 + j, P.x, 151), MkElt(20 + i, P.y, 152), I("point", <<i, 151, 152>>, 0),
           MkElt(20 + j, P.x, 151), I("point", <<i, 151, 152>>, 0)>>])]),
       Flat([i \in 1 .. n |-> <<I("field", <<i>>, 160), I("eq", <<160, 20 + i>>, 0), I("eq", <<160, 21>>, 0)>>]),
       Read(43, 42 + 3 * n)
     >>)
\* every way to differ from c in one parameter; P another generator
Variants(c, q, P) ==
  <<c, c, [c EXCEPT !.r = Plus(c.r, Two)], [c EXCEPT !.h = Inc(c.h)], WithGen(c, P), WithGen(c, Neg(c, Gen(c)))>>
  \o (IF c.kind = "m" THEN <<[c EXCEPT !.s = FNeg(c.p, c.s)]>> ELSE << >>) \o q
VarUnit(id, c, q, P) == LET v == Variants(c, q, P) IN Unit(id, CurveMix(v, [i \in 1 .. Len(v) |-> MkCurve(v[i], i)]))
ToyMix(c0, q) == LET c == Gened(c0) IN VarUnit("curves/" \o ToyId(c, 0), c, [i \in 1 .. Len(q) |-> Gened(q[i])], AffPts(c)[1])
NamedMix(names) == Unit("named/" \o names[1], CurveMix([i \in 1 .. Len(names) |-> Named(names[i])], [i \in 1 .. Len(names) |-> Name(names[i])]))
\* curves that look alike; groups whose orders and cofactors do
LookUnits(cs) == << >> \o [i \in 1 .. Len(cs) |-> Unit("look/" \o cs[i][1].kind \o "/" \o ToString(i), CurveMix(cs[i], [k \in 1 .. Len(cs[i]) |-> MkCurve(cs[i][k], k)]))]
LookOrders(name) ==
  LET c == Named(name) ls == Lookalikes(0)
      v(i, j) == [c EXCEPT !.r = ls[i][j]] w(i, j) == [c EXCEPT !.h = ls[i][j]]
      us(i) == <<v(i, 1), v(i, 1), v(i, 2), w(i, 1), w(i, 2)>>
  IN << >> \o [k \in 1 .. 4 |-> LET i == <<2, 8, 10, 14>>[k] IN Unit("lookorders/" \o name \o "/" \o ToString(i), CurveMix(us(i), [j \in 1 .. 5 |-> MkCurve(us(i)[j], j)]))]
NamedVar(name) == LET c == Named(name) IN VarUnit("variants/" \o name, c, << >>, PtsFrom(c, N(7), 1)[1])
\* maps and morphisms at the wrong field: f the foreign one, c the curve's
MapMix(id, name, pre, new, z, q) ==
  LET c == Named(name) IN
  Unit("maps/" \o id \o "/" \o PName(q), <<Name(name), MkFp(c.p, 2), MkFp(q, 3), MkElt(2, z, 4)>> \o pre \o <<I("newmap", new, 6)>> \o
    Flat([i \in 1 .. 5 |-> LET u == <<Zero, One, Two, N(0 - 1), Rnd(46500 + i, q)>>[i] IN
      <<MkElt(3, u, 7), MkElt(2, u, 8), I("map", <<6, 8>>, 9), I("map", <<6, 7>>, 0), I("map", <<6, 8>>, 10), I("eq", <<9, 10>>, 0), I("newmap", [new EXCEPT ![3] = 7], 0)>>]))
Far == << N(7), ModOf(1), ModOf(4), ModOf(5), Lookalikes(0)[2][1] >>
FarFrom(p) == SelectSeq(Far, LAMBDA q : q # p)
MapMixes(id, name, pre, new, z) == LET qs == FarFrom(Named(name).p) IN << >> \o [i \in 1 .. Len(qs) |-> MapMix(id, name, pre, new, z, qs[i])]
MorphMix(head, dom, f) ==
  LET P == PtsFrom(Named(f), N(9), 1)[1] IN
  Unit("morphs/" \o head.a[1] \o "/" \o f, <<[head EXCEPT !.d = 1], I("dom", <<1>>, 2), I("gen", <<2>>, 3), I("named", <<f>>, 4), I("gen", <<4>>, 5), I("decode", <<4, Encode(Named(f), P, TRUE)>>, 6),
     I("push", <<1, 3>>, 7), I("push", <<1, 5>>, 0), I("push", <<1, 6>>, 0), I("push", <<1, 3>>, 8), I("eq", <<7, 8>>, 0)>>)
MapMixAll(t) ==
  MapMixes("sswu", "P256", << >>, <<"sswu", 1, 4>>, N(0 - 10)) \o MapMixes("svdw", "P256", << >>, <<"svdw", 1, 4>>, N(0 - 3)) \o MapMixes("svdw", "SECP256K1", << >>, <<"svdw", 1, 4>>, One) \o
  MapMixes("ell2", "CURVE25519", << >>, <<"ell2", 1, 4>>, Two) \o MapMixes("ell2", "CURVE448", << >>, <<"ell2", 1, 4>>, N(0 - 1)) \o
  MapMixes("ell2e", "EDWARDS25519", <<I("rat", <<"25519">>, 5)>>, <<"ell2e", 1, 4, 5>>, Two) \o MapMixes("ab0", "SECP256K1", <<I("iso", <<"secp256k1">>, 5)>>, <<"ab0", 1, 4, 5>>, N(0 - 11)) \o
  <<MorphMix(I("iso", <<"secp256k1">>, 0), "w", "P256"), MorphMix(I("iso", <<"secp256k1">>, 0), "w", "BLS12381G1"), MorphMix(I("iso", <<"bls12381g1">>, 0), "w", "P384"), MorphMix(I("iso", <<"bls12381g1">>, 0), "w", "SECP256K1_3ISO"),
    MorphMix(I("rat", <<"25519">>, 0), "e", "EDWARDS448"), MorphMix(I("rat", <<"448">>, 0), "e", "EDWARDS25519")>>
C16Suite(t) ==
  MapMixAll(0) \o
  [i \in 1 .. Len(MixPs) |-> Unit("fp/" \o PName(MixPs[i][1]) \o "-" \o PName(MixPs[i][2]) \o "-" \o ToString(i), FpMix(MixPs[i][1], MixPs[i][2]))] \o
  [i \in 1 .. Len(MixP2s) |-> Unit("fp2/" \o PName(MixP2s[i][1]) \o "-" \o PName(MixP2s[i][2]) \o "-" \o ToString(i), Fp2Mix(MixP2s[i][1], MixP2s[i][2]))] \o
  Flat([k \in 1 .. 3 |-> [i \in 1 .. Len(MixPs) |-> Unit("sc/" \o <<"w", "m", "e">>[k] \o "/" \o PName(MixPs[i][1]) \o "-" \o PName(MixPs[i][2]) \o "-" \o ToString(i),
     ScMix(<<"w", "m", "e">>[k], MixPs[i][1], MixPs[i][2]))]]) \o
  <<ToyMix(WOdd(11)[1], <<WOdd(11)[2], WOdd(11)[5], WOdd(13)[1], WOdd(7)[3]>>),
    ToyMix(WOdd(13)[4], <<WOdd(13)[5], Curve("w", 13, 1, 1, 0, 0), WOdd(11)[4]>>),
    ToyMix(MWithS(MCurves(11), 1)[3], <<MWithS(MCurves(11), 1)[5], MWithS(MCurves(11), 1)[13], MWithS(MCurves(13), 1)[4]>>),
    ToyMix(MWithS(MCurves(7), 1)[8], <<MWithS(MCurves(7), 1)[9], MWithS(MCurves(5), 1)[1]>>),
    ToyMix(ECurves(11)[1], <<ECurves(11)[2], ECurves(11)[8], ECurves(13)[2]>>),
    ToyMix(ECurves(13)[7], <<ECurves(13)[8], ECurves(7)[2]>>),
    NamedMix(<<"P256", "SECP256K1", "SECP256K1_3ISO", "P256", "BLS12381G1", "BLS12381G1_11ISO", "P384", "P521">>),
    NamedMix(<<"CURVE25519", "CURVE448", "CURVE25519">>), NamedMix(<<"EDWARDS25519", "EDWARDS448", "EDWARDS25519">>),
    NamedVar("P256"), NamedVar("SECP256K1"), NamedVar("CURVE25519"), NamedVar("CURVE448"), NamedVar("EDWARDS25519"), NamedVar("EDWARDS448")>> \o
  LookUnits(LookW(0)) \o LookUnits(LookM(0)) \o LookUnits(LookE(0)) \o LookOrders("P256") \o LookOrders("CURVE25519") \o LookOrders("EDWARDS25519")

(*------------------------------ maps to curves ---------------------------*)
MapOk(m, c, z) == CASE m = "sswu" -> SswuOk(c, z) [] m = "svdw" -> SvdwOk(c, z) [] m = "ell2" -> Ell2Ok(c, z)
\* every u under every accepted z of a toy curve, then again in another order
\* 1 curve, 2 field, 3.. elements, v z, v+1 map, v+2 another map
MapCode(m, c) ==
  LET p  == ToInt(c.p)
      v  == 3 + p
      zs == SelectSeq([i \in 1 .. p |-> i - 1], LAMBDA z : MapOk(m, c, N(z)))
  IN <<Toy(c), MkFp(c.p, 2)>> \o [i \in 1 .. p |-> MkElt(2, N(i - 1), 2 + i)] \o
     Flat([k \in 1 .. Len(zs) |->
       <<MkElt(2, N(zs[k]), v), I("newmap", <<m, 1, v>>, v + 1)>> \o
       [i \in 1 .. p |-> I("map", <<v + 1, 2 + i>>, 0)] \o
       <<I("map", <<v + 1, 5>>, v + 2), I("onCurve", <<1, v + 2>>, 0), I("map", <<v + 1, 2 + p>>, 0), I("map", <<v + 1, 3>>, 0)>>])
     \o Read(3, 2 + p)
HasZ(m, c) == \E z \in 0 .. (ToInt(c.p) - 1) : MapOk(m, c, N(z))
MapUnits(m, cs) == LET ds == SelectSeq(cs, LAMBDA c : HasZ(m, c)) IN
                   [i \in 1 .. Len(ds) |-> LET c == Gened(ds[i]) IN Unit(m \o "/" \o ToyId(c, i), MapCode(m, c))]
\* larger fields: exceptional and random u; zs a sequence of numbers to try
UVals(c, z, n, s) ==
  LET p == c.p
      e1 == FNeg(p, FInv(p, z))                       \* Z u^2 = -1
      r1 == IF FIsSquare(p, e1) THEN <<FRootSgn(p, e1, 1), FRootSgn(p, e1, 0 - 1)>> ELSE << >>
      gz == IF IsW(c) THEN WRhs(c, z) ELSE Zero
      e2 == FInv(p, gz)                               \* u^2 g(Z) = 1, -1 (SVDW)
      r2 == IF FIsSquare(p, e2) THEN <<FRootSgn(p, e2, 1), FRootSgn(p, e2, 0 - 1)>> ELSE << >>
      e3 == FNeg(p, e2)
      r3 == IF FIsSquare(p, e3) THEN <<FRootSgn(p, e3, 1), FRootSgn(p, e3, 0 - 1)>> ELSE << >>
  IN <<Zero, One, Dec(p), Two, Minus(p, Two), N(3), DivF(p, Two), Inc(DivF(p, Two))>> \o r1 \o r2 \o r3 \o
     [i \in 1 .. n |-> Rnd(20000 + 100 * s + i, p)] \o [i \in 1 .. n |-> Shape(20000 + 100 * s + i, p)]
BigMapCode(head, m, c, zs, n, s) ==
  LET ok == SelectSeq(zs, LAMBDA z : MapOk(m, c, z)) IN
  <<head, MkFp(c.p, 2)>> \o
  Flat([k \in 1 .. Len(ok) |-> LET us == UVals(c, ok[k], n, s) IN
    <<MkElt(2, ok[k], 3), I("newmap", <<m, 1, 3>>, 4)>> \o
    Flat([i \in 1 .. Len(us) |-> <<MkElt(2, us[i], 5), I("map", <<4, 5>>, 6), I("map", <<4, 5>>, 7), I("eq", <<6, 7>>, 0), I("onCurve", <<1, 6>>, 0),
                                   I("neg", <<5>>, 5), I("map", <<4, 5>>, 0)>>])])
ZTry(c) == LET p == c.p IN Flat([i \in 1 .. 6 |-> <<N(i), FNeg(p, N(i))>>])
MapMids(m, cs, n, k) == LET ds == SelectSeq(cs, LAMBDA c : \E i \in 1 .. 12 : MapOk(m, c, ZTry(c)[i])) IN
  [i \in 1 .. Len(ds) |-> Unit(m \o "/" \o ToyId(ds[i], i), LET c == WithGen(ds[i], PtsFrom(ds[i], Zero, 1)[1]) z == SelectSeq(ZTry(c), LAMBDA v : MapOk(m, c, v))
                                                           IN BigMapCode(Toy(c), m, c, SubSeq(z, 1, IF Len(z) < k THEN Len(z) ELSE k), n, i))]
NamedMap(m, name, z, n) == LET c == Named(name) zz == FRed(c.p, z) ts == SelectSeq(ZTry(c), LAMBDA v : v # zz /\ MapOk(m, c, v))
                           IN Unit(m \o "/" \o name, BigMapCode(Name(name), m, c, <<zz>> \o SubSeq(ts, 1, IF Len(ts) < 2 THEN Len(ts) ELSE 2), n, 70))

MidWs(t) == Flat([i \in 1 .. Pick(5, 7) |-> LET p == MidPrimes[i] IN <<MidW(p, 1, 1), MidW(p, 2, 5), MidW(p, p - 3, 2)>>])
MidMs(t) == Flat([i \in 1 .. Pick(3, 5) |-> LET p == MidPrimes[i] IN <<MidM(p, 1), MidM(p, 2), MidM(p, p - 2)>>])
C17Suite(t) ==
  MapUnits("sswu", WCurves(7) \o WCurves(11) \o Every(WCurves(13), Pick(4, 1), 0) \o Every(WCurves(19), Pick(24, 4), 0) \o Every(WCurves(23), Pick(50, 8), 1)) \o
  MapMids("sswu", MidWs(0), Pick(40, 400), 3) \o
  <<NamedMap("sswu", "P256", N(0 - 10), Pick(12, 100)), NamedMap("sswu", "P384", N(0 - 12), Pick(8, 60)), NamedMap("sswu", "P521", N(0 - 4), Pick(8, 60)),
    NamedMap("sswu", "SECP256K1_3ISO", N(0 - 11), Pick(12, 100)), NamedMap("sswu", "BLS12381G1_11ISO", N(11), Pick(12, 100))>>
C18Suite(t) ==
  MapUnits("svdw", WCurves(5) \o WCurves(7) \o WCurves(11) \o Every(WCurves(13), Pick(4, 1), 0) \o Every(WCurves(19), Pick(24, 4), 0) \o Every(WCurves(23), Pick(50, 8), 1)) \o
  MapMids("svdw", MidWs(0), Pick(40, 400), 3) \o
  <<NamedMap("svdw", "P256", N(0 - 3), Pick(12, 100)), NamedMap("svdw", "P384", N(0 - 1), Pick(8, 60)), NamedMap("svdw", "P521", N(1), Pick(8, 60)),
    NamedMap("svdw", "SECP256K1", N(1), Pick(12, 100)), NamedMap("svdw", "BLS12381G1", N(0 - 3), Pick(12, 100))>>

\* the Edwards maps
Ell2E(name, rat, z, n) ==
  LET c == Named(name) m == RatCod(rat) us == UVals(m, FRed(c.p, z), n, 77) IN
  Unit("ell2e/" \o name, <<Name(name), MkFp(c.p, 2), MkElt(2, z, 3), I("rat", <<rat>>, 8), I("newmap", <<"ell2e", 1, 3, 8>>, 4), I("cod", <<8>>, 9), I("newmap", <<"ell2", 9, 3>>, 10)>> \o
    Flat([i \in 1 .. Len(us) |-> <<MkElt(2, us[i], 5), I("map", <<4, 5>>, 6), I("onCurve", <<1, 6>>, 0), I("map", <<10, 5>>, 7), I("onCurve", <<9, 7>>, 0), I("pull", <<8, 7>>, 11), I("eq", <<6, 11>>, 0),
                                   I("neg", <<5>>, 5), I("map", <<4, 5>>, 0)>>]))
MAny(p) == Flat([b \in 1 .. (p - 1) |-> [i \in 1 .. Len(MCurvesB(p, b)) |-> WithS(MCurvesB(p, b)[i], 1)]])
C19Suite(t) ==
  MapUnits("ell2", MAny(5) \o MAny(7) \o Every(MAny(11), Pick(2, 1), 0) \o Every(MAny(13), Pick(3, 1), 0) \o Every(MAny(19), Pick(20, 3), 0) \o Every(MAny(23), Pick(40, 6), 0)) \o
  MapMids("ell2", MidMs(0), Pick(40, 400), 3) \o
  <<NamedMap("ell2", "CURVE25519", N(2), Pick(12, 100)), NamedMap("ell2", "CURVE448", N(0 - 1), Pick(8, 60)),
    Ell2E("EDWARDS25519", "25519", N(2), Pick(12, 100)), Ell2E("EDWARDS448", "448", N(0 - 1), Pick(8, 60))>>

(*---------------------- maps through toy isogenies -----------------------*)
\* [dom, cod, T]: T of odd order l, cod with exactly one coefficient zero, dom accepted by SSWU for some z
OrdIs(c, T, l) == ~T.inf /\ Mul(c, N(l), T) = Inf
KernelsOf(c, l) == SelectSeq(AffPts(c), LAMBDA T : OrdIs(c, T, l))
VeluOf(c, l) ==
  LET ts == KernelsOf(c, l)
  IN IF ts = << >> THEN << >>
     ELSE LET T == ts[1] cod == VeluCodomain(c, T)
          IN <<[dom |-> c, T |-> T, cod |-> cod]>>
OneZero(c) == (c.a = Zero) # (c.b = Zero)
VeluAll(cs, l) == Flat([i \in 1 .. Len(cs) |-> IF cs[i].a = Zero \/ cs[i].b = Zero \/ ~HasZ("sswu", cs[i]) THEN << >> ELSE VeluOf(cs[i], l)])
VeluAB0(cs, l) == SelectSeq(VeluAll(cs, l), LAMBDA v : OneZero(v.cod))
VTab(c, T) == LET ps == AffPts(c) IN
  [i \in 1 .. Len(ps) |-> LET Q == VeluPush(c, T, ps[i]) IN
     IF Q.inf THEN <<Show(ps[i].x), Show(ps[i].y)>> ELSE <<Show(ps[i].x), Show(ps[i].y), Show(Q.x), Show(Q.y)>>]
\* 1 dom 2 cod 3 field 4 iso 5 z 6 map 7 sswu 8 u 9..
AB0Code(v) ==
  LET c == v.dom p == ToInt(c.p)
      zs == SelectSeq([i \in 1 .. p |-> i - 1], LAMBDA z : SswuOk(c, N(z)))
  IN <<MkCurve(Gened(c), 1), MkCurve(Gened(v.cod), 2), MkFp(c.p, 3), I("isotab", <<1, 2, VTab(c, v.T)>>, 4)>> \o
     Flat([k \in 1 .. Len(zs) |-> <<MkElt(3, N(zs[k]), 5), I("newmap", <<"ab0", 2, 5, 4>>, 6), I("newmap", <<"sswu", 1, 5>>, 7)>> \o
       Flat([i \in 1 .. p |-> <<MkElt(3, N(i - 1), 8), I("map", <<6, 8>>, 9), I("onCurve", <<2, 9>>, 0), I("map", <<7, 8>>, 10), I("push", <<4, 10>>, 11), I("eq", <<9, 11>>, 0), I("isZero", <<9>>, 0)>>])])
AB0Units(cs, l) == LET vs == VeluAB0(cs, l) IN
  [i \in 1 .. Len(vs) |-> Unit("ab0/" \o ToString(l) \o "/" \o ToyId(vs[i].dom, i), AB0Code(vs[i]))]
\* points of order l of a curve of order h*r
RECURSIVE KerPt(_, _, _)
KerPt(c, l, x0) == LET K == Mul(c, Times(DivF(c.h, l), c.r), PtsFrom(c, x0, 1)[1]) IN IF K.inf THEN KerPt(c, l, Inc(x0)) ELSE K
\* the u whose first SSWU candidate is the x of a point of the curve (up to four of them)
SswuPre(c, z, x) ==
  LET p == c.p
      q == FInv(p, FSub(p, FNeg(p, FDiv(p, FMul(p, x, c.a), c.b)), One))   \* w^2 + w for w = Z u^2
      D == FAdd(p, One, Times(N(4), q))
  IN IF ~FIsSquare(p, D) THEN << >>
     ELSE Flat([i \in 1 .. 2 |->
            LET w == FMul(p, FSub(p, FRootSgn(p, D, IF i = 1 THEN 1 ELSE 0 - 1), One), Half(p))
                v == FDiv(p, w, z)
            IN IF w = Zero \/ ~FIsSquare(p, v) THEN << >> ELSE <<FRootSgn(p, v, 1), FRootSgn(p, v, 0 - 1)>>])
AB0Named(iso, name, z, n) ==
  LET c == Named(name) d == NamedIso(iso).dom
      ker == IF d.h = One THEN << >> ELSE LET K == KerPt(d, N(11), Two) IN Cyc(d, K, K)
      us == UVals(d, FRed(d.p, z), n, 88) \o Flat([i \in 1 .. Len(ker) |-> SswuPre(d, FRed(d.p, z), ker[i].x)]) IN
  Unit("ab0/" \o name, <<Name(name), MkFp(c.p, 2), MkElt(2, z, 3), I("iso", <<iso>>, 8), I("newmap", <<"ab0", 1, 3, 8>>, 4), I("dom", <<8>>, 9), I("newmap", <<"sswu", 9, 3>>, 10)>> \o
    Flat([i \in 1 .. Len(us) |-> <<MkElt(2, us[i], 5), I("map", <<4, 5>>, 6), I("onCurve", <<1, 6>>, 0), I("map", <<10, 5>>, 7), I("push", <<8, 7>>, 11), I("eq", <<6, 11>>, 0),
                                   I("neg", <<5>>, 5), I("map", <<4, 5>>, 0)>>]))
C20Suite(t) ==
  AB0Units(WCurves(7), 3) \o AB0Units(WCurves(11), 3) \o AB0Units(WCurves(13), 3) \o AB0Units(Every(WCurves(19), Pick(4, 1), 0), 3) \o
  AB0Units(WCurves(11), 5) \o AB0Units(Every(WCurves(19), Pick(4, 1), 1), 5) \o AB0Units(WCurves(13), 7) \o AB0Units(Every(WCurves(23), Pick(6, 1), 1), 5) \o
  <<AB0Named("secp256k1", "SECP256K1", N(0 - 11), Pick(20, 150)), AB0Named("bls12381g1", "BLS12381G1", N(11), Pick(20, 150))>>

(*-------------------------------- morphisms ------------------------------*)
\* a morphism f (register 1) applied to points given in three representations, and to sums
\* 1 morphism, 2 dom, 3 cod, 4 field, 5 6 coordinates; A_i, B_i, images
MorphCode(head, op, c, pts, T) ==
  LET n    == Len(pts)
      A(i) == 10 + i
      B(i) == 10 + n + i
      P(i) == 10 + 2 * n + i
      tt   == 10 + 3 * n + 1
      cv   == IF op = "pull" THEN 3 ELSE 2
      cw   == IF op = "pull" THEN 2 ELSE 3
  IN Flat(<<
       <<head, I("dom", <<1>>, 2), I("cod", <<1>>, 3), MkFp(c.p, 4)>>,
       Flat([i \in 1 .. n |-> MkPoint(cv, 4, 5, pts[i], A(i))]),
       Flat([i \in 1 .. n |-> <<I("sub", <<A(i), A(T)>>, tt), I("add", <<tt, A(T)>>, B(i))>>]),
       Flat([i \in 1 .. n |-> <<I(op, <<1, A(i)>>, P(i)), I("onCurve", <<cw, P(i)>>, 0), I(op, <<1, B(i)>>, tt), I("eq", <<tt, P(i)>>, 0), I("isZero", <<tt>>, 0), I("onCurve", <<cw, tt>>, 0),
                                I("clone", <<B(i)>>, tt), I("normalize", <<tt>>, 0), I(op, <<1, tt>>, 0),
                                I("neg", <<B(i)>>, tt), I(op, <<1, tt>>, 0), I("sub", <<A(i), B(i)>>, tt), I(op, <<1, tt>>, 0)>>]),
       Flat([i \in 1 .. n |-> Flat([j \in 1 .. n |->
          <<I("add", <<A(i), B(j)>>, tt), I(op, <<1, tt>>, tt + 1), I("add", <<P(i), P(j)>>, tt + 2), I("eq", <<tt + 1, tt + 2>>, 0)>>])]),
       Read(11, 10 + 3 * n)
     >>)
\* and back: pull after push, push after pull
BackCode(head, c, pts, first, second) ==
  LET n == Len(pts) A(i) == 10 + i B(i) == 10 + n + i tt == 10 + 2 * n + 1 cv == IF first = "pull" THEN 3 ELSE 2 IN
  <<head, I("dom", <<1>>, 2), I("cod", <<1>>, 3), MkFp(c.p, 4), I("scalar", <<cv, "4">>, 7)>> \o
  Flat([i \in 1 .. n |-> MkPoint(cv, 4, 5, pts[i], A(i))]) \o
  Flat([i \in 1 .. n |-> <<I(first, <<1, A(i)>>, tt), I(second, <<1, tt>>, tt + 1), I("eq", <<tt + 1, A(i)>>, 0), I("mul", <<A(i), 7>>, tt + 2), I("eq", <<tt + 1, tt + 2>>, 0),
                           \* the image, not normalized, and back
                           I("add", <<tt, tt>>, tt + 2), I("sub", <<tt + 2, tt>>, tt + 2), I(second, <<1, tt + 2>>, 0)>>])
RatUnits(rat, n) ==
  LET e == RatDom(rat) m == RatCod(rat)
      pe == LowPts(e) \o <<Id(e), Gen(e), Neg(e, Gen(e))>> \o [i \in 1 .. n |-> RndPt(e, 30000 + i)] \o PtsFrom(e, Shape(30000, e.p), 1) \o PtsFrom(e, Shape(30001, e.p), 1)
      pm == LowPts(m) \o <<Id(m), Gen(m), Neg(m, Gen(m))>> \o [i \in 1 .. n |-> RndPt(m, 30100 + i)] \o PtsFrom(m, Shape(30100, m.p), 1) \o PtsFrom(m, Shape(30101, m.p), 1)
      \* low-order points plus a point of large order
      me == LET L == LowPts(e) IN [i \in 1 .. Len(L) |-> Add(e, Gen(e), L[i])]
      mm == LET L == LowPts(m) IN [i \in 1 .. Len(L) |-> Add(m, Gen(m), L[i])]
      \* points with y = 0 on the Montgomery side, x = 0 and y = 0 on the Edwards side
      ex == <<Aff(Zero, One), Aff(Zero, FNeg(e.p, One))>> \o (IF FIsSquare(e.p, FInv(e.p, e.a)) THEN <<Aff(FRootSgn(e.p, FInv(e.p, e.a), 1), Zero)>> ELSE << >>)
      h == I("rat", <<rat>>, 1)
  IN <<Unit("push/" \o rat, MorphCode(h, "push", e, pe \o me \o ex, Len(LowPts(e)) + 2)),
       Unit("pull/" \o rat, MorphCode(h, "pull", m, pm \o mm \o <<Aff(Zero, Zero)>>, Len(LowPts(m)) + 2)),
       Unit("pullpush/" \o rat, BackCode(h, e, pe \o me \o ex, "push", "pull")),
       Unit("pushpull/" \o rat, BackCode(h, m, pm \o mm, "pull", "push")),
       Unit("gens/" \o rat, <<h, I("dom", <<1>>, 2), I("cod", <<1>>, 3), I("gen", <<2>>, 4), I("gen", <<3>>, 5), I("push", <<1, 4>>, 6), I("eq", <<6, 5>>, 0),
          I("pull", <<1, 5>>, 7), I("eq", <<7, 4>>, 0), I("push", <<1, 7>>, 0), I("pull", <<1, 6>>, 0),
          I("named", <<IF rat = "25519" THEN "EDWARDS25519" ELSE "EDWARDS448">>, 8), I("eq", <<2, 8>>, 0),
          I("named", <<IF rat = "25519" THEN "CURVE25519" ELSE "CURVE448">>, 9), I("eq", <<3, 9>>, 0),
          I("identity", <<2>>, 10), I("push", <<1, 10>>, 11), I("isZero", <<11>>, 0), I("identity", <<3>>, 10), I("pull", <<1, 10>>, 11), I("isZero", <<11>>, 0)>>)>>
C21Suite(t) == RatUnits("25519", Pick(2, 8)) \o RatUnits("448", Pick(2, 8))

IsoPool(iso, n) ==
  LET c == NamedIso(iso).dom
      ker == IF c.h = One THEN << >> ELSE LET K == KerPt(c, N(11), Two) IN Cyc(c, K, K)
      G == Gen(c)
  IN <<Id(c), G, Neg(c, G)>> \o PtsFrom(c, Zero, 1) \o [i \in 1 .. n |-> RndPt(c, 31000 + i)] \o ker \o
     (IF ker = << >> THEN << >> ELSE <<Add(c, G, ker[1]), Add(c, G, ker[4])>>)
IsoUnit(iso, n) == Unit("push/" \o iso, MorphCode(I("iso", <<iso>>, 1), "push", NamedIso(iso).dom, IsoPool(iso, n), 2))
IsoMany(iso, n) ==
  LET c == NamedIso(iso).dom pts == PtsFrom(c, Zero, n) \o [i \in 1 .. n |-> RndPt(c, 32000 + i)] \o Flat([i \in 1 .. n |-> PtsFrom(c, Shape(32000 + i, c.p), 1)]) IN
  Unit("many/" \o iso, <<I("iso", <<iso>>, 1), I("dom", <<1>>, 2), I("cod", <<1>>, 3), MkFp(c.p, 4)>> \o
    Flat([i \in 1 .. Len(pts) |-> MkPoint(2, 4, 5, pts[i], 7) \o <<I("push", <<1, 7>>, 8), I("onCurve", <<3, 8>>, 0), I("add", <<7, 7>>, 9), I("push", <<1, 9>>, 0)>>]))
IsoGens(iso, d, c) == Unit("gens/" \o iso, <<I("iso", <<iso>>, 1), I("dom", <<1>>, 2), I("cod", <<1>>, 3), Name(d), I("named", <<d>>, 4), I("eq", <<2, 4>>, 0), I("named", <<c>>, 5), I("eq", <<3, 5>>, 0),
   I("iso", <<iso>>, 1), I("gen", <<2>>, 6), I("push", <<1, 6>>, 7), I("identity", <<2>>, 8), I("push", <<1, 8>>, 9), I("isZero", <<9>>, 0), I("isZero", <<7>>, 0)>>)
C22Suite(t) == <<IsoUnit("secp256k1", Pick(3, 8)), IsoUnit("bls12381g1", Pick(2, 8)), IsoMany("secp256k1", Pick(20, 200)), IsoMany("bls12381g1", Pick(20, 200))>>

(*----------------------------- standard curves ---------------------------*)
NamedUnit(i) ==
  LET c == Named(KN(i)) low == LowPts(c)
      pts == PtsFrom(c, Zero, 2) \o <<RndPt(c, 33000 + i), RndPt(c, 33100 + i)>> \o low
  IN Unit("named/" \o KN(i),
    <<I("named", <<KN(i)>>, 1), MkCurve(c, 2), I("named", <<KN(i)>>, 3), I("eq", <<1, 2>>, 0), I("eq", <<1, 3>>, 0), I("eq", <<2, 3>>, 0), I("clone", <<1>>, 4), I("eq", <<1, 4>>, 0),
      I("order", <<1>>, 0), I("cofactor", <<1>>, 0), I("field", <<1>>, 5), MkFp(c.p, 6), I("eq", <<5, 6>>, 0), I("modulus", <<5>>, 0), I("sizeb", <<5>>, 0),
      I("order", <<2>>, 0), I("cofactor", <<2>>, 0),
      I("gen", <<1>>, 7), I("gen", <<2>>, 8), I("eq", <<7, 8>>, 0), I("onCurve", <<1, 7>>, 0), I("onCurve", <<2, 7>>, 0), I("isZero", <<7>>, 0), I("add", <<7, 8>>, 0),
      I("identity", <<1>>, 9), I("isZero", <<9>>, 0), I("onCurve", <<1, 9>>, 0), I("add", <<7, 9>>, 10), I("eq", <<10, 7>>, 0),
      \* (r-1) G + G is the identity
      I("scalar", <<1, Show(Dec(c.r))>>, 11), I("mul", <<11, 7>>, 12), I("add", <<12, 7>>, 13), I("isZero", <<13>>, 0), I("neg", <<7>>, 14), I("eq", <<12, 14>>, 0),
      I("scalar", <<1, Show(c.r)>>, 15), I("mul", <<15, 7>>, 16), I("isZero", <<16>>, 0),
      I("scalar", <<1, Show(c.h)>>, 17), MkFp(c.p, 18)>> \o
    Flat([k \in 1 .. Len(pts) |-> MkPoint(1, 18, 19, pts[k], 21) \o
      <<I("mul", <<17, 21>>, 22), I("mul", <<11, 22>>, 23), I("add", <<23, 22>>, 24), I("isZero", <<24>>, 0)>>]) \o
    <<I("named", <<KN(1 + (i % NNamed))>>, 30)>> \o
    (IF Named(KN(1 + (i % NNamed))).kind = c.kind THEN <<I("eq", <<1, 30>>, 0)>> ELSE << >>))
C23Suite(t) == [i \in 1 .. NNamed |-> NamedUnit(i)] \o
  <<IsoGens("secp256k1", "SECP256K1_3ISO", "SECP256K1"), IsoGens("bls12381g1", "BLS12381G1_11ISO", "BLS12381G1")>> \o
  [i \in 1 .. 2 |-> RatUnits(<<"25519", "448">>[i], 0)[5]]

(*------------------------------- constructors ----------------------------*)
\* every z on every curve of a small field, singular ones too; two elements mapped when accepted
NewCode(m, c) ==
  LET p == ToInt(c.p) IN
  <<Toy(c), MkFp(c.p, 2)>> \o [i \in 1 .. p |-> MkElt(2, N(i - 1), 2 + i)] \o
  Flat([i \in 1 .. p |-> <<I("newmap", <<m, 1, 2 + i>>, 3 + p)>> \o
     (IF MapOk(m, c, N(i - 1)) /\ (c.kind # "w" \/ Nonsingular(c)) THEN [j \in 1 .. p |-> I("map", <<3 + p, 2 + j>>, 0)] ELSE << >>)])
AllW(p) == [i \in 1 .. p * p |-> Curve("w", p, (i - 1) \div p, (i - 1) % p, 0, 0)]
AllM(p) == [i \in 1 .. p * p |-> Curve("m", p, (i - 1) \div p, (i - 1) % p, 0, 1)]
NewUnits(m, cs) == [i \in 1 .. Len(cs) |-> Unit("new/" \o m \o "/" \o ToyId(cs[i], i), NewCode(m, cs[i]))]
\* constructors on standard curves, many z
NamedNew(i) ==
  LET c == Named(KN(i))
      zs == <<Zero, One, Dec(c.p)>> \o Flat([k \in 1 .. Pick(8, 20) |-> <<N(k + 1), FNeg(c.p, N(k + 1))>>]) \o [k \in 1 .. Pick(6, 40) |-> Rnd(34000 + 100 * i + k, c.p)]
      ms == IF IsW(c) THEN <<"sswu", "svdw">> ELSE <<"ell2">>
  IN Unit("new/" \o KN(i), <<Name(KN(i)), MkFp(c.p, 2), MkElt(2, N(5), 3)>> \o
       Flat([k \in 1 .. Len(zs) |-> <<MkElt(2, zs[k], 4)>> \o Flat([j \in 1 .. Len(ms) |->
          <<I("newmap", <<ms[j], 1, 4>>, 5)>> \o (IF MapOk(ms[j], c, zs[k]) THEN <<I("map", <<5, 3>>, 0)>> ELSE << >>)])]))
NotEd == SelectSeq([i \in 1 .. NNamed |-> i], LAMBDA i : Named(KN(i)).kind # "e")
\* AB=0: right and wrong combinations of isogeny, curve, z
AB0New(v, others) ==
  LET c == v.dom p == ToInt(c.p) IN
  <<MkCurve(Gened(c), 1), MkCurve(Gened(v.cod), 2), MkFp(c.p, 3), I("isotab", <<1, 2, VTab(c, v.T)>>, 4)>> \o
  Flat([i \in 1 .. p |-> <<MkElt(3, N(i - 1), 5), I("newmap", <<"ab0", 2, 5, 4>>, 6)>> \o
     (IF AB0Ok(Gened(v.cod), N(i - 1), c, Gened(v.cod)) THEN <<I("map", <<6, 5>>, 0)>> ELSE << >>) \o
     <<I("newmap", <<"ab0", 1, 5, 4>>, 6)>>]) \o
  Flat([k \in 1 .. Len(others) |-> <<MkCurve(others[k], 7)>> \o Flat([i \in 1 .. p |-> <<MkElt(3, N(i - 1), 5), I("newmap", <<"ab0", 7, 5, 4>>, 6)>>])])
Others(c) == LET g == Gened(c) IN <<[g EXCEPT !.h = Two], [g EXCEPT !.r = Inc(g.r)], WithGen(g, Neg(g, Gen(g))), [g EXCEPT !.a = FAdd(g.p, g.a, One)], [g EXCEPT !.b = FAdd(g.p, g.b, One)]>>
AB0News(cs, l, any) == LET vs == IF any THEN VeluAll(cs, l) ELSE VeluAB0(cs, l) IN
  [i \in 1 .. Len(vs) |-> Unit("new/ab0/" \o ToString(l) \o "/" \o ToyId(vs[i].dom, i), AB0New(vs[i], Others(vs[i].cod)))]
NamedAB0New(t) ==
  Unit("new/ab0/named", <<I("iso", <<"secp256k1">>, 1), I("iso", <<"bls12381g1">>, 2), I("named", <<"SECP256K1">>, 3), I("named", <<"BLS12381G1">>, 4), I("named", <<"SECP256K1_3ISO">>, 5), I("named", <<"BLS12381G1_11ISO">>, 6),
     I("named", <<"P256">>, 7), MkFp(ModOf(4), 8), MkFp(ModOf(9), 9)>> \o
   Flat([k \in 1 .. 12 |-> LET z == <<0 - 11, 11, 0, 1, 0 - 1, 2, 3, 0 - 3, 5, 7, 0 - 7, 13>>[k] IN
     <<MkElt(8, N(z), 10), MkElt(9, N(z), 11), I("newmap", <<"ab0", 3, 10, 1>>, 0), I("newmap", <<"ab0", 4, 11, 2>>, 0),
       I("newmap", <<"ab0", 5, 10, 1>>, 0), I("newmap", <<"ab0", 6, 11, 2>>, 0), I("newmap", <<"ab0", 3, 10, 2>>, 0), I("newmap", <<"ab0", 4, 11, 1>>, 0), I("newmap", <<"ab0", 7, 10, 1>>, 0),
       I("newmap", <<"sswu", 3, 10>>, 0), I("newmap", <<"svdw", 3, 10>>, 0), I("newmap", <<"sswu", 4, 11>>, 0), I("newmap", <<"svdw", 4, 11>>, 0)>>]))
NamedEdNew(t) ==
  Unit("new/ell2e", <<I("rat", <<"25519">>, 1), I("rat", <<"448">>, 2), I("named", <<"EDWARDS25519">>, 3), I("named", <<"EDWARDS448">>, 4), MkFp(ModOf(5), 8), MkFp(ModOf(7), 9)>> \o
   [i \in 1 .. 1 |-> MkCurve([Named("EDWARDS25519") EXCEPT !.h = Two], 5)] \o <<MkCurve(Named("EDWARDS25519"), 6), MkCurve(Named("EDWARDS448"), 7)>> \o
   Flat([k \in 1 .. 10 |-> LET z == <<2, 0 - 1, 0, 1, 4, 3, 5, 0 - 2, 9, 6>>[k] IN
     <<MkElt(8, N(z), 10), MkElt(9, N(z), 11), I("newmap", <<"ell2e", 3, 10, 1>>, 0), I("newmap", <<"ell2e", 4, 11, 2>>, 0), I("newmap", <<"ell2e", 3, 10, 2>>, 0), I("newmap", <<"ell2e", 4, 11, 1>>, 0),
       I("newmap", <<"ell2e", 5, 10, 1>>, 0), I("newmap", <<"ell2e", 6, 10, 1>>, 0), I("newmap", <<"ell2e", 7, 11, 2>>, 0)>>]))
\* constants of another field
NewFar(m, c0, q) ==
  LET c == Gened(c0) IN
  Unit("newfar/" \o m \o "/" \o ToyId(c, 0) \o "/" \o PName(q), <<Toy(c), MkFp(q, 2), MkFp(c.p, 4)>> \o
    Flat([i \in 1 .. 13 |-> LET z == N(i - 1) IN <<MkElt(2, z, 3), I("newmap", <<m, 1, 3>>, 0)>> \o (IF Less(z, c.p) THEN <<MkElt(4, z, 3), I("newmap", <<m, 1, 3>>, 0)>> ELSE << >>)]))
NewFars(m, cs) == Flat([i \in 1 .. Len(cs) |-> LET qs == SelectSeq(<<N(5), N(7), N(11), N(13), N(19), ModOf(1)>>, LAMBDA q : q # cs[i].p) IN [k \in 1 .. Len(qs) |-> NewFar(m, cs[i], qs[k])]])
C24Suite(t) ==
  NewFars("sswu", Every(WCurves(11), 20, 0) \o Every(WCurves(13), 40, 1)) \o NewFars("svdw", Every(WCurves(11), 20, 3) \o Every(WCurves(7), 10, 1)) \o NewFars("ell2", Every(MCurves(11), 5, 0) \o Every(MCurves(13), 9, 1)) \o
  MapMixAll(0) \o
  NewUnits("sswu", AllW(5) \o AllW(7) \o Every(AllW(11), Pick(2, 1), 0) \o Every(AllW(13), Pick(6, 1), 0)) \o NewUnits("svdw", AllW(5) \o AllW(7) \o Every(AllW(11), Pick(2, 1), 1) \o Every(AllW(13), Pick(6, 1), 1)) \o
  NewUnits("ell2", AllM(5) \o AllM(7) \o Every(AllM(11), Pick(2, 1), 1) \o Every(AllM(13), Pick(6, 1), 0)) \o
  [i \in 1 .. Len(NotEd) |-> NamedNew(NotEd[i])] \o
  AB0News(WCurves(7), 3, FALSE) \o AB0News(WCurves(11), 5, FALSE) \o AB0News(Every(WCurves(13), Pick(3, 1), 0), 3, FALSE) \o AB0News(Every(WCurves(11), Pick(10, 2), 0), 3, TRUE) \o
  <<NamedAB0New(0), NamedEdNew(0)>>
=============================================================================
