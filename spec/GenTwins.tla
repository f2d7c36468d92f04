------------------------------ MODULE GenTwins ------------------------------
(***************************************************************************)
(* Twins: computations on several objects at once, taking turns call by    *)
(* call, that use the same numbers, strings and coordinates on different   *)
(* fields, groups and curves.  What an object answers is a matter of that  *)
(* object only: nothing one computes may be taken for another's.           *)
(***************************************************************************)
EXTENDS GenConc
LOCAL INSTANCE SequencesExt

\* the same call on registers off higher
Shift(ins, off) ==
  LET rs == RegArgs(ins) IN
  IF off = 0 THEN ins
  ELSE [o |-> ins.o, a |-> << >> \o [i \in 1 .. Len(ins.a) |-> IF i \in rs THEN ins.a[i] + off ELSE ins.a[i]], d |-> IF ins.d = 0 THEN 0 ELSE ins.d + off]
\* units taking turns
Inter(id, us0) ==
  LET us  == << >> \o us0
      offs == FoldLeft(LAMBDA acc, un : Append(acc, acc[Len(acc)] + un.n), <<0>>, us)
      most == FoldLeft(LAMBDA acc, un : IF Len(un.code) > acc THEN Len(un.code) ELSE acc, 0, us)
      at(k, i) == IF k <= Len(us[i].code) THEN <<Shift(us[i].code[k], offs[i])>> ELSE << >>
      turn(k) == FoldLeft(LAMBDA acc, i : acc \o at(k, i), << >>, [i \in 1 .. Len(us) |-> i])
      blk(b) == FoldLeft(LAMBDA acc, k : acc \o turn(k), << >>, [j \in 1 .. 64 |-> 64 * b + j])
  IN Unit("twins/" \o id, FoldLeft(LAMBDA acc, b : acc \o blk(b), << >>, [b \in 1 .. (most + 63) \div 64 |-> b - 1]))
InterAll(id, f(_), n) == Inter(id, [i \in 1 .. n |-> Unit(id, f(i))])

(*---------------------------------- fields -------------------------------*)
LookSet(ks) == << >> \o Flat([i \in 1 .. Len(ks) |-> Lookalikes(0)[ks[i]]])
PSets(t) == << << N(3), N(5), N(7), N(11), N(13) >>,
               << N(251), N(257), N(65521), N(65537) >>,
               << N("4294967291"), N("4294967311"), N("2305843009213693951"), N("18446744073709551557"), N("18446744073709551629") >>,
               << ModOf(1), ModOf(4), ModOf(5), OrdOf(1), OrdOf(5) >>,
               << ModOf(2), ModOf(7), ModOf(3), ModOf(9), ModOf(1) >>,
               LookSet(<<1, 2>>), LookSet(<<7, 9>>), LookSet(<<5, 14>>) >>
Least(ps) == FoldLeft(LAMBDA acc, q : IF Less(q, acc) THEN q ELSE acc, ps[1], ps)
Common(ps, n, s) == LET m == Least(ps) IN
  << >> \o <<Zero, One, Two>> \o (IF Less(N(3), m) THEN <<Dec(m), DivF(m, Two)>> ELSE << >>) \o
  (IF Less(m, N(20)) THEN << >> ELSE <<N(4), N(9), N(16)>> \o [i \in 1 .. n |-> Rnd(60000 + 100 * s + i, m)] \o [i \in 1 .. n |-> Shape(60000 + 100 * s + i, m)])
\* squares in many of them: squares of integers below the root of the least
Squares(ps, n, s) == LET m == Least(ps) b == Pow2((BitLen(m) - 1) \div 2) IN [i \in 1 .. n |-> FSqr(m, Rnd(60500 + 100 * s + i, b))]
Sets(f(_, _)) == << >> \o [k \in 1 .. 8 |-> f(k, PSets(0)[k])]
\* elements that look alike
LookElts(p, s) ==
  LET n == (BitLen(p) - 1) \div 32 w == Pow2(32) x == Rnd(69000 + s, Pow2(32 * n))
      ds == << >> \o [i \in 1 .. n |-> ModF(DivF(x, Pow2(32 * (i - 1))), w)]
      num(es) == FoldLeft(LAMBDA acc, e : Plus(Times(acc, w), e), Zero, Reverse(es))
      swap(i, j) == num([k \in 1 .. n |-> IF k = i THEN ds[j] ELSE IF k = j THEN ds[i] ELSE ds[k]] \o << >>)
      m == (n + 1) \div 2
  IN IF n < 3 THEN << >> ELSE
     <<x, num(Reverse(ds)), swap(1, 2), swap(m, m + 1), swap(1, n),
       FRed(p, Plus(x, Minus(Pow2(32 * (n - 1)), One))), FRed(p, Plus(x, Pow2(32 * m))), FRed(p, Plus(x, Pow2(BitLen(p) - 2))),
       num(Tail(ds) \o <<ds[1]>>), FromDigits(Reverse(BytesBE(x, 4 * n)), 256)>>
LookPs == SelectSeq(BigPrimes(0), LAMBDA p : BitLen(p) > 96)
C01Look(t) == [i \in 1 .. Len(LookPs) |-> Unit("look/fp/" \o PName(LookPs[i]), FRing(LookPs[i], LookElts(LookPs[i], i)))]
C06Look(t) == LET ps == SelectSeq(QPrimes(0), LAMBDA p : BitLen(p) > 96) IN
  [i \in 1 .. Len(ps) |-> LET es == LookElts(ps[i], 20 + i) p == ps[i]
     IN Unit("look/fp2/" \o PName(p), QRing(p, << <<es[1], es[1]>>, <<es[1], es[2]>>, <<es[2], es[1]>>, <<es[3], es[4]>>, <<es[4], es[3]>>, <<es[6], es[1]>>, <<es[1], es[6]>>, <<es[10], es[5]>> >>, 1))]
C08Look(t) == Flat([k \in 1 .. 3 |-> LET rs == SelectSeq(Orders(0), LAMBDA r : BitLen(r) > 96) IN
  [i \in 1 .. Len(rs) |-> LET es == LookElts(rs[i], 40 + i) IN Unit("look/" \o Kinds[k] \o "/" \o PName(rs[i]), ScCode(Kinds[k], rs[i], <<es[1], es[2], es[3], es[5], es[6], es[8], es[10]>>))]])
C01Twins(t) == C01Look(0) \o Sets(LAMBDA k, ps : LET xs == Common(ps, Pick(2, 8), k) IN InterAll("fp/" \o ToString(k), LAMBDA i : FRing(ps[i], xs), Len(ps)))
TwinExps(ps, s) == LET m == Least(ps) IN << N(0 - 2), N(0 - 1), Zero, Two, N(3), Dec(m), Pow2(32), Minus(Zero, Pow2(64)), Rnd(61000 + s, Times(m, m)), Shape(61000 + s, m) >>
C02Twins(t) == Sets(LAMBDA k, ps : LET xs == Common(ps, Pick(1, 6), k) es == TwinExps(ps, k) IN InterAll("fp/" \o ToString(k), LAMBDA i : FInvs(ps[i], xs, es), Len(ps)))
RootSet(ps) == SelectSeq(ps, HasRoots)
\* a great many roots in one field, then some of them again
ManyRoots(p, n, s) ==
  LET x(i) == Rnd(62000000 + 10000 * s + i, p) IN
  Unit("many/fp/" \o PName(p), <<MkFp(p, 1)>> \o Flat([b \in 1 .. n \div 50 |-> Flat([i \in 1 .. 50 |-> <<MkElt(1, x(50 * b + i), 2), I("sqrt", <<2>>, 0)>>])
     \o Flat([i \in 1 .. 7 |-> <<MkElt(1, x(50 * (1 + ((3 * i + i * i) % b)) + i), 2), I("sqrt", <<2>>, 0), I("isSquare", <<2>>, 0)>>])]))
\* elements that agree in their low, or high, words
LowHigh(p, n, s) ==
  LET c == Rnd(63000 + s, Two64) h == DivF(Rnd(63100 + s, p), Pow2(80)) IN
  << >> \o [i \in 1 .. n |-> FRed(p, Plus(c, Times(N(i - 1), Two64)))] \o [i \in 1 .. n |-> FRed(p, Plus(N(i - 1), Times(h, Pow2(80))))]
  \o [i \in 1 .. n |-> FRed(p, Plus(c, Times(N(i - 1), Pow2(BitLen(p) - 9))))]
C03Many(t) == <<ManyRoots(ModOf(1), Pick(2000, 6000), 1), ManyRoots(ModOf(5), Pick(1000, 4000), 2), ManyRoots(N(65519), Pick(1500, 6000), 3), ManyRoots(N("4294967291"), Pick(1500, 6000), 4)>> \o
  (LET ps == SelectSeq(StdPrimes(0), HasRoots) IN [i \in 1 .. Len(ps) |-> LET xs == LowHigh(ps[i], Pick(12, 60), i) \o LookElts(ps[i], 60 + i) IN
     Unit("words/fp/" \o PName(ps[i]), <<MkFp(ps[i], 1)>> \o ForAll(Len(xs), LAMBDA j : <<MkElt(1, xs[j], 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 3), I("sqr", <<3>>, 0)>>))])
C03Twins(t) == Sets(LAMBDA k, qs : LET ps == RootSet(qs) xs == Common(ps, Pick(3, 20), k) \o Squares(ps, Pick(4, 20), k) IN InterAll("fp/" \o ToString(k), LAMBDA i : FRoots(ps[i], xs, 0), Len(ps)))
               \o C03Many(0)
SgnXs(ps, k) == Common(ps, Pick(10, 60), k)
C04Twins(t) == Sets(LAMBDA k, ps : LET xs == SgnXs(ps, k) IN InterAll("fp/" \o ToString(k), LAMBDA i : FpHead(ps[i], xs) \o SgnCode(xs), Len(ps))) \o
  \* the same numbers in a field and in its extension
  (LET ps == QPrimes(0) IN [k \in 1 .. Len(ps) |-> LET p == ps[k] xs == Common(<<p>>, Pick(4, 20), 20 + k) qs == Flat([i \in 1 .. Len(xs) |-> <<<<xs[i], Zero>>, <<Zero, xs[i]>>>>]) IN
     Inter("both/" \o PName(p), <<Unit("", FpHead(p, xs) \o SgnCode(xs)), Unit("", QHead(p, qs) \o SgnCode(qs))>>)])
\* one program of conversions for fields of one size, for fields of several sizes
ConvCode(head, xs, n, s) == <<head, I("sizeb", <<1>>, 0), I("modulus", <<1>>, 0)>> \o PrimCode \o Conv(1, xs) \o TextCode(xs) \o BytesCode(ByteStrings(One, n, s))
ConvCode2(head, xs, n, s) == <<head, I("sizeb", <<1>>, 0), I("modulus", <<1>>, 0)>> \o PrimCode \o Conv(1, xs) \o TextCode2(xs) \o BytesCode(ByteStrings(One, n, s))
C05Twins(t) == Sets(LAMBDA k, ps : LET xs == Ints(ps[1], 70 + k) IN InterAll("fp/" \o ToString(k), LAMBDA i : ConvCode(MkFp(ps[i], 1), xs, FSize(ps[1]), 5 + k), Len(ps))) \o
  Sets(LAMBDA k, ps : LET xs == Ints(ps[2], 80 + k) IN InterAll("fp2/" \o ToString(k), LAMBDA i : ConvCode2(MkFp2(ps[i], 1), xs, QSize(ps[1]), 15 + k), Len(ps))) \o
  Sets(LAMBDA k, ps : LET xs == Ints(ps[1], 90 + k) p == ps[1] IN Inter("both/" \o PName(p), <<Unit("", ConvCode(MkFp(p, 1), xs, QSize(p), 25 + k)), Unit("", ConvCode2(MkFp2(p, 1), xs, QSize(p), 25 + k))>>))
QSets(t) == << << N(3), N(7), N(11), N(19) >>, << N("4294967291"), N("2305843009213693951"), N("170141183460469231731687303715884105727") >>, << ModOf(1), ModOf(4), ModOf(2) >>, << ModOf(3), ModOf(9), ModOf(7) >>, LookSet(<<1, 2>>), LookSet(<<10, 14>>) >>
QSetsOk(f(_, _)) == << >> \o [k \in 1 .. 6 |-> f(k, SelectSeq(QSets(0)[k], LAMBDA p : ToInt(ModF(p, N(4))) = 3))]
QCommon(ps, n, s) == LET m == Least(ps) e == <<Zero, One, Dec(m), Two>> IN
  << >> \o ForAll(Pick(3, 4), LAMBDA i : [j \in 1 .. 3 |-> <<e[i], e[j]>>]) \o [i \in 1 .. n |-> <<Rnd(64000 + 100 * s + i, m), Shape(64100 + 100 * s + i, m)>>] \o [i \in 1 .. n |-> <<Shape(64200 + 100 * s + i, m), Rnd(64300 + 100 * s + i, m)>>]
C06Twins(t) == C06Look(0) \o QSetsOk(LAMBDA k, ps : LET xs == QCommon(ps, Pick(1, 5), k) IN InterAll("fp2/" \o ToString(k), LAMBDA i : QRing(ps[i], xs, Pick(2, 1)), Len(ps))) \o
  QSetsOk(LAMBDA k, ps : LET xs == SubSeq(QCommon(ps, 2, k), 4, 11) es == TwinExps(ps, 10 + k) IN InterAll("fp2pow/" \o ToString(k), LAMBDA i : QPows(ps[i], xs, es), Len(ps)))
\* squares of elements with small coordinates are squares of the same shape everywhere
C07Twins(t) == QSetsOk(LAMBDA k, ps : LET m == Least(ps) xs == QCommon(ps, Pick(1, 6), 20 + k) \o << <<Minus(m, Two), N(1)>>, <<Zero, Two>>, <<N(0), Dec(m)>> >> IN
                 InterAll("fp2/" \o ToString(k), LAMBDA i : QRoots(ps[i], xs, 0), Len(ps))) \o
  (LET ps == QPrimes(0) IN [k \in 1 .. Len(ps) |-> LET p == ps[k] xs == Common(<<p>>, Pick(2, 12), 40 + k) qs == Flat([i \in 1 .. Len(xs) |-> <<<<xs[i], Zero>>, <<Zero, xs[i]>>>>]) IN
     Inter("both/" \o PName(p), <<Unit("", QRoots(p, qs, 0)), Unit("", FRoots(p, xs, 0))>>)]) \o
  <<Unit("many/fp2", LET p == N(65519) x(i) == <<Rnd(65000000 + i, p), Rnd(65500000 + i, p)>> IN <<MkFp2(p, 1)>> \o Flat([i \in 1 .. Pick(600, 3000) |-> <<MkElt2(1, x(i), 2), I("sqrt", <<2>>, 0)>> \o
      (IF i % 6 = 0 THEN <<MkElt2(1, x(1 + ((7 * i) % (i - 1))), 2), I("sqrt", <<2>>, 0), I("isSquare", <<2>>, 0)>> ELSE << >>)]))>>
C08Twins(t) == C08Look(0) \o Sets(LAMBDA k, ps : LET xs == Common(ps, Pick(1, 6), 60 + k) \o <<N(0 - 1), Inc(Least(ps))>> IN InterAll("sc/" \o ToString(k), LAMBDA i : ScCode(Kinds[1 + (i % 3)], ps[i], xs), Len(ps))) \o
  [k \in 1 .. 3 |-> LET r == <<OrdOf(1), N(11), OrdOf(7)>>[k] xs == Common(<<r>>, Pick(1, 6), 70 + k) IN InterAll("kinds/" \o ToString(k), LAMBDA i : ScCode(Kinds[i], r, xs), 3)]

(*---------------------------------- curves -------------------------------*)
\* k curves over one field at a time
RECURSIVE Groups(_, _)
Groups(us, k) == IF Len(us) < 2 THEN << >> ELSE LET n == IF Len(us) < k THEN Len(us) ELSE k IN <<SubSeq(us, 1, n)>> \o Groups(SubSeq(us, n + 1, Len(us)), k)
InterBy(id, us, k) == LET gs == Groups(us, k) IN << >> \o [i \in 1 .. Len(gs) |-> Inter(id \o "/" \o gs[i][1].id, gs[i])]
Ws(p, k) == Every(WOdd(p), k, 0)
Ms(p, k) == MWithS(Every(MCurves(p), k, 0), 2)
Es(p, k) == Every(ECurves(p), k, 0)
C09Twins(t) == InterBy("w", GroupUnits(Ws(7, Pick(3, 1))), 3) \o InterBy("w", GroupUnits(Ws(11, Pick(8, 2))), 3)
C10Twins(t) == InterBy("m", GroupUnits(Ms(7, Pick(4, 1))), 3) \o InterBy("m", GroupUnits(Ms(11, Pick(16, 3))), 3)
C11Twins(t) == InterBy("e", GroupUnits(Es(7, 1)), 3) \o InterBy("e", GroupUnits(Es(13, Pick(6, 2))), 3)
\* the same scalars on several curves
CommonKs(r, s) == << Two, N(7), Pow2(64), Rnd(66000 + s, r), Shape(66000 + s, r), Dec(r) >>
TwinMul(c, head, r, s) == MulCode(head, c, <<Id(c), Gen(c)>> \o PtsFrom(c, Zero, Pick(1, 4)), 2, CommonKs(r, s))
LeastOrder(ns) == Least([i \in 1 .. Len(ns) |-> Named(ns[i]).r])
NameSets(t) == << <<"P256", "SECP256K1", "SECP256K1_3ISO">>, <<"BLS12381G1", "BLS12381G1_11ISO">>, <<"CURVE25519", "EDWARDS25519">>, <<"CURVE448", "EDWARDS448", "P521">> >>
C12Twins(t) ==
  InterBy("w", MulUnits(Ws(7, Pick(6, 1)) \o Ws(11, Pick(24, 4))), 3) \o InterBy("m", MulUnits(Ms(7, Pick(10, 2))), 3) \o InterBy("e", MulUnits(Es(7, 2) \o Es(13, Pick(12, 3))), 3) \o
  InterBy("kinds", Flat([i \in 1 .. 3 |-> MulUnits(<<WOdd(11)[2 * i], Ms(11, 16)[i], ECurves(11)[i]>>)]), 6) \o
  [k \in 1 .. 4 |-> LET ns == NameSets(0)[k] r == LeastOrder(ns) IN InterAll("named/" \o ns[1], LAMBDA i : TwinMul(Named(ns[i]), Name(ns[i]), r, k), Len(ns))]
C13Twins(t) ==
  InterBy("w", CoordUnits(Every(WCurves(7), Pick(5, 2), 0) \o Every(WCurves(11), Pick(16, 4), 0)), 3) \o InterBy("m", CoordUnits(Ms(7, Pick(6, 2)) \o Ms(11, Pick(24, 6))), 3) \o InterBy("e", CoordUnits(Es(7, 1) \o Es(11, Pick(5, 2))), 3) \o
  InterBy("state", StateUnits(Ws(7, Pick(6, 2))), 3) \o InterBy("state", StateUnits(Ms(7, Pick(12, 3))), 3) \o InterBy("state", StateUnits(Es(7, 2)), 2) \o
  \* the points of one curve tried on the others over its field
  [k \in 1 .. 3 |-> LET ns == NameSets(0)[k] pts == Flat([j \in 1 .. Len(ns) |-> PtsFrom(Named(ns[j]), Zero, 3)]) IN
     InterAll("coords/" \o ns[1], LAMBDA i : <<Name(ns[i]), MkFp(Named(ns[i]).p, 2)>> \o Flat([j \in 1 .. Len(pts) |-> <<MkElt(2, pts[j].x, 3), MkElt(2, pts[j].y, 4), I("point", <<1, 3, 4>>, 5), MkElt(2, FNeg(Named(ns[i]).p, pts[j].y), 4), I("point", <<1, 3, 4>>, 5), I("onCurve", <<1, 5>>, 0)>>]), Len(ns))]
C14Twins(t) == InterBy("w", EncUnits(Ws(7, Pick(3, 1)) \o Ws(11, Pick(16, 4))), 3) \o InterBy("m", EncUnits(Ms(7, Pick(6, 1))), 3) \o InterBy("e", EncUnits(Es(7, 1) \o Es(11, Pick(4, 1))), 3) \o
  [k \in 1 .. 4 |-> LET ns == NameSets(0)[k] IN InterAll("named/" \o ns[1], LAMBDA i : LET c == Named(ns[i]) IN EncCode(Name(ns[i]), c, <<Id(c), Gen(c)>> \o PtsFrom(c, Zero, Pick(4, 12)), 2), Len(ns))]
\* the same strings on all curves of one size of coordinates
TwinStrings(n, s) ==
  LET x(i) == IF i <= 30 THEN N(i - 1) ELSE IF i % 2 = 0 THEN Rnd(67000 + 100 * s + i, Pow2(8 * n - 2)) ELSE Shape(67000 + 100 * s + i, Dec(Pow2(8 * n - 2)))
      be(i) == Reverse(BytesLE(x(i), n)) IN
  << >> \o Flat([i \in 1 .. 30 + Pick(10, 60) |-> <<Dcd(<<2>> \o be(i)), Dcd(<<3>> \o be(i)), Dcd(BytesLE(x(i), n)), Dcd(<<2>> \o be(i))>>])
DecTwins(id, cs) == InterBy(id, [i \in 1 .. Len(cs) |-> DecToy(cs[i], i)], 3)
C15Twins(t) ==
  DecTwins("w", Every(WCurves(7), Pick(8, 2), 0) \o Every(WCurves(11), Pick(20, 5), 0)) \o DecTwins("m", Ms(7, Pick(8, 2))) \o DecTwins("e", Es(7, Pick(2, 1))) \o
  DecTwins("kinds", Flat([i \in 1 .. Pick(2, 6) |-> <<WOdd(11)[3 * i], Ms(11, 16)[2 * i], ECurves(11)[i]>>])) \o
  [k \in 1 .. 3 |-> LET ns == << <<"P256", "SECP256K1", "SECP256K1_3ISO", "CURVE25519", "EDWARDS25519">>, <<"BLS12381G1", "BLS12381G1_11ISO", "P384">>, <<"CURVE448", "EDWARDS448">> >>[k]
                         n == <<32, 48, 56>>[k] ss == TwinStrings(n, k) IN
     InterAll("named/" \o ns[1], LAMBDA i : <<Name(ns[i])>> \o ss, Len(ns))]

(*----------------------------- maps, morphisms ---------------------------*)
MapBy(m, cs, k) == InterBy(m, MapUnits(m, cs), k)
TwinMap(m, name, z, us) ==
  <<Name(name), I("field", <<1>>, 2), MkElt(2, z, 3), I("newmap", <<m, 1, 3>>, 4)>> \o Flat([i \in 1 .. Len(us) |-> <<MkElt(2, us[i], 5), I("map", <<4, 5>>, 6), I("neg", <<5>>, 7), I("map", <<4, 7>>, 8), I("onCurve", <<1, 6>>, 0), I("eq", <<6, 8>>, 0)>>])
TwinUs(s) == << >> \o <<Zero, One, Two, N(3), N(4), N(5), N(6), N(7)>> \o [i \in 1 .. Pick(3, 20) |-> Rnd(68000 + 100 * s + i, Pow2(250))] \o [i \in 1 .. Pick(3, 20) |-> Shape(68000 + 100 * s + i, Dec(Pow2(250)))]
NamedTwins(id, ms, s) == LET us == TwinUs(s) IN <<InterAll(id, LAMBDA i : TwinMap(ms[i][1], ms[i][2], N(ms[i][3]), us), Len(ms))>>
C17Twins(t) == MapBy("sswu", Every(WCurves(7), Pick(4, 1), 0) \o Every(WCurves(11), Pick(8, 2), 0), 3) \o
  NamedTwins("named", << <<"sswu", "P256", 0 - 10>>, <<"sswu", "P384", 0 - 12>>, <<"sswu", "P521", 0 - 4>>, <<"sswu", "SECP256K1_3ISO", 0 - 11>>, <<"sswu", "BLS12381G1_11ISO", 11>>, <<"svdw", "P256", 0 - 3>>, <<"sswu", "P256", 0 - 10>> >>, 1)
C18Twins(t) == MapBy("svdw", Every(WCurves(7), Pick(4, 1), 0) \o Every(WCurves(11), Pick(8, 2), 0), 3) \o
  NamedTwins("named", << <<"svdw", "P256", 0 - 3>>, <<"svdw", "P384", 0 - 1>>, <<"svdw", "P521", 1>>, <<"svdw", "SECP256K1", 1>>, <<"svdw", "BLS12381G1", 0 - 3>>, <<"sswu", "P256", 0 - 10>>, <<"svdw", "P256", 0 - 3>> >>, 2)
C19Twins(t) == MapBy("ell2", Every(MAny(7), Pick(4, 1), 0) \o Every(MAny(11), Pick(10, 2), 0), 3) \o
  NamedTwins("named", << <<"ell2", "CURVE25519", 2>>, <<"ell2", "CURVE448", 0 - 1>>, <<"svdw", "P256", 0 - 3>>, <<"ell2", "CURVE25519", 2>> >>, 3) \o
  <<Inter("ell2e", <<Ell2E("EDWARDS25519", "25519", N(2), Pick(4, 30)), Ell2E("EDWARDS448", "448", N(0 - 1), Pick(4, 30)), NamedMap("ell2", "CURVE25519", N(2), Pick(4, 30))>>)>>
C20Twins(t) == InterBy("ab0", AB0Units(WCurves(11), 3), 3) \o InterBy("ab0", AB0Units(Every(WCurves(13), Pick(2, 1), 0), 3), 3) \o
  <<Inter("named", <<AB0Named("secp256k1", "SECP256K1", N(0 - 11), Pick(4, 40)), AB0Named("bls12381g1", "BLS12381G1", N(11), Pick(4, 40)), NamedMap("sswu", "SECP256K1_3ISO", N(0 - 11), Pick(4, 40))>>)>>
\* small coordinates on both, and whole units
C21Twins(t) == LET a == RatUnits("25519", 1) b == RatUnits("448", 1) IN << >> \o [i \in 1 .. 5 |-> Inter(a[i].id, <<a[i], b[i]>>)] \o <<Inter("pushpull", <<a[1], a[2], b[2], b[1]>>)>>
C22Twins(t) == <<Inter("push", <<IsoUnit("secp256k1", 1), IsoUnit("bls12381g1", 1)>>), Inter("many", <<IsoMany("secp256k1", Pick(10, 60)), IsoMany("bls12381g1", Pick(10, 60)), IsoMany("secp256k1", Pick(5, 30))>>)>>
C23Twins(t) == <<Inter("named", [i \in 1 .. NNamed |-> NamedUnit(i)])>>
C24Twins(t) == InterBy("sswu", NewUnits("sswu", Every(AllW(7), Pick(3, 1), 0)), 4) \o InterBy("svdw", NewUnits("svdw", Every(AllW(7), Pick(3, 1), 1)), 4) \o InterBy("ell2", NewUnits("ell2", Every(AllM(7), Pick(4, 1), 0)), 4) \o
  InterBy("both", Flat([i \in 1 .. Pick(6, 40) |-> <<NewUnits("sswu", AllW(11))[3 * i + 20], NewUnits("svdw", AllW(11))[3 * i + 20]>>]), 4)
\* sessions on different curves taking turns
C27Twins(t) ==
  LET w(i) == Session("w", ToyK(WOdd(11)[1 + ((5 * i) % 40)]), 9000000 + i, 40)
      m(i) == Session("m", ToyK(MWithS(MCurves(11), 1)[1 + ((5 * i) % 30)]), 9100000 + i, 40)
      e(i) == Session("e", ToyK(ECurves(11)[1 + ((3 * i) % 20)]), 9200000 + i, 40)
      n(i) == LET Ks == SessKs(0) IN Session("n", Ks[i], 9300000 + i, Pick(20, 50))
      f(i) == FieldSession("fp", BigPrimes(0)[i], FALSE, 9400000 + i, 60)
      q(i) == FieldSession("fp2", QPrimes(0)[i], TRUE, 9500000 + i, 60)
      nk == Len(SessKs(0))
  IN << >> \o [i \in 1 .. Pick(6, 40) |-> Inter("w" \o ToString(i), <<w(2 * i), w(2 * i + 1), w(2 * i)>>)] \o [i \in 1 .. Pick(6, 40) |-> Inter("mix" \o ToString(i), <<w(i), m(i), e(i)>>)] \o
     [i \in 1 .. Pick(4, 20) |-> Inter("m" \o ToString(i), <<m(2 * i), m(2 * i + 1)>>)] \o [i \in 1 .. Pick(4, 20) |-> Inter("e" \o ToString(i), <<e(2 * i), e(2 * i + 1)>>)] \o
     [i \in 1 .. nk \div 2 |-> Inter("n" \o ToString(i), <<n(2 * i - 1), n(2 * i)>>)] \o
     [i \in 1 .. Len(BigPrimes(0)) \div 3 |-> Inter("fp" \o ToString(i), <<f(3 * i), f(3 * i - 1), f(3 * i - 2)>>)] \o
     [i \in 1 .. Len(QPrimes(0)) \div 2 |-> Inter("fp2" \o ToString(i), <<q(2 * i), q(2 * i - 1), f(i)>>)]
=============================================================================
