------------------------------ MODULE GenField ------------------------------
(***************************************************************************)
(* Programs over prime fields, quadratic extensions and scalars.           *)
(***************************************************************************)
EXTENDS GenLib
LOCAL INSTANCE SequencesExt

Pow2(k) == FoldLeft(LAMBDA acc, x : Times(acc, Two), One, [i \in 1 .. k |-> i])
Inc(a) == Plus(a, One)
Dec(a) == Minus(a, One)
ModOf(i) == Named(CurveNames[i]).p
OrdOf(i) == Named(CurveNames[i]).r

\* primes around the sizes of machine words, and the standard ones
WordPrimes(t) == << N(251), N(257), N(65521), N(65537), N("2147483647"), N("4294967291"), N("4294967311"),
   N("2305843009213693951"), N("18446744073709551557"), N("18446744073709551629"),
   N("170141183460469231731687303715884105727"), N("340282366920938463463374607431768211297") >>
StdPrimes(t) == << ModOf(1), ModOf(2), ModOf(3), ModOf(4), ModOf(5), ModOf(7), ModOf(9) >>
BigPrimes(t) == WordPrimes(t) \o StdPrimes(t)
Orders(t) == << OrdOf(1), OrdOf(2), OrdOf(3), OrdOf(4), OrdOf(5), OrdOf(7), OrdOf(9) >>

\* distinguished residues: ends, middle, words, and random ones
Edge(p, n, s) == << Zero, One, Two, N(3), Dec(p), Minus(p, Two), DivF(p, Two), Inc(DivF(p, Two)),
                 ModF(Pow2(31), p), ModF(Pow2(32), p), ModF(Dec(Pow2(64)), p), ModF(Pow2(64), p), ModF(Pow2(127), p) >>
                 \o [i \in 1 .. n |-> Rnd(1000 * s + i, p)] \o
                 Flat([i \in 1 .. n \div 2 + 1 |-> LET x == Shape(100 * s + i, p) IN <<x, FNeg(p, x)>>]) \o [i \in 1 .. n |-> Shape(100 * s + 50 + i, p)]
Pairs(n, f(_, _)) == Flat([i \in 1 .. n |-> Flat([j \in 1 .. n |-> f(i, j)])])
ForAll(n, f(_)) == Flat([i \in 1 .. n |-> f(i)])
PName(p) == IF BitLen(p) < 40 THEN Show(p) ELSE ToString(BitLen(p)) \o "bit"

(*------------------------- prime fields: ring, inverses ------------------*)
\* 1 field, 2 result, 3 expected, 10+i the values
FE(i) == 10 + i
FpHead(p, xs) == <<MkFp(p, 1)>> \o [i \in 1 .. Len(xs) |-> MkElt(1, xs[i], FE(i))]
\* compute into 2, then compare with a separately built element
FChk(ins, p, v) == <<ins, MkElt(1, v, 3), I("eq", <<2, 3>>, 0)>>
FRing(p, xs) ==
  FpHead(p, xs) \o
  Pairs(Len(xs), LAMBDA i, j :
     FChk(I("add", <<FE(i), FE(j)>>, 2), p, FAdd(p, xs[i], xs[j])) \o
     FChk(I("sub", <<FE(i), FE(j)>>, 2), p, FSub(p, xs[i], xs[j])) \o
     FChk(I("mul", <<FE(i), FE(j)>>, 2), p, FMul(p, xs[i], xs[j])) \o
     <<I("eq", <<FE(i), FE(j)>>, 0)>>) \o
  ForAll(Len(xs), LAMBDA i :
     FChk(I("neg", <<FE(i)>>, 2), p, FNeg(p, xs[i])) \o
     FChk(I("sqr", <<FE(i)>>, 2), p, FSqr(p, xs[i])) \o
     <<I("sgn0", <<2>>, 0), I("tobe", <<2>>, 0), I("add", <<FE(i), FE(i)>>, 2), I("isZero", <<2>>, 0),
       I("isZero", <<FE(i)>>, 0), I("isOne", <<FE(i)>>, 0),
       I("sub", <<FE(i), FE(i)>>, 2), I("isZero", <<2>>, 0), I("isOne", <<2>>, 0),
       I("neg", <<FE(i)>>, 2), I("isZero", <<2>>, 0), I("isOne", <<2>>, 0),
       I("sqr", <<FE(i)>>, 2), I("isZero", <<2>>, 0), I("isOne", <<2>>, 0),
       I("clone", <<FE(i)>>, 2), I("setZero", <<2>>, 0), I("isZero", <<2>>, 0), I("setOne", <<2>>, 0), I("isOne", <<2>>, 0),
       I("eq", <<2, FE(i)>>, 0), I("add", <<2, FE(i)>>, 0)>>) \o
  <<I("zero", <<1>>, 2), I("isZero", <<2>>, 0), I("one", <<1>>, 2), I("isOne", <<2>>, 0), I("modulus", <<1>>, 0)>> \o
  Read(FE(1), FE(Len(xs)))
AllOf(p) == [i \in 1 .. p |-> N(i - 1)]
C01Suite(t) ==
  [i \in 1 .. 8 |-> LET p == <<3, 5, 7, 11, 13, 17, 19, 23>>[i] IN Unit("fp/all/" \o ToString(p), FRing(N(p), AllOf(p)))] \o
  (IF Thorough THEN [i \in 1 .. 5 |-> LET p == <<29, 31, 37, 41, 61>>[i] IN Unit("fp/all/" \o ToString(p), FRing(N(p), AllOf(p)))] ELSE << >>) \o
  [i \in 1 .. Len(BigPrimes(0)) |-> LET p == BigPrimes(0)[i] IN
     Unit("fp/edge/" \o PName(p), FRing(p, Edge(p, Pick(6, 24), i)))]

(*------------------------------ division, powers -------------------------*)
FPowI(p, x, i, e) == FChk(I("powI", <<FE(i), Show(e)>>, 2), p, FPow(p, x, e)) \o
                     (IF Less(e, Zero) THEN << >> ELSE FChk(I("powU", <<FE(i), Show(e)>>, 2), p, FPow(p, x, e)))
FInvs(p, xs, es) ==
  FpHead(p, xs) \o
  Pairs(Len(xs), LAMBDA i, j : FChk(I("div", <<FE(i), FE(j)>>, 2), p, FDiv(p, xs[i], xs[j]))) \o
  ForAll(Len(xs), LAMBDA i :
     FChk(I("inv", <<FE(i)>>, 2), p, FInv(p, xs[i])) \o
     <<I("mul", <<2, FE(i)>>, 3), I("isOne", <<3>>, 0), I("isZero", <<3>>, 0),
       I("xorI", <<FE(i), 0 - 1>>, 2), I("divU", <<FE(i), 1>>, 2), I("xorU", <<FE(i), 2>>, 2)>> \o
     ForAll(Len(es), LAMBDA k : FPowI(p, xs[i], i, es[k]))) \o
  Read(FE(1), FE(Len(xs)))
SmallExps(p) == [i \in 1 .. 6 * p + 1 |-> N(i - 1 - 3 * p)]
BigExps(p, s) == << N(0 - 3), N(0 - 2), N(0 - 1), Zero, One, Two, N(3), N(31), N(32), N(33), Dec(p), Minus(p, Two), p, Inc(p),
   Times(Two, Dec(p)), Inc(Times(Two, Dec(p))), Minus(Zero, Dec(p)), Minus(Zero, p), Minus(Zero, Minus(p, Two)),
   Pow2(31), Pow2(32), Dec(Pow2(32)), Pow2(63), Pow2(64), Dec(Pow2(64)), Pow2(128), Inc(Pow2(521)), Minus(Zero, Pow2(64)),
   DivF(p, Two), Minus(Zero, DivF(p, Two)), Times(p, p), Times(Dec(p), Dec(p)) >> \o [i \in 1 .. 3 |-> Rnd(5000 + 10 * s + i, Times(p, p))]
   \o [i \in 1 .. 4 |-> Shape(5000 + 10 * s + i, Times(p, p))] \o [i \in 1 .. 2 |-> Minus(Zero, Shape(5005 + 10 * s + i, p))]
C02Suite(t) ==
  [i \in 1 .. 6 |-> LET p == <<3, 5, 7, 11, 13, 17>>[i] IN Unit("fp/all/" \o ToString(p), FInvs(N(p), AllOf(p), SmallExps(p)))] \o
  [i \in 1 .. 3 |-> LET p == <<5, 7, 13>>[i] IN Unit("fp/exp/" \o ToString(p), FInvs(N(p), AllOf(p), BigExps(N(p), i)))] \o
  [i \in 1 .. Len(BigPrimes(0)) |-> LET p == BigPrimes(0)[i] IN
     Unit("fp/edge/" \o PName(p), FInvs(p, Edge(p, Pick(1, 10), i), BigExps(p, i)))]

(*---------------------------------- roots --------------------------------*)
\* each unit has its own field, so its own first use; copies of the field in 4, 5
FRoots(p, xs, first) ==
  FpHead(p, xs) \o
  <<I("clone", <<1>>, 4), MkFp(p, 5)>> \o
  (IF first = 0 THEN << >> ELSE <<I("sqrt", <<FE(first)>>, 0)>>) \o
  ForAll(Len(xs), LAMBDA i :
    <<I("isSquare", <<FE(i)>>, 0), I("sqrt", <<FE(i)>>, 2), I("sqr", <<2>>, 3), I("eq", <<3, FE(i)>>, 0),
      \* through a copy of the field, and through a field built separately
      MkElt(4, xs[i], 2), I("sqrt", <<2>>, 0), I("isSquare", <<2>>, 0),
      MkElt(5, xs[i], 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 0),
      \* squares of every element
      I("sqr", <<FE(i)>>, 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 3), I("sqr", <<3>>, 3), I("eq", <<2, 3>>, 0),
      I("neg", <<2>>, 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 0)>>) \o
  \* a second time, in the opposite order
  ForAll(Len(xs), LAMBDA i : <<I("sqrt", <<FE(Len(xs) + 1 - i)>>, 0), I("isSquare", <<FE(Len(xs) + 1 - i)>>, 0)>>) \o
  Read(FE(1), FE(Len(xs)))
RootToy(t) == <<3, 7, 11, 19, 23, 31, 43, 47, 5, 13, 29, 37, 53, 61>> \o (IF Thorough THEN <<59, 67, 71, 79, 83, 101, 103, 107, 109, 127, 131, 149, 151, 157, 173, 181, 197>> ELSE << >>)
RootPrimes(t) == SelectSeq(BigPrimes(0), LAMBDA p : HasRoots(p))
C03Suite(t) ==
  ForAll(Len(RootToy(0)), LAMBDA i : LET p == RootToy(0)[i] IN
     <<Unit("fp/all/" \o ToString(p), FRoots(N(p), AllOf(p), 0)),
       Unit("fp/zerofirst/" \o ToString(p), FRoots(N(p), Edge(N(p), 0, 0), 1)),
       Unit("fp/last/" \o ToString(p), FRoots(N(p), Edge(N(p), 0, 0), 5))>>) \o
  [i \in 1 .. Len(RootPrimes(0)) |-> LET p == RootPrimes(0)[i] IN
     Unit("fp/edge/" \o PName(p), FRoots(p, Edge(p, Pick(16, 100), 300 + i), 0))] \o
  \* the residue test needs no root: primes 1 mod 8 as well
  [i \in 1 .. 3 |-> LET p == <<17, 41, 73>>[i] xs == AllOf(p) IN
     Unit("fp/residue/" \o ToString(p), FpHead(N(p), xs) \o ForAll(p, LAMBDA j : <<I("isSquare", <<FE(j)>>, 0)>>))]

(*--------------------------- quadratic extensions ------------------------*)
\* decimal text "a,b" as character codes
Digits10(a) == DigitsIn(a, 10, << >>)
QText(x) == Digits10(x[1]) \o <<Comma>> \o Digits10(x[2])
MkElt2(f, x, d) == I("text", <<f, QText(x)>>, d)
QHead(p, xs) == <<MkFp2(p, 1)>> \o [i \in 1 .. Len(xs) |-> MkElt2(1, xs[i], FE(i))]
QChk(ins, v) == <<ins, MkElt2(1, v, 3), I("eq", <<2, 3>>, 0)>>
QAll(p) == [i \in 1 .. p * p |-> <<N((i - 1) \div p), N((i - 1) % p)>>]
QEdge(p, n, s) ==
  LET e == << Zero, One, Dec(p), Two, DivF(p, Two), Inc(DivF(p, Two)) >> IN
  ForAll(6, LAMBDA i : [j \in 1 .. 6 |-> <<e[i], e[j]>>]) \o
  [i \in 1 .. n |-> <<Rnd(7000 + 100 * s + i, p), Rnd(7500 + 100 * s + i, p)>>] \o
  [i \in 1 .. n |-> <<Shape(7000 + 100 * s + i, p), Shape(7500 + 100 * s + i, p)>>] \o
  [i \in 1 .. n |-> <<Rnd(7000 + 100 * s + i, p), Zero>>] \o [i \in 1 .. n |-> <<Zero, Rnd(7500 + 100 * s + i, p)>>]
QRing(p, xs, every) ==
  QHead(p, xs) \o
  Pairs(Len(xs), LAMBDA i, j : IF (i * 7 + j) % every # 0 THEN << >> ELSE
     QChk(I("add", <<FE(i), FE(j)>>, 2), QAdd(p, xs[i], xs[j])) \o
     QChk(I("sub", <<FE(i), FE(j)>>, 2), QSub(p, xs[i], xs[j])) \o
     QChk(I("mul", <<FE(i), FE(j)>>, 2), QMul(p, xs[i], xs[j])) \o
     QChk(I("div", <<FE(i), FE(j)>>, 2), QDiv(p, xs[i], xs[j])) \o
     <<I("eq", <<FE(i), FE(j)>>, 0)>>) \o
  ForAll(Len(xs), LAMBDA i :
     QChk(I("neg", <<FE(i)>>, 2), QNeg(p, xs[i])) \o
     QChk(I("sqr", <<FE(i)>>, 2), QSqr(p, xs[i])) \o
     QChk(I("inv", <<FE(i)>>, 2), QInv(p, xs[i])) \o
     <<I("mul", <<2, FE(i)>>, 3), I("isOne", <<3>>, 0), I("isZero", <<3>>, 0),
       I("isZero", <<FE(i)>>, 0), I("isOne", <<FE(i)>>, 0), I("sub", <<FE(i), FE(i)>>, 2), I("isZero", <<2>>, 0),
       I("xorI", <<FE(i), 0 - 1>>, 2), I("divU", <<FE(i), 1>>, 2), I("xorU", <<FE(i), 2>>, 2),
       I("clone", <<FE(i)>>, 2), I("setOne", <<2>>, 0), I("isOne", <<2>>, 0), I("setZero", <<2>>, 0), I("isZero", <<2>>, 0)>>) \o
  <<I("zero", <<1>>, 2), I("isZero", <<2>>, 0), I("one", <<1>>, 2), I("isOne", <<2>>, 0), I("modulus", <<1>>, 0)>> \o
  Read(FE(1), FE(Len(xs)))
QPows(p, xs, es) ==
  QHead(p, xs) \o
  ForAll(Len(xs), LAMBDA i : ForAll(Len(es), LAMBDA k :
     QChk(I("powI", <<FE(i), Show(es[k])>>, 2), QPow(p, xs[i], es[k])) \o
     (IF Less(es[k], Zero) THEN << >> ELSE QChk(I("powU", <<FE(i), Show(es[k])>>, 2), QPow(p, xs[i], es[k])))))
QExps(p, s) == << N(0 - 5), N(0 - 2), N(0 - 1), Zero, One, Two, N(3), N(4), N(5), Dec(p), p, Inc(p), Dec(Times(p, p)), Times(p, p), Inc(Times(p, p)),
   Minus(Zero, Dec(Times(p, p))), Minus(Zero, p),
   Pow2(30), Dec(Pow2(31)), Pow2(31), Inc(Pow2(31)), Pow2(32), Dec(Pow2(32)), Inc(Pow2(32)), Pow2(63), Dec(Pow2(64)), Pow2(64), Pow2(95), Pow2(96),
   Minus(Zero, Pow2(31)), Minus(Zero, Pow2(64)) >> \o [i \in 1 .. 2 |-> Rnd(9000 + 10 * s + i, Times(p, p))] \o [i \in 1 .. 2 |-> Shape(9000 + 10 * s + i, Times(p, p))]
QPrimes(t) == SelectSeq(BigPrimes(0), LAMBDA p : ToInt(ModF(p, N(4))) = 3)
C06Suite(t) ==
  [i \in 1 .. 2 |-> LET p == <<3, 7>>[i] IN Unit("fp2/all/" \o ToString(p), QRing(N(p), QAll(p), 1))] \o
  [i \in 1 .. 4 |-> LET p == <<3, 7, 11, 19>>[i] IN
     Unit("fp2/pow/" \o ToString(p), QPows(N(p), Every(QAll(p), Pick(IF p > 7 THEN 11 ELSE 1, 1), 0), QExps(N(p), i)))] \o
  [i \in 1 .. 2 |-> LET p == <<11, 19>>[i] IN Unit("fp2/part/" \o ToString(p), QRing(N(p), QAll(p), Pick(37 * i, 1 + 6 * (i - 1))))] \o
  [i \in 1 .. Len(QPrimes(0)) |-> LET p == QPrimes(0)[i] IN
     Unit("fp2/edge/" \o PName(p), QRing(p, QEdge(p, Pick(2, 8), i), Pick(5, 1)))] \o
  [i \in 1 .. Len(QPrimes(0)) |-> LET p == QPrimes(0)[i] IN
     Unit("fp2/edgepow/" \o PName(p), QPows(p, <<QZero, QOne, <<Rnd(i, p), Rnd(i + 50, p)>>, <<Zero, Dec(p)>> >>, QExps(p, i)))]
QRoots(p, xs, first) ==
  QHead(p, xs) \o <<I("clone", <<1>>, 4), MkFp2(p, 5)>> \o
  (IF first = 0 THEN << >> ELSE <<I("sqrt", <<FE(first)>>, 0)>>) \o
  ForAll(Len(xs), LAMBDA i :
    <<I("isSquare", <<FE(i)>>, 0), I("sqrt", <<FE(i)>>, 2), I("sqr", <<2>>, 3), I("eq", <<3, FE(i)>>, 0),
      MkElt2(4, xs[i], 2), I("sqrt", <<2>>, 0), I("isSquare", <<2>>, 0),
      MkElt2(5, xs[i], 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 0),
      I("sqr", <<FE(i)>>, 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 3), I("sqr", <<3>>, 3), I("eq", <<2, 3>>, 0),
      I("neg", <<2>>, 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 0)>>) \o
  ForAll(Len(xs), LAMBDA i : <<I("sqrt", <<FE(Len(xs) + 1 - i)>>, 0), I("isSquare", <<FE(Len(xs) + 1 - i)>>, 0)>>) \o
  Read(FE(1), FE(Len(xs)))
C07Suite(t) ==
  ForAll(6, LAMBDA i : LET p == <<3, 7, 11, 19, 23, 31>>[i] IN
     <<Unit("fp2/all/" \o ToString(p), QRoots(N(p), QAll(p), 0)),
       Unit("fp2/zerofirst/" \o ToString(p), QRoots(N(p), QEdge(N(p), 0, 0), 1))>>) \o
  [i \in 1 .. Len(QPrimes(0)) |-> LET p == QPrimes(0)[i] IN
     Unit("fp2/edge/" \o PName(p), QRoots(p, QEdge(p, Pick(3, 20), 30 + i), 0))]

(*------------------------- sign, conditional selection -------------------*)
SgnCode(xs) ==
  ForAll(Len(xs), LAMBDA i : <<I("sgn0", <<FE(i)>>, 0), I("neg", <<FE(i)>>, 2), I("sgn0", <<2>>, 0)>>) \o
  ForAll(Len(xs), LAMBDA i : LET j == 1 + ((i * 3) % Len(xs)) IN
     <<I("cmov", <<FE(i), FE(j), TRUE>>, 0), I("cmov", <<FE(i), FE(j), FALSE>>, 0),
       I("cmov", <<FE(i), FE(i), TRUE>>, 0)>>) \o
  Read(FE(1), FE(Len(xs)))
C04Suite(t) ==
  [i \in 1 .. 8 |-> LET p == <<3, 5, 7, 11, 13, 17, 101, 251>>[i] IN Unit("fp/all/" \o ToString(p), FpHead(N(p), AllOf(p)) \o SgnCode(AllOf(p)))] \o
  [i \in 1 .. 4 |-> LET p == <<3, 7, 11, 19>>[i] IN Unit("fp2/all/" \o ToString(p), QHead(N(p), QAll(p)) \o SgnCode(QAll(p)))] \o
  [i \in 1 .. Len(BigPrimes(0)) |-> LET p == BigPrimes(0)[i] xs == Edge(p, Pick(30, 100), 400 + i) IN Unit("fp/edge/" \o PName(p), FpHead(p, xs) \o SgnCode(xs))] \o
  [i \in 1 .. Len(QPrimes(0)) |-> LET p == QPrimes(0)[i] xs == QEdge(p, Pick(10, 40), 50 + i) IN Unit("fp2/edge/" \o PName(p), QHead(p, xs) \o SgnCode(xs))]

(*------------------------------ conversions ------------------------------*)
Upper(s) == [i \in 1 .. Len(s) |-> IF s[i] >= 97 THEN s[i] - 32 ELSE s[i]]
Prefix(radix) == CASE radix = 10 -> << >> [] radix = 16 -> <<48, 120>> [] radix = 8 -> <<48, 111>> [] radix = 2 -> <<48, 98>>
TextOf(n, radix) == IF Less(n, Zero) THEN <<45>> \o Prefix(radix) \o DigitsIn(Minus(Zero, n), radix, << >>)
                    ELSE Prefix(radix) \o DigitsIn(n, radix, << >>)
Radixes == <<10, 16, 8, 2>>
\* texts denoting numbers, with leading zeros and capitals
Texts(n) == Flat([k \in 1 .. 4 |-> LET r == Radixes[k] neg == Less(n, Zero) m == IF neg THEN Minus(Zero, n) ELSE n
                                    s == DigitsIn(m, r, << >>) sg == IF neg THEN <<45>> ELSE << >> IN
   <<TextOf(n, r)>> \o (IF r = 16 THEN <<sg \o Prefix(r) \o Upper(s)>> ELSE << >>) \o
   (IF r = 10 THEN IF m = Zero THEN << >> ELSE <<sg \o <<48, 48>> \o s>> ELSE <<sg \o Prefix(r) \o <<48>> \o s>>)])
Prims == <<
  <<"u8", <<Zero, One, N(127), N(128), N(255)>> >>, <<"u16", <<Zero, One, N(256), N(32768), N(65535)>> >>,
  <<"u32", <<Zero, One, N(65536), N("2147483647"), N("2147483648"), N("4294967295")>> >>,
  <<"u64", <<Zero, One, N("4294967296"), N("9223372036854775807"), N("9223372036854775808"), N("18446744073709551615")>> >>,
  <<"i8", <<Zero, One, N(0 - 1), N(127), N(0 - 128)>> >>, <<"i16", <<Zero, N(0 - 1), N(32767), N(0 - 32768), N(0 - 255)>> >>,
  <<"i32", <<Zero, N(0 - 1), N("2147483647"), N("-2147483648"), N(0 - 65536)>> >>,
  <<"i64", <<Zero, N(0 - 1), N("9223372036854775807"), N("-9223372036854775808"), N("-4294967296"), N("-9223372036854775807")>> >> >>
Ints(p, s) == << Zero, One, N(0 - 1), N(7), N(9), N(10), N(0 - 10), Dec(p), p, Inc(p), Minus(Zero, p), Minus(Zero, Dec(p)), Minus(Zero, Inc(p)),
   Times(Two, p), Dec(Times(Two, p)), Times(p, p), Minus(One, Times(p, p)), Pow2(64), Minus(Zero, Pow2(64)), Pow2(521), Minus(Zero, Pow2(600)) >>
   \o [i \in 1 .. 3 |-> Rnd(20000 + 10 * s + i, p)] \o [i \in 1 .. 2 |-> Minus(Zero, Rnd(20005 + 10 * s + i, Times(p, p)))]
   \o [i \in 1 .. 3 |-> Shape(20000 + 10 * s + i, p)] \o [i \in 1 .. 3 |-> Shape(20010 + 10 * s + i, Times(p, p))] \o [i \in 1 .. 2 |-> Minus(Zero, Shape(20020 + 10 * s + i, Times(p, Two64)))]
Conv(f, xs) == ForAll(Len(xs), LAMBDA i : <<I("elt", <<f, Show(xs[i])>>, 2), I("tobe", <<2>>, 0), I("tole", <<2>>, 0)>>)
PrimCode == ForAll(8, LAMBDA k : [i \in 1 .. Len(Prims[k][2]) |-> I("prim", <<1, Prims[k][1], Show(Prims[k][2][i])>>, 0)])
TextCode(xs) == <<I("text", <<1, << >> >>, 0)>> \o ForAll(Len(xs), LAMBDA i : [k \in 1 .. Len(Texts(xs[i])) |-> I("text", <<1, Texts(xs[i])[k]>>, 0)])
TextCode2(xs) == ForAll(Len(xs), LAMBDA i : LET a == Texts(xs[i]) b == Texts(xs[1 + ((i * 5) % Len(xs))]) IN
   [k \in 1 .. Len(a) |-> I("text", <<1, a[k] \o <<Comma>> \o b[1 + ((3 * k) % Len(b))]>>, 0)]) \o
   <<I("text", <<1, <<Comma>> >>, 0), I("text", <<1, <<Comma, 49>> >>, 0), I("text", <<1, <<49, Comma>> >>, 0)>>
RoundTrip(xs, mk(_, _)) == ForAll(Len(xs), LAMBDA i :
   <<mk(xs[i], 2), I("tobe", <<2>>, 0), I("tole", <<2>>, 0)>>)
ByteStrings(p, n, s) ==
  << << >>, <<0>>, <<1>>, <<255>>, <<0, 1>>, <<1, 0>>, [i \in 1 .. n |-> 0], [i \in 1 .. n |-> 255], [i \in 1 .. n + 1 |-> 255],
     [i \in 1 .. n + 3 |-> 0], [i \in 1 .. 2 * n |-> 1], [i \in 1 .. n |-> IF i = 1 THEN 1 ELSE 0], [i \in 1 .. n |-> IF i = n THEN 1 ELSE 0],
     [i \in 1 .. n |-> i % 256], [i \in 1 .. n + 1 |-> i % 256], [i \in 1 .. 2 * n |-> (3 * i) % 256] >> \o
  [i \in 1 .. 4 |-> RndSeq(40 + 10 * s + i, n, 256)] \o [i \in 1 .. 3 |-> RndSeq(60 + 10 * s + i, n + 5, 256)]
  \o (IF n > 1 THEN <<RndSeq(70 + s, n - 1, 256)>> ELSE << >>)
BytesCode(ss) == ForAll(Len(ss), LAMBDA i : <<I("frombe", <<1, ss[i]>>, 2), I("tobe", <<2>>, 0), I("fromle", <<1, ss[i]>>, 2), I("tole", <<2>>, 0)>>)
BackFp(p, xs) == ForAll(Len(xs), LAMBDA i : LET x == FRed(p, xs[i]) IN
   <<MkElt(1, x, 3), I("frombe", <<1, FToBE(p, x)>>, 2), I("eq", <<2, 3>>, 0), I("fromle", <<1, FToLE(p, x)>>, 2), I("eq", <<2, 3>>, 0)>>)
BackFp2(p, xs) == ForAll(Len(xs), LAMBDA i :
   <<MkElt2(1, xs[i], 3), I("tobe", <<3>>, 0), I("tole", <<3>>, 0), I("frombe", <<1, QToBE(p, xs[i])>>, 2), I("eq", <<2, 3>>, 0), I("fromle", <<1, QToLE(p, xs[i])>>, 2), I("eq", <<2, 3>>, 0)>>)
C05Fp(p, s) == <<MkFp(p, 1), I("sizeb", <<1>>, 0), I("modulus", <<1>>, 0)>> \o PrimCode \o Conv(1, Ints(p, s)) \o TextCode(Ints(p, s)) \o
               BytesCode(ByteStrings(p, FSize(p), s)) \o BackFp(p, Ints(p, s) \o Edge(p, 6, s))
\* short serializations: values with k leading zero bytes
C05Short(p) == <<MkFp(p, 1)>> \o BackFp(p, Flat([k \in 1 .. FSize(p) - 1 |-> <<Dec(Pow2(8 * k)), Pow2(8 * k - 1), Rnd(k + 80, Pow2(8 * k))>>]))
C05Fp2(p, s) == <<MkFp2(p, 1), I("sizeb", <<1>>, 0), I("modulus", <<1>>, 0)>> \o PrimCode \o Conv(1, Ints(p, s)) \o TextCode2(Ints(p, s)) \o
               BytesCode(ByteStrings(p, QSize(p), s)) \o BackFp2(p, QEdge(p, 4, s))
C05Primes(t) == << N(3), N(7), N(127), N(251), N(257), N(509), N(521), N(65521), N(65537) >> \o BigPrimes(0)
C05Suite(t) ==
  ForAll(Len(C05Primes(0)), LAMBDA i : LET p == C05Primes(0)[i] IN
    <<Unit("fp/" \o PName(p), C05Fp(p, i))>> \o
    (IF FSize(p) > 1 THEN <<Unit("fp/short/" \o PName(p), C05Short(p))>> ELSE << >>) \o
    <<Unit("fp2/" \o PName(p), C05Fp2(p, i))>>)
  \o <<Unit("fp/bytes1", <<MkFp(N(251), 1)>> \o ForAll(256, LAMBDA i : <<I("frombe", <<1, <<i - 1>> >>, 2), I("fromle", <<1, <<i - 1>> >>, 2), I("tobe", <<2>>, 0)>>))>>
  \o <<Unit("fp2/bytes2", <<MkFp2(N(251), 1)>> \o ForAll(256, LAMBDA i : <<I("frombe", <<1, <<i - 1, 256 - i>> >>, 2), I("tobe", <<2>>, 0), I("fromle", <<1, <<i - 1, 256 - i>> >>, 2), I("tole", <<2>>, 0)>>))>>

(*--------------------------------- scalars -------------------------------*)
Kinds == <<"w", "m", "e">>
ScEq(kind, a) == IF kind = "m" THEN << >> ELSE <<a>>
ScCode(kind, r, xs) ==
  [i \in 1 .. Len(xs) |-> I("sc", <<kind, Show(r), Show(xs[i])>>, FE(i))] \o
  Pairs(Len(xs), LAMBDA i, j :
    <<I("add", <<FE(i), FE(j)>>, 2), I("sub", <<FE(i), FE(j)>>, 2), I("mul", <<FE(i), FE(j)>>, 2), I("div", <<FE(i), FE(j)>>, 2)>>
    \o ScEq(kind, I("eq", <<FE(i), FE(j)>>, 0))) \o
  ForAll(Len(xs), LAMBDA i :
    <<I("neg", <<FE(i)>>, 2), I("bitsL", <<2>>, 0), I("inv", <<FE(i)>>, 2), I("tobe", <<2>>, 0), I("mul", <<2, FE(i)>>, 2),
      I("divU", <<FE(i), 1>>, 0),
      I("tobe", <<FE(i)>>, 0), I("tole", <<FE(i)>>, 0), I("bitsL", <<FE(i)>>, 0), I("bitsR", <<FE(i)>>, 0)>>) \o
  Read(FE(1), FE(Len(xs)))
ScExtra(r) == << Minus(Zero, One), r, Inc(r), Minus(Zero, r), Times(r, r), Minus(Zero, Inc(Times(r, Two))) >>
ScToy(r) == [i \in 1 .. 4 * r + 1 |-> N(i - 1 - 2 * r)]
\* values at every bit length, for the iterators and serialization
ScBits(kind, r) == ForAll(BitLen(r) - 1, LAMBDA k :
   IF k % Pick(IF BitLen(r) > 130 /\ k % 32 > 1 /\ k % 32 < 31 THEN 5 ELSE 1, 1) # 0 THEN << >> ELSE
   <<I("sc", <<kind, Show(r), Show(Pow2(k))>>, 1), I("bitsL", <<1>>, 0), I("bitsR", <<1>>, 0), I("tobe", <<1>>, 0), I("tole", <<1>>, 0),
     I("sc", <<kind, Show(r), Show(Dec(Pow2(k)))>>, 1), I("bitsL", <<1>>, 0), I("bitsR", <<1>>, 0), I("tobe", <<1>>, 0),
     I("sc", <<kind, Show(r), Show(Plus(Pow2(k), DivF(Pow2(k), Two)))>>, 1), I("bitsL", <<1>>, 0), I("bitsR", <<1>>, 0)>>)
C08Suite(t) ==
  Flat([k \in 1 .. 3 |-> LET kd == Kinds[k] IN
    [i \in 1 .. 4 |-> LET r == <<3, 5, 7, 11>>[i] IN Unit(kd \o "/all/" \o ToString(r), ScCode(kd, N(r), ScToy(r)))] \o
    [i \in 1 .. Len(WordPrimes(0)) |-> LET r == WordPrimes(0)[i] IN
       Unit(kd \o "/edge/" \o PName(r), ScCode(kd, r, Edge(r, Pick(2, 10), 500 + i) \o ScExtra(r)) \o ScBits(kd, r))] \o
    [i \in 1 .. Len(Orders(0)) |-> LET r == Orders(0)[i] IN
       Unit(kd \o "/order/" \o PName(r), ScCode(kd, r, Edge(r, Pick(2, 10), 600 + i) \o ScExtra(r)) \o ScBits(kd, r))] \o
    \* through the curves
    [i \in 1 .. Len(CurveNames) |-> LET c == Named(CurveNames[i]) es == Edge(c.r, 2, 700 + i) \o ScExtra(c.r) IN
       Unit(kd \o "/curve/" \o CurveNames[i], IF c.kind # kd THEN <<I("named", <<CurveNames[i]>>, 1)>> ELSE
         <<I("named", <<CurveNames[i]>>, 1)>> \o
         ForAll(Len(es), LAMBDA j : <<I("scalar", <<1, Show(es[j])>>, 2), I("sc", <<kd, Show(c.r), Show(es[j])>>, 3)>>
             \o ScEq(kd, I("eq", <<2, 3>>, 0)) \o <<I("sub", <<2, 3>>, 0), I("tobe", <<2>>, 0)>>))]])
=============================================================================
