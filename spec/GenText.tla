------------------------------- MODULE GenText ------------------------------
(***************************************************************************)
(* Programs about the text shown for values (C28): the programs of other   *)
(* suites, with every value shown as soon as it is there.                  *)
(***************************************************************************)
EXTENDS GenWalk
LOCAL INSTANCE SequencesExt

Makes == {"add", "sub", "mul", "div", "neg", "sqr", "inv", "powU", "powI", "xorU", "xorI", "divU", "sqrt", "elt", "prim", "text", "frombe", "fromle",
          "zero", "one", "sc", "scalar", "identity", "gen", "point", "decode", "map", "push", "pull", "cmov", "Fp", "Fp2", "curve", "named", "field",
          "reread", "dom", "cod"}
Updates == {"normalize", "setZero", "setOne"}
ShowOf(ins) ==
  IF ins.o \in Makes /\ ins.d > 0 THEN <<ins, I("show", <<ins.d>>, 0)>>
  ELSE IF ins.o \in Updates THEN <<ins, I("show", <<ins.a[1]>>, 0)>>
  ELSE <<ins>>
\* in blocks, for speed
WithShow(un) ==
  LET n == Len(un.code)
      blk(b) == FoldLeft(LAMBDA acc, i : IF i > n THEN acc ELSE acc \o ShowOf(un.code[i]), << >>, [j \in 1 .. 64 |-> 64 * b + j])
  IN [id |-> "text/" \o un.id, n |-> un.n, code |-> FoldLeft(LAMBDA acc, b : acc \o blk(b), << >>, [b \in 1 .. (n + 63) \div 64 |-> b - 1])]
Shows(us) == << >> \o [i \in 1 .. Len(us) |-> WithShow(us[i])]

\* the integer n, read by every field and shown, then read again by field 2
FText(p, q, xs) ==
  Unit("fp/" \o PName(p), <<MkFp(p, 1), MkFp(q, 2)>> \o ForAll(Len(xs), LAMBDA i :
     <<MkElt(1, xs[i], 3), I("reread", <<1, 3>>, 4), I("eq", <<3, 4>>, 0), I("neg", <<3>>, 4), I("reread", <<1, 4>>, 4), I("reread", <<2, 3>>, 5),
       I("add", <<4, 3>>, 4), I("mul", <<3, 3>>, 4), I("reread", <<1, 4>>, 4), I("sub", <<3, 3>>, 6), I("inv", <<3>>, 6)>>))
QText2(p, xs) ==
  Unit("fp2/" \o PName(p), <<MkFp2(p, 1)>> \o ForAll(Len(xs), LAMBDA i :
     <<MkElt2(1, xs[i], 3), I("neg", <<3>>, 4), I("add", <<4, 3>>, 4), I("mul", <<3, 3>>, 4), I("inv", <<3>>, 4), I("sub", <<4, 3>>, 4), I("tobe", <<4>>, 0)>>))
SText(kd, r, q, xs) ==
  Unit("sc/" \o kd \o PName(r), <<MkFp(q, 1)>> \o ForAll(Len(xs), LAMBDA i :
     <<I("sc", <<kd, Show(r), Show(xs[i])>>, 2), I("neg", <<2>>, 3), I("add", <<2, 3>>, 4), I("mul", <<3, 3>>, 3), I("sub", <<2, 3>>, 3), I("inv", <<2>>, 4)>>
     \o (IF kd = "w" THEN <<I("reread", <<1, 2>>, 4), I("reread", <<1, 3>>, 4)>> ELSE << >>)))
\* integers around multiples of the modulus, powers of ten, and machine words
Pow10(k) == FoldLeft(LAMBDA acc, x : Times(acc, N(10)), One, [i \in 1 .. k |-> i])
TextInts(p, s) ==
  << Zero, One, N(0 - 1), N(9), N(10), N(99), N(100), N(0 - 10), Dec(p), p, Inc(p), Times(p, N(10)), Minus(Zero, p), Minus(N(7), Times(p, p)) >> \o
  Flat([k \in 1 .. 18 |-> LET t == Pow10(9 * k + (s % 3)) IN <<t, Dec(t), Minus(Zero, t)>>]) \o
  << Pow2(31), Pow2(32), Pow2(63), Pow2(64), Dec(Pow2(64)), Pow2(128) >> \o [i \in 1 .. 4 |-> Rnd(70000 + 100 * s + i, p)] \o [i \in 1 .. 4 |-> Shape(70000 + 100 * s + i, p)]
\* curves with coefficients written as any integer
TextCurve(c, j) ==
  LET m(x) == Plus(x, Times(N(j), c.p)) IN
  I("curve", <<c.kind, Show(c.p), Show(m(c.a)), Show(m(IF c.kind = "e" THEN c.d ELSE c.b)), Show(m(c.s)), Show(c.r), Show(c.h), Show(m(c.gx)), Show(m(c.gy))>>, 1)
CurveTexts(id, cs) == Unit(id, Flat([i \in 1 .. Len(cs) |-> <<TextCurve(Gened(cs[i]), (i % 3) - 1), I("gen", <<1>>, 2), I("identity", <<1>>, 2), I("field", <<1>>, 2)>>]))
NameTexts(t) == [i \in 1 .. NNamed |-> Unit("names/" \o KN(i), <<I("nameof", <<KN(i)>>, 0), Name(KN(i)), I("gen", <<1>>, 2), I("identity", <<1>>, 2), I("field", <<1>>, 2)>>)]

C28Suite(t) ==
  NameTexts(0) \o
  Shows([i \in 1 .. Len(BigPrimes(0)) |-> LET p == BigPrimes(0)[i] IN FText(p, BigPrimes(0)[1 + (i % Len(BigPrimes(0)))], TextInts(p, i))] \o
        [i \in 1 .. 7 |-> LET p == <<3, 5, 7, 11, 13, 101, 211>>[i] IN FText(N(p), N(251), AllOf(p) \o TextInts(N(p), i))] \o
        [i \in 1 .. Len(QPrimes(0)) |-> QText2(QPrimes(0)[i], QEdge(QPrimes(0)[i], Pick(2, 10), 700 + i))] \o
        [i \in 1 .. 3 |-> LET p == <<3, 7, 11>>[i] IN QText2(N(p), QAll(p))] \o
        Flat([k \in 1 .. 3 |-> [i \in 1 .. 3 |-> LET r == <<OrdOf(1), N(13), OrdOf(7)>>[i] IN SText(Kinds[k], r, N("18446744073709551629"), TextInts(r, 30 + 3 * k + i))]]) \o
        <<CurveTexts("curves/w", WCurves(7) \o Every(WCurves(11), 3, 0)), CurveTexts("curves/m", MWithS(MCurves(7), 1) \o Every(MWithS(MCurves(11), 1), 4, 0)), CurveTexts("curves/e", ECurves(7) \o ECurves(11))>> \o
        StateUnits(Ws(7, 4)) \o StateUnits(Ms(7, Pick(20, 4))) \o StateUnits(Es(7, 2)) \o
        GroupUnits(Every(WOdd(7), Pick(6, 2), 1) \o Every(Ms(7, 4), Pick(5, 2), 1) \o Every(Es(7, 1), Pick(5, 2), 0)) \o
        NamedGroups("w") \o NamedGroups("m") \o NamedGroups("e") \o
        <<Unit("ring/7", FRing(N(7), AllOf(7))), Unit("roots/11", FRoots(N(11), AllOf(11), 0)), Unit("roots/13", FRoots(N(13), AllOf(13), 0)), Unit("roots2/7", QRoots(N(7), QAll(7), 0))>> \o
        [i \in 1 .. Pick(3, 9) |-> Session("w", ToyK(WOdd(11)[3 * i]), 9600000 + i, 60)] \o
        [i \in 1 .. Pick(3, 9) |-> Session("m", ToyK(MWithS(MCurves(11), 1)[3 * i]), 9610000 + i, 60)] \o
        [i \in 1 .. Pick(3, 9) |-> Session("e", ToyK(ECurves(11)[2 * i]), 9620000 + i, 60)])
=============================================================================
