------------------------------ MODULE GenWalk ------------------------------
(***************************************************************************)
(* Walks: long computations in which every result is the operand of the    *)
(* next call, in runs of one operation.  What a value is does not depend   *)
(* on how many operations it took to compute it.                           *)
(***************************************************************************)
EXTENDS GenTwins
LOCAL INSTANCE SequencesExt

Repeat(n, code) == FoldLeft(LAMBDA acc, i : acc \o code, << >>, [i \in 1 .. n |-> i])
Start(n, head) == Run([R |-> [i \in 1 .. n |-> VNone], code |-> << >>], head)

(*------------------- fields: 1 field, 2..6 elements, 7 8 temporary -------*)
\* the value of register a, made anew, is equal to it
Anew(R, a, d) == LET v == R[a] IN IF v.k = "fp" THEN MkElt(1, v.v, d) ELSE MkElt2(1, v.v, d)
FieldRunOps == << "add", "sub", "rsub", "dbl", "neg", "mul", "sqr", "mix", "div", "inv" >>
FieldStep(o, a, b, c) ==
  CASE o = "add"  -> <<I("add", <<a, b>>, a)>>
    [] o = "sub"  -> <<I("sub", <<a, b>>, a)>>
    [] o = "rsub" -> <<I("sub", <<b, a>>, a)>>
    [] o = "dbl"  -> <<I("add", <<a, a>>, a)>>
    [] o = "neg"  -> <<I("neg", <<a>>, a), I("add", <<a, b>>, c)>>
    [] o = "mul"  -> <<I("mul", <<a, b>>, a)>>
    [] o = "sqr"  -> <<I("sqr", <<a>>, a)>>
    [] o = "mix"  -> <<I("add", <<a, b>>, c), I("sub", <<b, c>>, b), I("mul", <<c, b>>, a)>>
    [] o = "div"  -> <<I("div", <<a, b>>, a)>>
    [] o = "inv"  -> <<I("add", <<a, b>>, a), I("inv", <<a>>, a)>>
FieldLook(acc, a, b) ==
  LET ask == Run(acc, <<Anew(acc.R, a, 7)>>)
  IN Run(ask, <<I("eq", <<a, 7>>, 0), I("eq", <<7, a>>, 0), I("eq", <<a, b>>, 0), I("isZero", <<a>>, 0), I("isOne", <<a>>, 0), I("sub", <<a, 7>>, 8), I("isZero", <<8>>, 0), I("sgn0", <<a>>, 0), I("tobe", <<a>>, 0), I("read", <<a>>, 0)>>)
FieldHead(p, two, s) ==
  <<IF two THEN MkFp2(p, 1) ELSE MkFp(p, 1)>> \o
  [i \in 1 .. 5 |-> LET x == IF i = 1 THEN Dec(p) ELSE IF i = 2 THEN FRed(p, Two) ELSE Rnd(s * 13 + 70000 + i, p) IN
     IF two THEN MkElt2(1, <<x, IF i = 1 THEN Dec(p) ELSE Rnd(s * 13 + 70100 + i, p)>>, 1 + i) ELSE MkElt(1, x, 1 + i)]
\* every operation for a long time
FieldLong(id, p, two, ops, n, s) ==
  Unit("walk/long/" \o id \o "/" \o PName(p),
       FoldLeft(LAMBDA acc, k : LET a == 2 + ((k + s) % 5) b == 2 + ((k + s + 1 + (k % 3)) % 5) IN
                  FieldLook(Run(acc, Repeat(n, FieldStep(ops[k], a, b, 8))), a, b),
                Start(8, FieldHead(p, two, s)), [k \in 1 .. Len(ops) |-> k]).code)
\* runs of all lengths
FieldWalk(id, p, two, ops, runs, s) ==
  Unit("walk/" \o id \o "/" \o PName(p) \o "/" \o ToString(s),
       FoldLeft(LAMBDA acc, k :
                  LET h(j, m) == RndAt(s, 16 * k + j, m)
                      a == 2 + h(1, 5) b == 2 + ((a - 1 + h(2, 4)) % 5) c == 2 + ((a - 1 + h(3, 4)) % 5)
                      o == ops[1 + h(4, Len(ops))]
                  IN FieldLook(Run(acc, Repeat(<<1, 1, 2, 3, 4, 6, 9>>[1 + h(5, 7)], FieldStep(o, a, b, c))), a, b),
                Start(8, FieldHead(p, two, s)), [k \in 1 .. runs |-> k]).code)
\* every value is asked about before it is computed with: what was asked of a
\* value says nothing about those computed from it
AskOps == << "neg", "neg0", "clone", "cmov", "one", "zero" >> \o FieldRunOps
AskStep(o, a, b, c) ==
  CASE o = "neg0"  -> <<I("neg", <<a>>, a)>>
    [] o = "clone" -> <<I("clone", <<a>>, c), I("neg", <<c>>, c), I("clone", <<c>>, b)>>
    [] o = "cmov"  -> <<I("cmov", <<a, b, TRUE>>, c), I("cmov", <<b, a, FALSE>>, a), I("clone", <<c>>, b)>>
    [] o = "one"   -> <<I("clone", <<a>>, c), I("setOne", <<c>>, 0), I("add", <<a, c>>, a)>>
    [] o = "zero"  -> <<I("clone", <<a>>, c), I("setZero", <<c>>, 0), I("sub", <<c, a>>, a)>>
    [] OTHER       -> FieldStep(o, a, b, c)
Asked(id, head, n, ops, steps, s, ask(_)) ==
  Unit("walk/asked/" \o id \o "/" \o ToString(s),
       FoldLeft(LAMBDA acc, k :
                  LET h(j, m) == RndAt(s, 16 * k + j, m)
                      a == 2 + h(1, 5) b == 2 + ((a - 1 + h(2, 4)) % 5)
                      o == ops[1 + h(4, Len(ops))]
                  IN Run(acc, ask(a) \o (IF h(5, 2) = 0 THEN ask(b) ELSE << >>) \o AskStep(o, a, b, 8) \o ask(a) \o (IF h(6, 2) = 0 THEN ask(8) ELSE << >>)),
                Start(14, head \o <<I("clone", <<3>>, 8)>>), [k \in 1 .. steps |-> k]).code)
AskedFp(p, steps, s, ask(_)) == Asked("fp/" \o PName(p), FieldHead(p, FALSE, s) \o ForeignElt(p, FALSE, 13), 12, AskOps, steps, s, ask)
AskedFp2(p, steps, s, ask(_)) == Asked("fp2/" \o PName(p), FieldHead(p, TRUE, s) \o ForeignElt(p, TRUE, 13), 12, AskOps, steps, s, ask)
AskRoot(a) == <<I("isSquare", <<a>>, 0), I("sqrt", <<a>>, 9), I("sqr", <<a>>, 10), I("sqrt", <<10>>, 11), I("sqr", <<11>>, 11), I("eq", <<10, 11>>, 0)>>
AskSgn(a) == <<I("mul", <<a, 14>>, 0), I("sgn0", <<a>>, 0), I("isZero", <<a>>, 0), I("isOne", <<a>>, 0), I("neg", <<a>>, 9), I("sgn0", <<9>>, 0)>>
AskConv(a) == <<I("frombe", <<1, <<7>> >>, 0), I("frombe", <<1, << >> >>, 0), I("tobe", <<a>>, 0), I("tole", <<a>>, 0), I("read", <<a>>, 0)>>
\* questions that are refused (13 14: another field and an element of it)
AskInv(a) == <<I("div", <<a, 14>>, 0), I("div", <<14, a>>, 0), I("inv", <<a>>, 9), I("powI", <<a, "-1">>, 10), I("eq", <<9, 10>>, 0), I("powU", <<a, "5">>, 10)>>
AskRing(a) == <<I("mul", <<a, 14>>, 0), I("add", <<14, a>>, 0), I("sub", <<a, 14>>, 0), I("eq", <<a, 14>>, 0), I("sqr", <<a>>, 9), I("mul", <<a, a>>, 10), I("eq", <<9, 10>>, 0), I("isZero", <<a>>, 0), I("add", <<a, a>>, 10)>>
AskedBoth(ask(_), steps, s) ==
  LET ps == BigPrimes(0) qs == QPrimes(0) IN
  [i \in 1 .. Len(ps) |-> AskedFp(ps[i], steps, s + i, ask)] \o [i \in 1 .. 3 |-> AskedFp(N(<<7, 13, 251>>[i]), 2 * steps, s + 30 + i, ask)] \o
  [i \in 1 .. Len(qs) |-> AskedFp2(qs[i], steps, s + 50 + i, ask)] \o [i \in 1 .. 2 |-> AskedFp2(N(<<7, 19>>[i]), 2 * steps, s + 80 + i, ask)]
C03Walks(t) == LET ps == SelectSeq(BigPrimes(0) \o <<N(7), N(13), N(29), N(251)>>, HasRoots) IN [i \in 1 .. Len(ps) |-> AskedFp(ps[i], Pick(16, 100), 600 + i, AskRoot)]
C04Walks(t) == AskedBoth(AskSgn, Pick(16, 120), 700)
C05Walks(t) == AskedBoth(AskConv, Pick(16, 120), 800)
C07Walks(t) == LET qs == QPrimes(0) \o <<N(7), N(19), N(251)>> IN [i \in 1 .. Len(qs) |-> AskedFp2(qs[i], Pick(6, 40), 900 + i, AskRoot)]
C01Asked(t) == LET ps == BigPrimes(0) \o <<N(7), N(13)>> IN [i \in 1 .. Len(ps) |-> AskedFp(ps[i], Pick(14, 100), 400 + i, AskRing)]
C02Asked(t) == LET ps == BigPrimes(0) \o <<N(7), N(13)>> IN [i \in 1 .. Len(ps) |-> AskedFp(ps[i], Pick(12, 80), 450 + i, AskInv)]
C06Asked(t) == LET qs == QPrimes(0) \o <<N(7), N(19)>> IN [i \in 1 .. Len(qs) |-> AskedFp2(qs[i], Pick(10, 60), 500 + i, LAMBDA a : AskRing(a) \o AskInv(a))]
RingOps == SubSeq(FieldRunOps, 1, 8)
C01Walks(t) == LET ps == BigPrimes(0) IN C01Asked(t) \o
  [i \in 1 .. Len(ps) |-> FieldLong("fp", ps[i], FALSE, RingOps, Pick(130, 700), i)] \o
  [i \in 1 .. 6 |-> FieldLong("fp", N(<<3, 5, 7, 11, 13, 31>>[i]), FALSE, RingOps, Pick(130, 700), i)] \o
  [i \in 1 .. Len(ps) |-> FieldWalk("fp", ps[i], FALSE, RingOps, Pick(40, 300), i)] \o
  [i \in 1 .. 6 |-> FieldWalk("fp", N(<<3, 5, 7, 11, 13, 31>>[i]), FALSE, RingOps, Pick(40, 300), 50 + i)]
C02Walks(t) == LET ps == BigPrimes(0) IN C02Asked(t) \o
  [i \in 1 .. Len(ps) |-> FieldLong("fp", ps[i], FALSE, <<"div", "inv">>, Pick(30, 200), 20 + i)] \o
  [i \in 1 .. Len(ps) |-> FieldWalk("fp", ps[i], FALSE, FieldRunOps \o <<"div", "inv", "inv">>, Pick(24, 200), 100 + i)]
C06Walks(t) == LET ps == QPrimes(0) IN C06Asked(t) \o
  [i \in 1 .. Len(ps) |-> FieldLong("fp2", ps[i], TRUE, FieldRunOps, Pick(60, 400), i)] \o
  [i \in 1 .. 3 |-> FieldLong("fp2", N(<<3, 7, 19>>[i]), TRUE, FieldRunOps, Pick(60, 400), 40 + i)] \o
  [i \in 1 .. Len(ps) |-> FieldWalk("fp2", ps[i], TRUE, FieldRunOps, Pick(24, 200), 200 + i)] \o
  [i \in 1 .. 3 |-> FieldWalk("fp2", N(<<3, 7, 19>>[i]), TRUE, FieldRunOps, Pick(60, 400), 250 + i)]

(*------------------------ scalars: 2..6, 7 8 temporary -------------------*)
ScLook(kd, r, acc, a, b) ==
  LET v == acc.R[a] IN
  Run(acc, <<I("sc", <<kd, Show(r), Show(v.v)>>, 7), I("sub", <<a, 7>>, 8), I("bitsL", <<a>>, 0), I("bitsR", <<a>>, 0), I("tobe", <<a>>, 0), I("read", <<a>>, 0)>>
           \o ScEq(kd, I("eq", <<a, 7>>, 0)) \o ScEq(kd, I("eq", <<7, a>>, 0)) \o ScEq(kd, I("eq", <<a, b>>, 0)))
ScOps == << "add", "sub", "rsub", "dbl", "neg", "mul", "mix", "div", "inv" >>
ScHead(kd, r, s) == [i \in 1 .. 5 |-> I("sc", <<kd, Show(r), Show(IF i = 1 THEN Dec(r) ELSE IF i = 2 THEN FRed(r, Two) ELSE Rnd(s * 13 + 71000 + i, r))>>, 1 + i)]
ScLong(kd, r, n, s) ==
  Unit("walk/long/" \o kd \o "/" \o PName(r),
       FoldLeft(LAMBDA acc, k : LET a == 2 + ((k + s) % 5) b == 2 + ((k + s + 1 + (k % 3)) % 5) IN
                  ScLook(kd, r, Run(acc, Repeat(n, FieldStep(ScOps[k], a, b, 8))), a, b),
                Start(8, ScHead(kd, r, s)), [k \in 1 .. Len(ScOps) |-> k]).code)
ScWalk(kd, r, runs, s) ==
  Unit("walk/" \o kd \o "/" \o PName(r) \o "/" \o ToString(s),
       FoldLeft(LAMBDA acc, k :
                  LET h(j, m) == RndAt(s, 16 * k + j, m)
                      a == 2 + h(1, 5) b == 2 + ((a - 1 + h(2, 4)) % 5) c == 2 + ((a - 1 + h(3, 4)) % 5)
                      o == ScOps[1 + h(4, Len(ScOps))]
                  IN ScLook(kd, r, Run(acc, Repeat(<<1, 1, 2, 3, 4, 6, 9>>[1 + h(5, 7)], FieldStep(o, a, b, c))), a, b),
                Start(8, ScHead(kd, r, s)), [k \in 1 .. runs |-> k]).code)
ScAskOps == << "neg0", "neg0", "clone", "add", "sub", "rsub", "dbl", "mul", "div", "inv" >>
C08Asked(t) == Flat([k \in 1 .. 3 |-> LET kd == Kinds[k] os == Orders(0) \o <<N(251), N(11)>> IN
  [i \in 1 .. Len(os) |-> Asked(kd \o "/" \o PName(os[i]), ScHead(kd, os[i], 350 + i) \o <<I("sc", <<kd, Show(IF BitLen(os[i]) < 64 THEN OrdOf(1) ELSE N(257)), "3">>, 14)>>, 12, ScAskOps, Pick(16, 100), 350 + 10 * k + i,
      LAMBDA a : <<I("add", <<a, 14>>, 0), I("mul", <<14, a>>, 0), I("div", <<a, 14>>, 0), I("bitsL", <<a>>, 0), I("bitsR", <<a>>, 0), I("tobe", <<a>>, 0), I("read", <<a>>, 0)>> \o ScEq(kd, I("eq", <<a, 2>>, 0)))]])
C08Walks(t) == C08Asked(t) \o Flat([k \in 1 .. 3 |-> LET kd == Kinds[k] IN
  [i \in 1 .. Len(Orders(0)) |-> ScLong(kd, Orders(0)[i], Pick(40, 300), 10 * k + i)] \o
  [i \in 1 .. 5 |-> ScLong(kd, N(<<3, 7, 251, 65537, 11>>[i]), Pick(40, 300), 10 * k + i)] \o
  [i \in 1 .. Len(Orders(0)) |-> ScWalk(kd, Orders(0)[i], Pick(20, 150), 300 + 10 * k + i)] \o
  [i \in 1 .. Len(WordPrimes(0)) |-> ScWalk(kd, WordPrimes(0)[i], Pick(20, 150), 350 + 20 * k + i)]])

(*------- points: 1 curve, 2 field, 3 4 coordinates, 5..9 points, 10.. -----*)
PtOps == << "add", "radd", "sub", "rsub", "dbl", "neg", "mix", "norm" >>
PtStep(o, a, b, c) ==
  CASE o = "add"  -> <<I("add", <<a, b>>, a)>>
    [] o = "radd" -> <<I("add", <<b, a>>, a)>>
    [] o = "sub"  -> <<I("sub", <<a, b>>, a)>>
    [] o = "rsub" -> <<I("sub", <<b, a>>, a)>>
    [] o = "dbl"  -> <<I("add", <<a, a>>, a)>>
    [] o = "neg"  -> <<I("neg", <<a>>, a), I("add", <<a, b>>, c)>>
    [] o = "mix"  -> <<I("add", <<a, b>>, c), I("add", <<a, c>>, b), I("sub", <<c, b>>, a)>>
    [] o = "norm" -> <<I("normalize", <<a>>, 0), I("add", <<a, b>>, a), I("normalize", <<b>>, 0)>>
    [] o = "mulr" -> <<I("mul", <<a, 12>>, a)>>
    [] o = "mull" -> <<I("mul", <<12, a>>, a), I("add", <<a, b>>, c)>>
    [] o = "mul2" -> <<I("mul", <<13, a>>, c), I("sub", <<b, c>>, a)>>
    [] o = "sc"   -> <<I("mul", <<12, 12>>, 12), I("add", <<12, 13>>, 12), I("mul", <<a, 12>>, a)>>
PtLook(c, acc, a, b) ==
  Run(acc, MkPoint(1, 2, 3, acc.R[a].P, 10) \o
           <<I("eq", <<a, 10>>, 0), I("eq", <<10, a>>, 0), I("eq", <<a, b>>, 0), I("onCurve", <<1, a>>, 0), I("isZero", <<a>>, 0), I("sub", <<a, 10>>, 11), I("isZero", <<11>>, 0),
             I("encode", <<a, TRUE>>, 0), I("clone", <<a>>, 11), I("normalize", <<11>>, 0), I("eq", <<11, a>>, 0), I("add", <<11, b>>, 11), I("read", <<a>>, 0)>>)
PtHead(head, c, pts, s) ==
  <<head, MkFp(c.p, 2)>> \o Flat([i \in 1 .. 5 |-> MkPoint(1, 2, 3, pts[1 + ((i * 3 + s) % Len(pts))], 4 + i)]) \o
  <<I("scalar", <<1, Show(Rnd(72000 + s, c.r))>>, 12), I("scalar", <<1, "-3">>, 13)>>
PtLong(id, head, c, pts, ops, n, s) ==
  Unit("walk/long/" \o id,
       FoldLeft(LAMBDA acc, k : LET a == 5 + ((k + s) % 5) b == 5 + ((k + s + 1 + (k % 3)) % 5) IN
                  PtLook(c, Run(acc, Repeat(n, PtStep(ops[k], a, b, 11))), a, b),
                Start(13, PtHead(head, c, pts, s)), [k \in 1 .. Len(ops) |-> k]).code)
PtWalk(id, head, c, pts, ops, runs, s) ==
  Unit("walk/" \o id \o "/" \o ToString(s),
       FoldLeft(LAMBDA acc, k :
                  LET h(j, m) == RndAt(s, 16 * k + j, m)
                      a == 5 + h(1, 5) b == 5 + ((a - 4 + h(2, 4)) % 5) d == 5 + ((a - 4 + h(3, 4)) % 5)
                      o == ops[1 + h(4, Len(ops))]
                  IN PtLook(c, Run(acc, Repeat(<<1, 1, 2, 3, 4, 6>>[1 + h(5, 6)], PtStep(o, a, b, d))), a, b),
                Start(13, PtHead(head, c, pts, s)), [k \in 1 .. runs |-> k]).code)
WalkToys(kind, t) == CASE kind = "w" -> <<WOdd(5)[1], WOdd(11)[2], WOdd(13)[3], WOdd(17)[4], WOdd(23)[5]>>
                       [] kind = "m" -> MWithS(<<MCurves(5)[1], MCurves(11)[3], MCurves(13)[2], MCurves(17)[5]>>, 1)
                       [] kind = "e" -> <<ECurves(5)[1], ECurves(11)[2], ECurves(13)[3], ECurves(17)[4], ECurves(19)[2]>>
OfKind(kind) == SelectSeq(CurveNames, LAMBDA n : Named(n).kind = kind)
PtWalks(kind, ops, long, runs, s) ==
  LET ts == WalkToys(kind, 0) ns == OfKind(kind)
      Pl(i) == LET c == Named(ns[i]) IN Pool(c, 3, 200 + s + i) \o LowPts(c)
  IN Flat([i \in 1 .. Len(ts) |-> LET c == Gened(ts[i]) IN
       <<PtLong(ToyId(c, i), Toy(c), c, Pts(c), ops, 2 * long, s + i), PtWalk(ToyId(c, i), Toy(c), c, Pts(c), ops, 2 * runs, s + i)>>]) \o
     Flat([i \in 1 .. Len(ns) |-> LET c == Named(ns[i]) pl == Pl(i) IN
       <<PtLong(ns[i], Name(ns[i]), c, pl, ops, long, s + i), PtWalk(ns[i], Name(ns[i]), c, pl, ops, runs, s + i)>>])
\* asked before computed with: 14 15 temporary
PtAskOps == << "add", "radd", "sub", "dbl", "neg0", "neg0", "clone", "mix", "norm", "mulr" >>
PtAskStep(o, a, b, c) ==
  CASE o = "neg0"  -> <<I("neg", <<a>>, a)>>
    [] o = "clone" -> <<I("clone", <<a>>, c), I("neg", <<c>>, c), I("clone", <<c>>, b)>>
    [] OTHER       -> PtStep(o, a, b, c)
PtAsked(id, head, c, pts, ops, steps, s, ask(_)) ==
  Unit("walk/asked/" \o id \o "/" \o ToString(s),
       FoldLeft(LAMBDA acc, k :
                  LET h(j, m) == RndAt(s, 16 * k + j, m)
                      a == 5 + h(1, 5) b == 5 + ((a - 4 + h(2, 4)) % 5)
                      o == ops[1 + h(4, Len(ops))]
                  IN Run(acc, ask(a) \o (IF h(5, 2) = 0 THEN ask(b) ELSE << >>) \o PtAskStep(o, a, b, 11) \o ask(a) \o (IF h(6, 2) = 0 THEN ask(11) ELSE << >>)),
                Start(19, PtHead(head, c, pts, s) \o <<I("named", <<Foreign(c)>>, 16), I("scalar", <<16, Show(Rnd(72500 + s, Named(Foreign(c)).r))>>, 17), I("gen", <<16>>, 18), I("field", <<16>>, 19)>> \o <<I("clone", <<6>>, 11)>>), [k \in 1 .. steps |-> k]).code)
PtAskeds(kind, ops, steps, s, ask(_)) ==
  LET ts == WalkToys(kind, 0) ns == OfKind(kind) IN
  [i \in 1 .. Len(ts) |-> LET c == Gened(ts[i]) IN PtAsked(ToyId(c, i), Toy(c), c, Pts(c), ops, 3 * steps, s + i, ask)] \o
  [i \in 1 .. Len(ns) |-> LET c == Named(ns[i]) IN PtAsked(ns[i], Name(ns[i]), c, Pool(c, 3, 300 + s + i) \o LowPts(c), ops, steps, s + i, ask)]
AskEnc(a) == <<I("decode", <<1, <<4, 1>> >>, 0), I("add", <<a, 18>>, 0), I("encode", <<a, TRUE>>, 0), I("encode", <<a, FALSE>>, 0), I("isZero", <<a>>, 0)>>
AskAll(a) == <<I("add", <<a, 18>>, 0), I("eq", <<a, 18>>, 0), I("sub", <<18, a>>, 0), I("onCurve", <<1, a>>, 0), I("isZero", <<a>>, 0), I("eq", <<a, 5>>, 0), I("eq", <<6, a>>, 0), I("encode", <<a, TRUE>>, 0), I("read", <<a>>, 0), I("clone", <<a>>, 14), I("normalize", <<14>>, 0), I("eq", <<14, a>>, 0)>>
AskMul(a) == <<I("mul", <<a, 17>>, 0), I("mul", <<17, a>>, 0), I("mul", <<18, 12>>, 0), I("mul", <<a, 13>>, 14), I("mul", <<12, a>>, 15), I("isZero", <<15>>, 0), I("add", <<14, 15>>, 14)>>
C14Walks(t) == Flat([k \in 1 .. 3 |-> PtAskeds(Kinds[k], PtAskOps, Pick(16, 100), 6000 + 100 * k, AskEnc)])
C12Asked(t) == Flat([k \in 1 .. 3 |-> PtAskeds(Kinds[k], SubSeq(PtAskOps, 1, 9), Pick(3, 20), 6500 + 100 * k, AskMul)])
C13Asked(t) == Flat([k \in 1 .. 3 |-> PtAskeds(Kinds[k], PtAskOps, Pick(8, 60), 7000 + 100 * k, AskAll)])
C09Walks(t) == PtWalks("w", PtOps, Pick(20, 150), Pick(16, 100), 1000)
C10Walks(t) == PtWalks("m", PtOps, Pick(20, 150), Pick(16, 100), 2000)
C11Walks(t) == PtWalks("e", PtOps, Pick(20, 150), Pick(16, 100), 3000)
MulOps == << "mulr", "mull", "mul2", "sc" >>
C12Walks(t) == C12Asked(t) \o Flat([k \in 1 .. 3 |-> PtWalks(Kinds[k], MulOps, Pick(4, 30), Pick(5, 40), 4000 + 100 * k)])
\* chains that are made of other chains: equality and encodings after them
C13Walks(t) == C13Asked(t) \o Flat([k \in 1 .. 3 |-> PtWalks(Kinds[k], << "norm", "mix", "neg", "rsub" >>, Pick(4, 60), Pick(8, 60), 5000 + 100 * k)])
=============================================================================
