------------------------------ MODULE GenCurve ------------------------------
(***************************************************************************)
(* Programs over points: group laws, scalar multiplication, validity,      *)
(* encodings.                                                              *)
(***************************************************************************)
EXTENDS GenField
LOCAL INSTANCE SequencesExt

IsW(c) == c.kind = "w"
KN(i) == CurveNames[i]
NamedAll(t) == [i \in 1 .. Len(CurveNames) |-> Named(CurveNames[i])]
NNamed == Len(CurveNames)
\* the instruction that makes a curve: toy curves from parameters
Toy(c)   == MkCurve(c, 1)
Name(n)  == I("named", <<n>>, 1)

\* the point with the given x (y for Edwards curves) and sign, if there is one
HasPt(c, x) ==
  CASE c.kind = "w" -> FIsSquare(c.p, WRhs(c, x))
    [] c.kind = "m" -> FIsSquare(c.p, MRhs(c, x))
    [] c.kind = "e" -> LET den == FSub(c.p, FMul(c.p, c.d, FSqr(c.p, x)), c.a)
                       IN den # Zero /\ FIsSquare(c.p, FDiv(c.p, FSub(c.p, FSqr(c.p, x), One), den))
PtAt(c, x, sgn) ==
  CASE c.kind = "w" -> Aff(x, FRootSgn(c.p, WRhs(c, x), sgn))
    [] c.kind = "m" -> Aff(x, FRootSgn(c.p, MRhs(c, x), sgn))
    [] c.kind = "e" -> Aff(FRootSgn(c.p, FDiv(c.p, FSub(c.p, FSqr(c.p, x), One),
                                                    FSub(c.p, FMul(c.p, c.d, FSqr(c.p, x)), c.a)), sgn), x)
\* n points at the first places from x0 on, with alternating signs
RECURSIVE PtsFrom(_, _, _)
PtsFrom(c, x0, n) ==
  IF n = 0 THEN << >>
  ELSE IF HasPt(c, ModF(x0, c.p))
       THEN <<PtAt(c, ModF(x0, c.p), IF n % 2 = 0 THEN 1 ELSE 0 - 1)>> \o PtsFrom(c, Inc(x0), n - 1)
       ELSE PtsFrom(c, Inc(x0), n)
RndPt(c, i) == PtsFrom(c, Rnd(i, c.p), 1)[1]

\* multiples of a point of order dividing the cofactor: the small subgroup
RECURSIVE Cyc(_, _, _)
Cyc(c, L, Q) == IF Q = Id(c) THEN << >> ELSE <<Q>> \o Cyc(c, L, Add(c, Q, L))
RECURSIVE FullLow(_, _)
FullLow(c, x0) ==
  LET P == PtsFrom(c, x0, 1)[1]
      L == Mul(c, c.r, P)
      h2 == DivF(c.h, Two)
  IN IF Mul(c, h2, L) # Id(c) THEN L ELSE FullLow(c, Inc(x0))
LowPts(c) == IF c.h \in {N(4), N(8)} THEN LET L == FullLow(c, N(3)) IN Cyc(c, L, L) ELSE << >>

\* a mixture of distinguished points of a named curve
Pool(c, n, s) ==
  <<Id(c), Gen(c), Neg(c, Gen(c))>> \o PtsFrom(c, Zero, 2) \o PtsFrom(c, Minus(c.p, N(20)), 1) \o PtsFrom(c, Shape(9000 + s, c.p), 1) \o
  [i \in 1 .. n |-> RndPt(c, 9000 + 100 * s + i)]

(*------------------------------- group laws ------------------------------*)
\* 1 curve, 2 field, 3 4 coordinates, then the points:
\* A_i = point i as constructed, B_i = (A_i - T) + T, C_i = (B_i + B_T) - B_T
GroupCode(head, c, pts, T, muls) ==
  LET n    == Len(pts)
      A(i) == 4 + i
      B(i) == 4 + n + i
      C(i) == 4 + 2 * n + i
      tt   == 4 + 3 * n + 1
      k0   == tt + 1
      Prs(f(_, _)) == Flat([i \in 1 .. n |-> [j \in 1 .. n |-> f(i, j)]])
  IN Flat(<<
       <<head, MkFp(c.p, 2)>>,
       Flat([i \in 1 .. n |-> MkPoint(1, 2, 3, pts[i], A(i))]),
       Flat([i \in 1 .. n |-> <<I("sub", <<A(i), A(T)>>, tt), I("add", <<tt, A(T)>>, B(i))>>]),
       Flat([i \in 1 .. n |-> <<I("add", <<B(i), B(T)>>, tt), I("sub", <<tt, B(T)>>, C(i))>>]),
       Prs(LAMBDA i, j : I("add", <<A(i), A(j)>>, 0)),
       Prs(LAMBDA i, j : I("add", <<B(i), C(j)>>, 0)),
       Prs(LAMBDA i, j : I("add", <<A(i), B(j)>>, 0)),
       Prs(LAMBDA i, j : I("add", <<C(i), A(j)>>, 0)),
       Prs(LAMBDA i, j : I("sub", <<A(i), B(j)>>, 0)),
       Prs(LAMBDA i, j : I("sub", <<C(i), B(j)>>, 0)),
       Flat([i \in 1 .. n |-> <<I("neg", <<A(i)>>, 0), I("neg", <<B(i)>>, 0), I("add", <<C(i), C(i)>>, 0),
                                I("sub", <<C(i), C(i)>>, 0), I("neg", <<C(i)>>, tt), I("add", <<tt, C(i)>>, 0),
                                I("add", <<C(i), tt>>, 0)>>]),
       Flat([k \in 1 .. Len(muls) |->
         <<I("scalar", <<1, Show(muls[k])>>, k0)>> \o
         Flat([i \in 1 .. n |-> <<I("mul", <<A(i), k0>>, 0), I("mul", <<k0, B(i)>>, 0)>>])]),
       Read(5, 4 + 3 * n)
     >>)
Muls == << N(2), N(3), N(5) >>
ToyId(c, i) == c.kind \o "/p" \o Show(c.p) \o "/" \o Show(c.a) \o "." \o Show(IF c.kind = "e" THEN c.d ELSE c.b)
               \o (IF c.kind = "m" THEN "." \o Show(c.s) ELSE "")
GroupUnit(c0, i) ==
  LET c == Gened(c0) pts == Pts(c) n == Len(pts)
  IN Unit(ToyId(c, i), GroupCode(Toy(c), c, pts, 1 + ToInt(ModF(Plus(c.a, Plus(c.b, Plus(c.d, N(2)))), N(n))), Muls))
GroupUnits(cs) == [i \in 1 .. Len(cs) |-> GroupUnit(cs[i], i)]
NamedGroup(i) ==
  LET c == Named(KN(i)) pts == Pool(c, Pick(2, 8), i) \o LowPts(c)
  IN Unit("named/" \o KN(i), GroupCode(Name(KN(i)), c, pts, 4, Muls))
NamedGroups(kind) == LET is == SelectSeq([i \in 1 .. NNamed |-> i], LAMBDA i : Named(KN(i)).kind = kind)
                     IN [k \in 1 .. Len(is) |-> NamedGroup(is[k])]

C09Suite(t) == GroupUnits(WOdd(5) \o WOdd(7) \o WOdd(11) \o Every(WOdd(13), Pick(6, 1), 0) \o Every(WOdd(17), Pick(40, 4), 3)
                          \o Every(WOdd(19), Pick(50, 6), 1)) \o NamedGroups("w")
\* Montgomery curves with admissible constants: k of them per curve, starting somewhere
MWithS(cs, k) == Flat([i \in 1 .. Len(cs) |-> LET ss == AdmS(cs[i]) n == Len(ss) IN
                   [j \in 1 .. (IF n < k THEN n ELSE k) |-> WithS(cs[i], ss[1 + ((i + 3 * j) % n)])]])
C10Suite(t) == GroupUnits(MWithS(MCurves(5), 9) \o MWithS(MCurves(7), Pick(2, 9)) \o MWithS(Every(MCurves(11), Pick(2, 1), 0), Pick(1, 4))
                          \o MWithS(Every(MCurves(13), Pick(6, 1), 1), Pick(1, 2)) \o MWithS(Every(MCurves(17), Pick(40, 6), 5), 1)) \o NamedGroups("m")
C11Suite(t) == GroupUnits(ECurves(5) \o ECurves(7) \o ECurves(11) \o Every(ECurves(13), Pick(3, 1), 0)
                          \o Every(ECurves(17), Pick(8, 1), 0) \o Every(ECurves(19), Pick(16, 2), 0)) \o NamedGroups("e")

(*-------------------------- scalar multiplication ------------------------*)
\* P in two representations times k on both sides, and the two module laws
MulCode(head, c, pts, T, ks) ==
  LET n    == Len(pts)
      A(i) == 5 + i
      B(i) == 5 + n + i
      t1   == 5 + 2 * n + 1
      K(k) == t1 + 3 + k
  IN Flat(<<
       <<head, MkFp(c.p, 2)>>,
       Flat([i \in 1 .. n |-> MkPoint(1, 2, 3, pts[i], A(i))]),
       Flat([i \in 1 .. n |-> <<I("sub", <<A(i), A(T)>>, t1), I("add", <<t1, A(T)>>, B(i))>>]),
       [k \in 1 .. Len(ks) |-> I("scalar", <<1, Show(ks[k])>>, K(k))],
       Flat([k \in 1 .. Len(ks) |-> Flat([i \in 1 .. n |->
         <<I("mul", <<A(i), K(k)>>, 0), I("mul", <<K(k), B(i)>>, 0)>>])]),
       \* a product of a product: not normalized, and not of the order of the curve in general
       Flat([k \in 1 .. Len(ks) |->
         <<I("mul", <<B(1 + (k % n)), K(k)>>, t1), I("mul", <<t1, K(1 + ((k * 3) % Len(ks)))>>, t1 + 1),
           I("add", <<t1, t1 + 1>>, t1 + 2), I("mul", <<K(k), t1 + 2>>, 0)>>]),
       Read(6, 5 + 2 * n)
     >>)
\* scalars around the size of the group, of machine words, and of the modulus r
ToyKs(r, n, s) ==
  << Zero, One, Two, N(3), N(4), N(5), N(6), N(7), N(8), N(n - 1), N(n), N(n + 1), N(2 * n), N(2 * n + 1),
     Dec(r), Minus(r, Two), DivF(r, Two), Inc(DivF(r, Two)), N(0 - 1), Minus(Zero, N(n)),
     Pow2(16), Pow2(31), Dec(Pow2(32)), Pow2(32), Inc(Pow2(32)), Rnd(7000 + s, r), Rnd(7100 + s, r) >>
RWord == N("18446744073709551629")              \* a prime just above 2^64
RTwo  == N("340282366920938463463374607431768211507")   \* a prime above 2^128
WordKs(r, s) ==
  << Zero, One, Pow2(32), Dec(Pow2(63)), Pow2(63), Dec(Pow2(64)), Pow2(64), Dec(r), DivF(r, Two), Inc(Pow2(33)), Times(N(3), Pow2(62)),
     Rnd(7200 + s, r), Shape(7200 + s, r), Shape(7250 + s, r), N(0 - 2) >> \o
  (IF Less(Pow2(65), r) THEN << Pow2(65), Inc(Pow2(64)), Pow2(96), Inc(Pow2(96)), Pow2(127), Inc(Pow2(127)), Times(Dec(Pow2(32)), Pow2(64)), Pow2(128) >> ELSE << >>)
MulUnit(c0, i, r, ks(_, _, _)) ==
  LET c == [Gened(c0) EXCEPT !.r = r] pts == Pts(c) n == Len(pts)
  IN Unit("mul/" \o ToString(BitLen(r)) \o "/" \o ToyId(c, i), MulCode(Toy(c), c, pts, 1 + (i % n), ks(r, n, i)))
MulUnits(cs) == [i \in 1 .. Len(cs) |-> MulUnit(cs[i], i, BigR, ToyKs)] \o
                [i \in 1 .. Len(cs) |-> MulUnit(cs[i], i, IF i % 2 = 0 THEN RWord ELSE RTwo, LAMBDA r, n, s : WordKs(r, s))]
\* curves of prime order n, with r = n: all scalars
IsPrimeInt(n) == n > 1 /\ \A d \in 2 .. (n - 1) : n % d # 0
PrimeOrder(cs) == SelectSeq(cs, LAMBDA c : IsPrimeInt(Len(Pts(c))) /\ Len(Pts(c)) > 3)
FullUnit(c0, i) == LET n == Len(Pts(c0)) c == [Gened(c0) EXCEPT !.r = N(n)] pts == Pts(c)
  IN Unit("full/" \o ToyId(c, i), MulCode(Toy(c), c, pts, 2, [k \in 1 .. n |-> N(k - 1)]))
NamedKs(c, s) ==
  << Zero, One, Two, N(3), Dec(c.r), Minus(c.r, Two), DivF(c.r, Two), Inc(DivF(c.r, Two)),
     Pow2(64), Inc(Pow2(128)), Dec(Pow2(64)), Rnd(7300 + s, c.r), Minus(Zero, Rnd(7400 + s, c.r)), Shape(7300 + s, c.r), Shape(7400 + s, c.r) >> \o
  (IF Thorough THEN << Pow2(32), Pow2(63), Pow2(127), Inc(Pow2(192)), Times(Dec(Pow2(32)), Pow2(96)), c.h >> \o [i \in 1 .. 6 |-> Rnd(7500 + 10 * s + i, c.r)] ELSE << >>)
NamedMul(i) ==
  LET c == Named(KN(i)) low == LowPts(c) pts == Pool(c, 1, 20 + i) \o (IF low = << >> THEN << >> ELSE <<low[1], low[Len(low) \div 2 + 1]>>)
  IN Unit("named/" \o KN(i), MulCode(Name(KN(i)), c, pts, 4, NamedKs(c, i)))
C12Suite(t) ==
  MulUnits(Every(WOdd(5), 2, 0) \o Every(WOdd(7), 3, 0) \o Every(WOdd(11), Pick(10, 2), 0) \o Every(WOdd(13), Pick(20, 4), 0)) \o
  MulUnits(MWithS(Every(MCurves(5), 2, 0), 1) \o MWithS(Every(MCurves(7), 5, 1), 1) \o MWithS(Every(MCurves(11), Pick(20, 4), 0), 1)) \o
  MulUnits(ECurves(5) \o Every(ECurves(7), 2, 0) \o Every(ECurves(11), Pick(5, 1), 0) \o Every(ECurves(13), Pick(12, 2), 0)) \o
  LET fs == Every(PrimeOrder(WOdd(7)), 4, 0) \o Every(PrimeOrder(WOdd(11)), Pick(8, 2), 0) \o Every(PrimeOrder(WOdd(13)), Pick(16, 3), 0)
  IN [i \in 1 .. Len(fs) |-> FullUnit(fs[i], i)] \o
  [i \in 1 .. NNamed |-> NamedMul(i)]

(*---------------------- validity, equality, normal form ------------------*)
\* every pair of coordinates on a toy curve; 2 field, 3.. the elements
CoordCode(c) ==
  LET p == ToInt(c.p) v == 3 + p IN
  <<Toy(c), MkFp(c.p, 2)>> \o [i \in 1 .. p |-> MkElt(2, N(i - 1), 2 + i)] \o
  Flat([i \in 1 .. p |-> [j \in 1 .. p |-> I("point", <<1, 2 + i, 2 + j>>, 0)]])
CoordUnits(cs) == [i \in 1 .. Len(cs) |-> Unit("coords/" \o ToyId(cs[i], i), CoordCode(Gened(cs[i])))]

\* all representations of all points: predicates on each, equality of each pair
StateCode(head, c, pts, T) ==
  LET n    == Len(pts)
      A(i) == 4 + i
      B(i) == 4 + n + i
      C(i) == 4 + 2 * n + i
      z    == 4 + 3 * n
      tt   == z + 6
      L    == 3 * n + 5
      Q(i) == 4 + i                       \* all of them
  IN Flat(<<
       <<head, MkFp(c.p, 2)>>,
       Flat([i \in 1 .. n |-> MkPoint(1, 2, 3, pts[i], A(i))]),
       Flat([i \in 1 .. n |-> <<I("sub", <<A(i), A(T)>>, tt), I("add", <<tt, A(T)>>, B(i))>>]),
       Flat([i \in 1 .. n |-> <<I("clone", <<B(i)>>, C(i)), I("normalize", <<C(i)>>, 0)>>]),
       \* identities that were computed
       <<I("identity", <<1>>, z + 1), I("sub", <<B(T), A(T)>>, z + 2), I("neg", <<z + 2>>, z + 3),
         I("scalar", <<1, "0">>, tt), I("mul", <<tt, B(T)>>, z + 4),
         I("identity", <<1>>, z + 5), I("normalize", <<z + 5>>, 0)>>,
       Flat([i \in 1 .. L |-> <<I("isZero", <<Q(i)>>, 0), I("onCurve", <<1, Q(i)>>, 0)>>]),
       Flat([i \in 1 .. L |-> [j \in 1 .. L |-> I("eq", <<Q(i), Q(j)>>, 0)]]),
       Flat([i \in 1 .. L |-> <<I("clone", <<Q(i)>>, tt), I("normalize", <<tt>>, 0), I("eq", <<tt, Q(i)>>, 0), I("isZero", <<tt>>, 0),
                                I("onCurve", <<1, tt>>, 0), I("add", <<tt, Q(i)>>, 0), I("normalize", <<tt>>, 0),
                                I("neg", <<Q(i)>>, tt), I("eq", <<tt, Q(i)>>, 0), I("normalize", <<tt>>, 0)>>]),
       Read(5, 4 + L)
     >>)
StateUnit(c0, i) == LET c == Gened(c0) pts == Pts(c) n == Len(pts)
  IN Unit("state/" \o ToyId(c, i), StateCode(Toy(c), c, pts, 1 + (i % n)))
StateUnits(cs) == [i \in 1 .. Len(cs) |-> StateUnit(cs[i], i)]
NamedState(i) == LET c == Named(KN(i)) pts == Pool(c, Pick(1, 4), 40 + i) \o LowPts(c)
  IN Unit("state/" \o KN(i), StateCode(Name(KN(i)), c, pts, 4))
\* off-curve coordinates on the named curves: neighbours of curve points, and all-zero
NamedCoord(i) ==
  LET c == Named(KN(i)) pts == Pool(c, 2, 60 + i)
      Try(x, y) == <<MkElt(2, x, 3), MkElt(2, y, 4), I("point", <<1, 3, 4>>, 0)>>
  IN Unit("coords/" \o KN(i), <<Name(KN(i)), MkFp(c.p, 2)>> \o Try(Zero, Zero) \o Try(Zero, One) \o Try(One, Zero) \o Try(Zero, FNeg(c.p, One)) \o
     Flat([k \in 1 .. Len(pts) - 1 |-> LET P == pts[k + 1] IN
       Try(P.x, P.y) \o Try(P.x, FNeg(c.p, P.y)) \o Try(FNeg(c.p, P.x), P.y) \o Try(P.y, P.x) \o Try(P.x, FAdd(c.p, P.y, One)) \o Try(FAdd(c.p, P.x, One), P.y)
       \o Try(Plus(P.x, c.p), Minus(P.y, c.p))]))
C13Suite(t) ==
  CoordUnits(WCurves(5) \o Every(WCurves(7), 2, 0) \o Every(WCurves(11), Pick(10, 2), 0) \o Every(WCurves(13), Pick(20, 4), 0)) \o
  CoordUnits(MWithS(MCurves(5), 1) \o MWithS(Every(MCurves(7), 2, 0), 1) \o MWithS(Every(MCurves(11), Pick(9, 2), 0), 1)) \o
  CoordUnits(ECurves(5) \o ECurves(7) \o Every(ECurves(11), Pick(3, 1), 0) \o Every(ECurves(13), Pick(4, 1), 0)) \o
  StateUnits(Every(WOdd(5), Pick(2, 1), 0) \o Every(WOdd(7), Pick(2, 1), 0) \o Every(WOdd(11), Pick(8, 2), 0) \o Every(WOdd(13), Pick(16, 2), 0)) \o
  StateUnits(MWithS(MCurves(5), Pick(1, 3)) \o MWithS(Every(MCurves(7), Pick(3, 1), 0), 1) \o MWithS(Every(MCurves(11), Pick(16, 3), 0), 1)) \o
  StateUnits(ECurves(5) \o Every(ECurves(7), Pick(2, 1), 0) \o Every(ECurves(11), Pick(6, 1), 0) \o Every(ECurves(13), Pick(10, 2), 0)) \o
  [i \in 1 .. NNamed |-> NamedState(i)] \o [i \in 1 .. NNamed |-> NamedCoord(i)]

(*------------------------------- encodings -------------------------------*)
\* encode every representation both ways, decode the standard encoding, compare
EncCode(head, c, pts, T) ==
  LET n    == Len(pts)
      A(i) == 4 + i
      B(i) == 4 + n + i
      tt   == 4 + 2 * n + 1
      Dec2(i, cmp) == <<I("decode", <<1, Encode(c, pts[i], cmp)>>, tt), I("eq", <<tt, A(i)>>, 0), I("eq", <<B(i), tt>>, 0),
                        I("encode", <<tt, cmp>>, 0), I("encode", <<tt, ~cmp>>, 0), I("add", <<tt, A(T)>>, 0)>>
  IN Flat(<<
       <<head, MkFp(c.p, 2)>>,
       Flat([i \in 1 .. n |-> MkPoint(1, 2, 3, pts[i], A(i))]),
       Flat([i \in 1 .. n |-> <<I("sub", <<A(i), A(T)>>, tt), I("add", <<tt, A(T)>>, B(i))>>]),
       Flat([i \in 1 .. n |-> <<I("encode", <<A(i), FALSE>>, 0), I("encode", <<A(i), TRUE>>, 0),
                                I("encode", <<B(i), FALSE>>, 0), I("encode", <<B(i), TRUE>>, 0),
                                I("sub", <<A(i), B(i)>>, tt), I("encode", <<tt, TRUE>>, 0), I("encode", <<tt, FALSE>>, 0)>>]),
       Flat([i \in 1 .. n |-> Dec2(i, TRUE) \o Dec2(i, FALSE)]),
       Read(5, 4 + 2 * n)
     >>)
EncUnit(c0, i) == LET c == Gened(c0) pts == Pts(c) n == Len(pts)
  IN Unit("enc/" \o ToyId(c, i), EncCode(Toy(c), c, pts, 1 + (i % n)))
EncUnits(cs) == [i \in 1 .. Len(cs) |-> EncUnit(cs[i], i)]
\* curves over fields of one and a half, two bytes: a sample of points, among them short coordinates
SampleUnit(c0, s) ==
  LET pts == [i \in 1 .. Pick(10, 60) |-> PtsFrom(c0, Rnd(11000 + 100 * s + i, c0.p), 1)[1]] \o PtsFrom(c0, Zero, 6) \o PtsFrom(c0, N(240), 6)
             \o PtsFrom(c0, Minus(c0.p, N(9)), 2)
      c == WithGen(c0, pts[1])
  IN Unit("enc/" \o ToyId(c, s), EncCode(Toy(c), c, <<Id(c)>> \o pts, 2))
MidPrimes == << 127, 131, 251, 263, 509, 1019, 1021, 65519, 65531 >>
\* a Weierstrass curve over p with no point of order two: the cubic has no root
NoRoot(c) == \A x \in 0 .. (ToInt(c.p) - 1) : WRhs(c, N(x)) # Zero
RECURSIVE MidW(_, _, _)
MidW(p, a, b) == LET c == Curve("w", p, a, b, 0, 0) IN IF Nonsingular(c) /\ NoRoot(c) THEN c ELSE MidW(p, a, b + 1)
MidM(p, b) == LET ok(a) == Nonsingular(Curve("m", p, a, b, 0, 0))
                  a == CHOOSE x \in 3 .. 20 : ok(x)
                  c == Curve("m", p, a, b, 0, 0)
                  \* y = s has no point: b s^2 = x^3 + a x^2 + x has no root
                  adm(s) == \A x \in 0 .. (p - 1) : MRhs(c, N(x)) # FSqr(c.p, N(s))
                  s == CHOOSE v \in 1 .. 200 : adm(v)
              IN WithS(c, s)
MidE(p) == LET d == CHOOSE x \in 2 .. 50 : ~FIsSquare(N(p), N(x)) IN Curve("e", p, IF p % 4 = 1 THEN p - 1 ELSE 1, 0, d, 0)
Mids(t) == LET n == Pick(7, 9) IN
           [i \in 1 .. n |-> MidW(MidPrimes[i], 1 + (i % 3), 1)] \o [i \in 1 .. 5 |-> MidM(MidPrimes[i], 1 + (i % 2))] \o [i \in 1 .. n |-> MidE(MidPrimes[i])]
NamedEnc(i) == LET c == Named(KN(i)) pts == Pool(c, Pick(6, 40), 80 + i) \o LowPts(c) \o PtsFrom(c, Pow2(100), 1) \o PtsFrom(c, Pow2(240), 1)
           \o Flat([k \in 1 .. Pick(4, 20) |-> PtsFrom(c, Shape(12000 + 100 * i + k, c.p), 1)])
  IN Unit("enc/" \o KN(i), EncCode(Name(KN(i)), c, pts, 4))
C14Suite(t) ==
  EncUnits(WOdd(5) \o WOdd(7) \o Every(WOdd(11), Pick(4, 1), 0) \o Every(WOdd(13), Pick(10, 1), 0)) \o
  EncUnits(MWithS(MCurves(5), 1) \o MWithS(MCurves(7), 1) \o MWithS(Every(MCurves(11), Pick(6, 1), 0), 1)) \o
  EncUnits(ECurves(5) \o ECurves(7) \o Every(ECurves(11), Pick(2, 1), 0) \o Every(ECurves(13), Pick(3, 1), 0)) \o
  (LET m == Mids(0) IN [i \in 1 .. Len(m) |-> SampleUnit(m[i], i)]) \o
  [i \in 1 .. NNamed |-> NamedEnc(i)]

(*-------------------------------- decoding -------------------------------*)
Dcd(s) == I("decode", <<1, s>>, 0)
Byte(i) == i - 1
AllBytes(f(_)) == [i \in 1 .. 256 |-> f(i - 1)]
\* strings whose length is no encoding's
Lens(n) == Flat([l \in 1 .. 2 * n + 6 |-> <<Dcd([i \in 1 .. l - 1 |-> 0]), Dcd([i \in 1 .. l - 1 |-> IF i = 1 THEN 4 ELSE 1]),
                                           Dcd([i \in 1 .. l - 1 |-> IF i = 1 THEN 2 ELSE 1]), Dcd([i \in 1 .. l - 1 |-> 255])>>])
Tags == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 18, 20, 32, 36, 64, 128, 130, 131, 132, 252, 255>>
\* one-byte fields, exhaustively: all strings of one byte, all tag/x, the given x/y
Sec1All1(c, xy) ==
  AllBytes(LAMBDA a : Dcd(<<a>>)) \o
  Flat([k \in 1 .. Len(Tags) |-> AllBytes(LAMBDA a : Dcd(<<Tags[k], a>>))]) \o
  Flat([i \in 1 .. xy |-> [j \in 1 .. xy |-> Dcd(<<4, i - 1, j - 1>>)]]) \o
  Flat([k \in 1 .. Len(Tags) |-> Flat([i \in 1 .. 5 |-> [j \in 1 .. 5 |-> Dcd(<<Tags[k], i - 1, j - 1>>)]])]) \o
  AllBytes(LAMBDA a : Dcd(<<4, a, 0>>)) \o AllBytes(LAMBDA a : Dcd(<<4, 0, a>>)) \o AllBytes(LAMBDA a : Dcd(<<4, 3, a>>)) \o AllBytes(LAMBDA a : Dcd(<<4, a, 255>>))
EdAll1(c) == AllBytes(LAMBDA a : Dcd(<<a>>)) \o AllBytes(LAMBDA a : Dcd(<<a, 0>>)) \o AllBytes(LAMBDA a : Dcd(<<0, a>>))
DecCode(head, body) == <<head>> \o body
DecToy(c0, i) == LET c == Gened(c0) IN
  Unit("dec/" \o ToyId(c, i), DecCode(Toy(c), <<Dcd(<< >>)>> \o Lens(1) \o (IF c.kind = "e" THEN EdAll1(c) ELSE Sec1All1(c, ToInt(c.p) + Pick(4, 12)))))
\* two-byte fields: step through all x (all y for Edwards), and through all y at some x
Hi(v) == v \div 256
Lo(v) == v % 256
StepN(n, k) == (n + k - 1) \div k
DecMid(c0, s, k) ==
  LET c == WithGen(c0, PtsFrom(c0, N(3), 1)[1])
      p == ToInt(c.p)
      n == IF c.kind = "e" THEN EdSize(c) ELSE FSize(c.p)
      B2(v) == IF n = 1 THEN <<v % 256>> ELSE <<Hi(v), Lo(v)>>
      top == IF n = 1 THEN 256 ELSE 65536
      m == StepN(top, k)
      x(i) == ((i - 1) * k + s) % top
      \* all around the modulus
      y(i) == (p - 20 + i) % top
      G == PtsFrom(c, N(17), 1)[1]
  IN Unit("dec/" \o ToyId(c, s),
       <<Toy(c)>> \o Lens(n) \o
       IF c.kind = "e"
       THEN LET L2(v) == IF n = 1 THEN <<v % 256>> ELSE <<Lo(v), Hi(v)>> IN
            [i \in 1 .. m |-> Dcd(L2(x(i)))] \o [i \in 1 .. 40 |-> Dcd(L2(y(i)))]
            \o (IF n = 1 THEN << >> ELSE [i \in 1 .. 40 |-> Dcd(<<Lo(y(i)), 128 + (Hi(y(i)) % 128)>>)])
            \o [i \in 1 .. 256 |-> Dcd([L2(1) EXCEPT ![n] = (L2(1)[n] + i - 1) % 256])]
       ELSE Flat([i \in 1 .. m |-> <<Dcd(<<2>> \o B2(x(i))), Dcd(<<3>> \o B2(x(i)))>>]) \o
            Flat([i \in 1 .. 40 |-> <<Dcd(<<2>> \o B2(y(i))), Dcd(<<3>> \o B2(y(i))), Dcd(<<4>> \o B2(y(i)) \o B2(1)),
                                      Dcd(<<4>> \o B2(ToInt(G.x)) \o B2(y(i)))>>]) \o
            [i \in 1 .. StepN(m, 4) |-> Dcd(<<4>> \o B2(ToInt(G.x)) \o B2(x(i)))] \o
            <<Dcd(<<4>> \o B2(ToInt(G.x)) \o B2(ToInt(G.y)))>> \o
            (IF ToInt(G.y) + p < top THEN <<Dcd(<<4>> \o B2(ToInt(G.x)) \o B2(ToInt(G.y) + p))>> ELSE << >>) \o
            (IF ToInt(G.x) + p < top THEN <<Dcd(<<4>> \o B2(ToInt(G.x) + p) \o B2(ToInt(G.y))), Dcd(<<2>> \o B2(ToInt(G.x) + p)), Dcd(<<3>> \o B2(ToInt(G.x) + p))>> ELSE << >>))
\* standard curves: encodings and their mutations
Flip(s, i, b) == [s EXCEPT ![i] = IF (s[i] \div b) % 2 = 0 THEN s[i] + b ELSE s[i] - b]
Muts(s, sd) ==
  Flat(<< <<Dcd(s), Dcd(s \o <<0>>), Dcd(<<0>> \o s), Dcd(Front(s)), Dcd(Tail(s)), Dcd(s \o s), Dcd(Reverse(s))>>,
          [i \in 1 .. Len(s) |-> Dcd(Flip(s, i, <<1, 2, 4, 8, 16, 32, 64, 128>>[1 + RndInt(12000 + 97 * sd + i, 8)]))],
          [i \in 1 .. 8 |-> Dcd(Flip(s, 1, <<1, 2, 4, 8, 16, 32, 64, 128>>[i]))],
          [i \in 1 .. 8 |-> Dcd(Flip(s, Len(s), <<1, 2, 4, 8, 16, 32, 64, 128>>[i]))] >>)
NamedDec(i) ==
  LET c == Named(KN(i))
      n == IF c.kind = "e" THEN EdSize(c) ELSE FSize(c.p)
      pts == Pool(c, Pick(1, 6), 100 + i) \o LowPts(c)
      Cst(b) == [k \in 1 .. n |-> b]
      \* around zero, the modulus and the largest string
      vs == [k \in 1 .. Pick(12, 100) |-> Shape(13000 + 200 * i + k, Plus(c.p, c.p))] \o [k \in 1 .. Pick(4, 50) |-> Rnd(13000 + 200 * i + k, c.p)] \o << Zero, One, Two, N(3), N(4), N(5), N(6), N(7), N(8), Dec(c.p), Minus(c.p, Two), Minus(c.p, N(3)), c.p, Inc(c.p), Plus(c.p, Two), Plus(c.p, N(3)), Plus(c.p, N(4)), Plus(c.p, N(5)),
               Plus(c.p, N(6)), Plus(c.p, N(9)) >>
      fits == SelectSeq(vs, LAMBDA v : Less(v, Pow2(8 * n - (IF c.kind = "e" THEN 1 ELSE 0))))
  IN Unit("dec/" \o KN(i), <<Name(KN(i))>> \o Lens(IF Thorough THEN n ELSE 4) \o
       <<Dcd(Cst(0)), Dcd(Cst(255)), Dcd(<<2>> \o Cst(0)), Dcd(<<3>> \o Cst(0)), Dcd(<<4>> \o Cst(0) \o Cst(0)), Dcd(<<4>> \o Cst(255) \o Cst(255)), Dcd(<<2>> \o Cst(255)), Dcd(<<3>> \o Cst(255)),
         Dcd(<<0>> \o Cst(0)), Dcd(<<0>> \o Cst(0) \o Cst(0)), Dcd(Cst(0) \o Cst(0)), Dcd(<<5>> \o Cst(0)), Dcd(<<6>> \o Cst(0) \o Cst(0))>> \o
       Flat([k \in 1 .. Len(pts) |-> Muts(Encode(c, pts[k], TRUE), 10 * i + k) \o (IF c.kind = "e" THEN << >> ELSE Muts(Encode(c, pts[k], FALSE), 500 + 10 * i + k))]) \o
       Flat([k \in 1 .. Len(fits) |->
          IF c.kind = "e" THEN LET s == BytesLE(fits[k], n) IN <<Dcd(s), Dcd(Flip(s, n, 128))>>
          ELSE LET s == Reverse(BytesLE(fits[k], n)) IN <<Dcd(<<2>> \o s), Dcd(<<3>> \o s), Dcd(<<4>> \o s \o s), Dcd(<<4>> \o s \o Reverse(BytesLE(Gen(c).y, n))), Dcd(<<4>> \o Reverse(BytesLE(Gen(c).x, n)) \o s)>>]))
C15Suite(t) ==
  LET toys == Every(WOdd(5), 5, 0) \o Every(WCurves(7), Pick(12, 3), 2) \o Every(WCurves(11), Pick(30, 8), 0) \o Every(WCurves(13), Pick(50, 10), 1) \o
              MWithS(Every(MCurves(5), 4, 0), 1) \o MWithS(Every(MCurves(7), Pick(10, 2), 2), 1) \o MWithS(Every(MCurves(11), Pick(30, 6), 0), 1) \o MWithS(Every(MCurves(13), Pick(50, 10), 0), 1) \o
              ECurves(5) \o ECurves(7) \o ECurves(11) \o Every(ECurves(13), Pick(2, 1), 0)
  IN [i \in 1 .. Len(toys) |-> DecToy(toys[i], i)] \o
     (LET m == Mids(0) IN [i \in 1 .. Len(m) |-> DecMid(m[i], i, IF ToInt(m[i].p) < 256 THEN 1 ELSE Pick(61, 3))]) \o
     [i \in 1 .. NNamed |-> NamedDec(i)]
=============================================================================
