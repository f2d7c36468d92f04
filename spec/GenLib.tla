------------------------------- MODULE GenLib -------------------------------
(***************************************************************************)
(* Building programs for the register machine of Redox.tla.                *)
(***************************************************************************)
EXTENDS Redox, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE IOUtils
LOCAL INSTANCE Json

Thorough == IOEnv.VERIF_TIER = "thorough"
Pick(quick, thorough) == IF Thorough THEN thorough ELSE quick

RECURSIVE Flat(_)                    \* concatenation of a sequence of sequences
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE AsSeq(_)                   \* the elements of a set, in some fixed order
AsSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

(*------------------------------ random numbers ---------------------------*)
\* the i-th number below m: a power of a number made of the seed and i
Mersenne == N("6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151")
RndOf(x, m) == ModF(PowMod(Plus(Times(Plus(N(IOEnv.VERIF_SEED), N("7777777")), N("1000003")), x), N(65537), Mersenne), m)
Rnd(i, m) == RndOf(N(i), m)
\* the i-th number of sequence s
RndAt(s, i, m) == ToInt(RndOf(Plus(Times(N(s), N("1000000007")), N(i)), N(m)))
RndInt(i, m) == ToInt(Rnd(i, N(m)))
RndSeq(i, len, m) == [j \in 1 .. len |-> RndInt(1000 * i + j, m)]

\* the i-th number below m made of machine words with extreme digits
Two64 == N("18446744073709551616")
WordPats == << Zero, Zero, Zero, N("18446744073709551615"), N("18446744073709551615"), N("18446744073709551615"), One, N("9223372036854775808"),
               N("9223372036854775807"), N("4294967295"), N("4294967296"), N("18446744069414584320"), N("18446744073709551614") >>
WordPat(i, j) == LET k == RndAt(600 + i, j, 16) IN IF k < 13 THEN WordPats[k + 1] ELSE RndOf(N(1000 * i + j), Two64)
Shape(i, m) ==
  LET b == BitLen(m)
      v == FoldLeft(LAMBDA acc, j : Plus(Times(acc, Two64), WordPat(i, j)), Zero, [j \in 1 .. (b + 63) \div 64 |-> j])
      top == PowMod(Two, N(b - 1), Times(m, N(4)))
      w == ModF(v, Times(Two, top))
  IN IF Less(w, m) THEN w ELSE Minus(w, top)

\* the digits of n >= 0 as character codes, before acc
RECURSIVE DigitsIn(_, _, _)
DigitsIn(n, radix, acc) ==
  IF n = Zero THEN IF acc = << >> THEN <<48>> ELSE acc
  ELSE LET d == ToInt(ModF(n, N(radix)))
       IN DigitsIn(DivF(n, N(radix)), radix, <<IF d < 10 THEN 48 + d ELSE 87 + d>> \o acc)

(*--------------------------------- programs ------------------------------*)
I(o, a, d) == [o |-> o, a |-> a, d |-> d]
Unit(id, code) ==
  [id |-> id, code |-> code,
   n |-> FoldLeft(LAMBDA acc, ins : IF ins.d > acc THEN ins.d ELSE acc, 1, code)]
Write(units) == JsonSerialize(IOEnv.PROG, units)

Read(a, b) == [i \in 1 .. (b - a + 1) |-> I("read", <<a + i - 1>>, 0)]

MkFp(p, d)     == I("Fp", <<Show(p)>>, d)
MkFp2(p, d)    == I("Fp2", <<Show(p)>>, d)
MkElt(f, x, d) == I("elt", <<f, Show(x)>>, d)
MkCurve(c, d)  == I("curve", <<c.kind, Show(c.p), Show(c.a), Show(IF c.kind = "e" THEN c.d ELSE c.b),
                               Show(c.s), Show(c.r), Show(c.h), Show(c.gx), Show(c.gy)>>, d)
\* the point P of the curve in register cv, over the field in register f,
\* using t and t+1 for its coordinates
MkPoint(cv, f, t, P, d) ==
  IF P.inf THEN <<I("identity", <<cv>>, d)>>
  ELSE <<MkElt(f, P.x, t), MkElt(f, P.y, t + 1), I("point", <<cv, t, t + 1>>, d)>>

(*-------------------------------- toy curves -----------------------------*)
\* a prime that is no word size: scalars of toy curves live modulo it
BigR == N("4294967311")
Nums(p) == 0 .. (p - 1)
Curve(kind, p, a, b, d, s) ==
  [kind |-> kind, p |-> N(p), a |-> N(a), b |-> N(b), d |-> N(d), s |-> N(s),
   r |-> BigR, h |-> One, gx |-> Zero, gy |-> Zero]
\* affine points, by exhaustion
AffPts(c) == LET p == ToInt(c.p) IN
  SelectSeq([i \in 1 .. p * p |-> Aff(N((i - 1) \div p), N((i - 1) % p))],
            LAMBDA P : OnCurveXY(c, P.x, P.y))
Pts(c) == IF c.kind = "e" THEN AffPts(c) ELSE <<Inf>> \o AffPts(c)
WithGen(c, P) == [c EXCEPT !.gx = P.x, !.gy = P.y]
\* some generator: the last affine point
Gened(c) == LET s == AffPts(c) IN IF s = << >> THEN c ELSE WithGen(c, s[Len(s)])

WCurves(p) == SelectSeq([i \in 1 .. p * p |-> Curve("w", p, (i - 1) \div p, (i - 1) % p, 0, 0)],
                        LAMBDA c : Nonsingular(c))
OddOrder(c) == Len(Pts(c)) % 2 = 1
WOdd(p) == SelectSeq(WCurves(p), LAMBDA c : OddOrder(c) /\ Len(Pts(c)) > 1)

\* Montgomery curves with a given b, and the admissible constants s
MCurvesB(p, b) == SelectSeq([i \in 1 .. p |-> Curve("m", p, i - 1, b, 0, 0)], LAMBDA c : Nonsingular(c))
MCurves(p) == Flat([b \in 1 .. (p - 1) |-> MCurvesB(p, b)])
Admissible(c, s) == \A i \in 1 .. Len(AffPts(c)) : AffPts(c)[i].y # N(s)
WithS(c, s) == [c EXCEPT !.s = N(s)]
\* every Montgomery curve with every admissible s, sampled
AdmS(c) == LET ys == {AffPts(c)[i].y : i \in 1 .. Len(AffPts(c))}
           IN SelectSeq([i \in 1 .. ToInt(c.p) |-> i - 1], LAMBDA s : N(s) \notin ys)

\* complete Edwards curves: a a square, d not
ECurves(p) == SelectSeq([i \in 1 .. p * p |-> Curve("e", p, (i - 1) \div p, 0, (i - 1) % p, 0)],
                        LAMBDA c : Nonsingular(c) /\ FIsSquare(c.p, c.a) /\ ~FIsSquare(c.p, c.d))
Every(s, k, off) == LET n == (Len(s) + k - 1 - off) \div k IN
  [i \in 1 .. (IF n < 0 THEN 0 ELSE n) |-> s[(i - 1) * k + 1 + off]]
=============================================================================
