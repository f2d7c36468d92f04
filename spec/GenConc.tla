------------------------------ MODULE GenConc ------------------------------
(***************************************************************************)
(* Programs run by several threads (C25), programs that give everything    *)
(* back (C26), and sessions: pseudo-random behaviours of the register      *)
(* machine (C27).                                                          *)
(***************************************************************************)
EXTENDS GenMaps
LOCAL INSTANCE SequencesExt

(*-------------------------------- threads --------------------------------*)
\* setup: instructions of the main thread; body(t): those of thread t, all of
\* one length.  Threads write different registers, so the concatenation is one
\* of the executions, and all executions have its results.
Par(id, setup, threads, rounds, body(_)) ==
  [Unit(id, setup \o Flat([t \in 1 .. threads |-> body(t)])) EXCEPT !.id = id]
  @@ [setup |-> Len(setup), threads |-> threads, rounds |-> rounds]
TB(t) == 20 + 30 * t                                     \* registers of thread t
\* roots as first thing, of squares and of a shared element; then once more
ParRoots(p, threads, rounds, s) ==
  Par("roots/fp/" \o PName(p) \o "/" \o ToString(threads), <<MkFp(p, 1), MkElt(1, FSqr(p, Rnd(40000 + s, p)), 2), I("clone", <<1>>, 3)>>, threads, rounds,
      LAMBDA t : LET b == TB(t) f == 1 + 2 * (t % 2) IN
        <<MkElt(f, FSqr(p, Rnd(40100 + 10 * s + t, p)), b), I("sqrt", <<IF t % 3 = 0 THEN 2 ELSE b>>, b + 1), I("sqr", <<b + 1>>, b + 2), I("eq", <<b + 2, b>>, 0),
          I("sqrt", <<2>>, b + 3), I("isSquare", <<b>>, 0), I("neg", <<b + 2>>, b + 4), I("isSquare", <<b + 4>>, 0),
          I("clone", <<1>>, b + 5), MkElt(b + 5, N(4), b + 6), I("sqrt", <<b + 6>>, b + 7), I("drop", <<b + 5>>, 0), I("sqrt", <<b>>, b + 1), I("read", <<2>>, 0)>>)
ParRoots2(p, threads, rounds, s) ==
  Par("roots/fp2/" \o PName(p) \o "/" \o ToString(threads), <<MkFp2(p, 1), MkElt2(1, QSqr(p, <<Rnd(41000 + s, p), Rnd(41050 + s, p)>>), 2), I("clone", <<1>>, 3)>>, threads, rounds,
      LAMBDA t : LET b == TB(t) f == 1 + 2 * (t % 2) IN
        <<MkElt2(f, QSqr(p, <<Rnd(41100 + 10 * s + t, p), Rnd(41600 + 10 * s + t, p)>>), b), I("sqrt", <<IF t % 3 = 0 THEN 2 ELSE b>>, b + 1), I("sqr", <<b + 1>>, b + 2), I("eq", <<b + 2, b>>, 0),
          I("sqrt", <<2>>, b + 3), I("isSquare", <<b>>, 0), I("inv", <<b>>, b + 4), I("mul", <<b + 4, b>>, b + 5), I("isOne", <<b + 5>>, 0),
          I("clone", <<1>>, b + 5), MkElt2(b + 5, <<N(4), Zero>>, b + 6), I("sqrt", <<b + 6>>, b + 7), I("drop", <<b + 5>>, 0), I("read", <<2>>, 0)>>)
\* several fields, first used at the same time
ParFields(ps, rounds, s) ==
  LET n == Len(ps) IN
  Par("fields/" \o ToString(s), [i \in 1 .. n |-> MkFp(ps[i], i)], 6, rounds,
      LAMBDA t : LET b == TB(t) IN
        Flat([k \in 1 .. n |-> LET i == 1 + ((k + t) % n) p == ps[i] IN
          <<MkElt(i, FSqr(p, Rnd(42000 + 100 * s + 10 * t + k, p)), b), I("sqrt", <<b>>, b + 1), I("isSquare", <<b>>, 0)>>]))
\* a curve: decoding, multiplying, encoding; shared points
ParCurve(id, c, head, threads, rounds, s) ==
  LET P(t) == PtsFrom(c, Rnd(43000 + 100 * s + t, c.p), 1)[1] IN
  Par("curve/" \o id, <<head, I("gen", <<1>>, 2), I("add", <<2, 2>>, 3), I("scalar", <<1, "5">>, 4)>>, threads, rounds,
      LAMBDA t : LET b == TB(t) bad == [Encode(c, P(t), TRUE) EXCEPT ![1] = (@ + 77) % 256] IN
        <<I("decode", <<1, Encode(c, P(t), TRUE)>>, b), I("decode", <<1, bad>>, b + 1), I("add", <<b, 3>>, b + 2), I("mul", <<b + 2, 4>>, b + 3), I("normalize", <<b + 3>>, 0),
          I("encode", <<b + 3, TRUE>>, 0), I("eq", <<2, 3>>, 0), I("sub", <<b + 3, 3>>, b + 4), I("onCurve", <<1, b + 4>>, 0), I("decode", <<1, Encode(c, Gen(c), TRUE)>>, b + 5), I("eq", <<b + 5, 2>>, 0),
          I("scalar", <<1, Show(Rnd(43500 + t, c.r))>>, b + 6), I("mul", <<b + 6, b>>, b + 7), I("read", <<3>>, 0)>>)
\* maps made from one curve
ParMap(id, m, c, z, head, threads, rounds, s) ==
  Par("map/" \o m \o "/" \o id, <<head, I("field", <<1>>, 2), MkElt(2, z, 3)>>, threads, rounds,
      LAMBDA t : LET b == TB(t) IN
        <<I("newmap", <<m, 1, 3>>, b)>> \o
        Flat([k \in 1 .. 4 |-> <<MkElt(2, IF k = 1 THEN Zero ELSE Rnd(44000 + 100 * s + 10 * t + k, c.p), b + 1), I("map", <<b, b + 1>>, b + 2), I("onCurve", <<1, b + 2>>, 0), I("encode", <<b + 2, TRUE>>, 0)>>]))
ParRat(rat, threads, rounds) ==
  LET e == RatDom(rat) m == RatCod(rat) IN
  Par("rat/" \o rat, <<Name(IF rat = "25519" THEN "EDWARDS25519" ELSE "EDWARDS448"), I("named", <<IF rat = "25519" THEN "CURVE25519" ELSE "CURVE448">>, 2), I("field", <<1>>, 3), MkElt(3, IF rat = "25519" THEN Two ELSE N(0 - 1), 4)>>, threads, rounds,
      LAMBDA t : LET b == TB(t) IN
        <<I("rat", <<rat>>, b), I("newmap", <<"ell2e", 1, 4, b>>, b + 1), MkElt(3, Rnd(45000 + t, e.p), b + 2), I("map", <<b + 1, b + 2>>, b + 3), I("push", <<b, b + 3>>, b + 4), I("pull", <<b, b + 4>>, b + 5),
          I("onCurve", <<1, b + 5>>, 0), I("onCurve", <<2, b + 4>>, 0), I("encode", <<b + 5, TRUE>>, 0), I("decode", <<2, Encode(m, Gen(m), TRUE)>>, b + 6), I("pull", <<b, b + 6>>, b + 7)>>)
ParIso(iso, name, z, threads, rounds) ==
  LET c == Named(name) IN
  Par("iso/" \o iso, <<Name(name), I("field", <<1>>, 2), MkElt(2, z, 3)>>, threads, rounds,
      LAMBDA t : LET b == TB(t) IN
        <<I("iso", <<iso>>, b), I("newmap", <<"ab0", 1, 3, b>>, b + 1), MkElt(2, Rnd(46000 + t, c.p), b + 2), I("map", <<b + 1, b + 2>>, b + 3), I("onCurve", <<1, b + 3>>, 0), I("encode", <<b + 3, TRUE>>, 0)>>)
\* two equal things built separately, compared and combined in opposite orders
ParPair(id, one(_), rest, threads, rounds, body(_, _, _)) ==
  Par("pair/" \o id, Flat(one(1)) \o Flat(one(2)) \o rest, threads, rounds,
      LAMBDA t : LET b == TB(t) f == t % 2 IN Flat(body(b, 1 + f, 2 - f) \o body(b, 2 - f, 1 + f)))
ParEqField(p, two, threads, rounds) ==
  ParPair((IF two THEN "fp2/" ELSE "fp/") \o PName(p), LAMBDA k : <<<<IF two THEN MkFp2(p, k) ELSE MkFp(p, k), IF two THEN MkElt2(k, <<N(2 + k), N(4)>>, 2 + k) ELSE MkElt(k, N(2 + k), 2 + k), I("sqr", <<2 + k>>, 4 + k)>>>>, << >>, threads, rounds,
    LAMBDA b, k, l : <<<<I("eq", <<k, l>>, 0), I("eq", <<2 + k, 2 + l>>, 0), I("add", <<2 + k, 2 + l>>, b), I("mul", <<4 + k, 4 + l>>, b + 1), I("sub", <<2 + k, 4 + l>>, b + 2), I("div", <<4 + k, 2 + l>>, b + 3), I("clone", <<l>>, b + 4), I("eq", <<k, b + 4>>, 0), I("cmov", <<2 + k, 2 + l, TRUE>>, b + 5), I("eq", <<b + 5, b>>, 0)>>>>)
ParEqCurve(id, head, threads, rounds) ==
  ParPair("curve/" \o id, LAMBDA k : <<<<[head EXCEPT !.d = k], I("gen", <<k>>, 2 + k), I("scalar", <<k, "6">>, 6 + k), I("mul", <<2 + k, 6 + k>>, 4 + k)>>>>, << >>, threads, rounds,
    LAMBDA b, k, l : <<<<I("eq", <<k, l>>, 0), I("eq", <<2 + k, 2 + l>>, 0), I("eq", <<4 + k, 2 + l>>, 0), I("add", <<4 + k, 4 + l>>, b), I("sub", <<2 + k, 4 + l>>, b + 1), I("mul", <<4 + k, 6 + l>>, b + 2), I("onCurve", <<k, 4 + l>>, 0), I("onCurve", <<l, b + 1>>, 0), I("eq", <<b + 2, 4 + l>>, 0), I("clone", <<4 + k>>, b + 3), I("normalize", <<b + 3>>, 0), I("eq", <<b + 3, 4 + l>>, 0)>>>>)
RT(n) == Pick(n, 10 * n)
C25Suite(t) ==
  <<ParEqField(N(13), FALSE, 2, RT(300)), ParEqField(N(7), FALSE, 8, RT(150)), ParEqField(ModOf(1), FALSE, 8, RT(60)), ParEqField(N(7), TRUE, 8, RT(150)), ParEqField(QPrimes(0)[1], TRUE, 8, RT(40))>> \o
  [i \in 1 .. NNamed |-> ParEqCurve(KN(i), Name(KN(i)), 8, RT(4))] \o
  (LET cs == <<WOdd(11)[3], MWithS(MCurves(11), 1)[3], ECurves(11)[2]>> IN [i \in 1 .. 3 |-> LET c == Gened(cs[i]) IN ParEqCurve(ToyId(c, i), Toy(c), 8, RT(100))]) \o
  Flat([i \in 1 .. 10 |-> LET p == N(<<7, 13, 11, 29, 5, 3, 251, 37, 65521, 257>>[i]) IN
    IF HasRoots(p) THEN <<ParRoots(p, 8, RT(800), i)>> \o (IF i <= 3 THEN <<ParRoots(p, 2, RT(1500), i), ParRoots(p, 3, RT(1000), i)>> ELSE << >>) ELSE << >>]) \o
  [i \in 1 .. 5 |-> ParRoots2(N(<<7, 11, 3, 19, 251>>[i]), 8, RT(600), i)] \o <<ParRoots2(N(7), 2, RT(1500), 9), ParRoots2(N(19), 4, RT(800), 8)>> \o
  (LET ps == SelectSeq(StdPrimes(0), HasRoots) IN [i \in 1 .. Len(ps) |-> ParRoots(ps[i], 8, RT(60), 20 + i)]) \o
  (LET ps == QPrimes(0) IN [i \in 1 .. Len(ps) |-> ParRoots2(ps[i], 8, RT(24), 20 + i)]) \o
  <<ParFields(<<N(7), N(13), N(11), N(29)>>, RT(400), 1), ParFields(<<ModOf(5), ModOf(1), N(13), N(19)>>, RT(60), 2)>> \o
  [i \in 1 .. NNamed |-> ParCurve(KN(i), Named(KN(i)), Name(KN(i)), 8, RT(6), i)] \o
  (LET cs == <<WOdd(11)[3], WOdd(13)[2], MWithS(MCurves(11), 1)[3], MWithS(MCurves(13), 1)[4], ECurves(11)[2], ECurves(13)[2]>> IN
   [i \in 1 .. Len(cs) |-> LET c == Gened(cs[i]) IN ParCurve(ToyId(c, i), c, Toy(c), 8, RT(150), i)]) \o
  <<ParMap("P256", "sswu", Named("P256"), N(0 - 10), Name("P256"), 8, RT(10), 1), ParMap("P256", "svdw", Named("P256"), N(0 - 3), Name("P256"), 6, RT(10), 2),
    ParMap("CURVE25519", "ell2", Named("CURVE25519"), N(2), Name("CURVE25519"), 8, RT(10), 3), ParMap("CURVE448", "ell2", Named("CURVE448"), N(0 - 1), Name("CURVE448"), 8, RT(6), 4),
    ParMap("BLS12381G1", "svdw", Named("BLS12381G1"), N(0 - 3), Name("BLS12381G1"), 4, RT(8), 5), ParMap("SECP256K1", "svdw", Named("SECP256K1"), N(1), Name("SECP256K1"), 4, RT(8), 6)>> \o
  (LET w(m, p) == LET cs == SelectSeq(WOdd(p), LAMBDA c : HasZ(m, c)) c == Gened(cs[2]) z == CHOOSE z \in 0 .. (p - 1) : MapOk(m, c, N(z))
                  IN ParMap(ToyId(c, 0), m, c, N(z), Toy(c), 8, RT(100), 7)
   IN <<w("sswu", 11), w("svdw", 11), w("sswu", 13), w("svdw", 13)>>) \o
  <<ParRat("25519", 6, RT(8)), ParRat("448", 6, RT(5)), ParIso("secp256k1", "SECP256K1", N(0 - 11), 6, RT(8)), ParIso("bls12381g1", "BLS12381G1", N(11), 6, RT(5))>>

(*------------------------------- life cycles -----------------------------*)
\* any program, then everything is dropped (in three orders)
Order(n, k) == CASE k = 0 -> [i \in 1 .. n |-> i]
                 [] k = 1 -> [i \in 1 .. n |-> n + 1 - i]
                 [] OTHER -> [i \in 1 .. n |-> IF i % 2 = 1 THEN (i + 1) \div 2 ELSE n + 1 - (i \div 2)]
Live == I("live", << >>, 0)
Used(code, n) == SelectSeq([i \in 1 .. n |-> i], LAMBDA r : \E j \in 1 .. Len(code) : code[j].d = r)
DropAll(un, k) == LET us == Used(un.code, un.n) n == Len(us) o == Order(n, k) IN
  [un EXCEPT !.id = "drop/" \o ToString(k) \o "/" \o un.id, !.code = @ \o [i \in 1 .. n |-> I("drop", <<us[o[i]]>>, 0)] \o <<Live>>]
\* the first short units of a suite
Sample(us, most, step) == SelectSeq(Every(us, step, 0), LAMBDA un : Len(un.code) <= most)
Drops(us, s) == [i \in 1 .. Len(us) |-> DropAll(us[i], (i + s) % 3)]

\* all orders of dropping few values
Perms(n) == AsSeq(SetToSeqs({i : i \in 1 .. n}))
Held(code) == FoldLeft(LAMBDA h, i : IF i.o = "drop" THEN h \ {i.a[1]} ELSE IF i.d > 0 THEN h \cup {i.d} ELSE h, {}, code)
Cycle(id, code, n) ==
  LET ps == Perms(n) IN
  IF Held(code) \ (1 .. n) # {} THEN Assert(FALSE, <<"cycle keeps", id, Held(code)>>) ELSE
  Unit("cycle/" \o id, Flat([k \in 1 .. Len(ps) |-> code \o [i \in 1 .. n |-> I("drop", <<ps[k][i]>>, 0)] \o <<Live>>]))
FpCycle(p) == Cycle("fp/" \o PName(p), <<MkFp(p, 1), MkElt(1, N(4), 2), I("sqrt", <<2>>, 3), I("clone", <<1>>, 4)>>, 4)
FpCycle2(p) == Cycle("fpmore/" \o PName(p), <<MkFp(p, 1), MkElt(1, N(2), 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 0), I("inv", <<2>>, 3), I("div", <<2, 3>>, 4), I("sgn0", <<4>>, 0), I("powI", <<4, "-12345678901234567890">>, 4), I("tobe", <<4>>, 0), I("frombe", <<1, <<1, 2, 3>> >>, 4)>>, 4)
Fp2Cycle(p) == Cycle("fp2/" \o PName(p), <<MkFp2(p, 1), MkElt2(1, <<Zero, Two>>, 2), I("sqrt", <<2>>, 3), I("clone", <<1>>, 4)>>, 4)
Fp2Cycle2(p) == Cycle("fp2more/" \o PName(p), <<MkFp2(p, 1), MkElt2(1, <<One, Two>>, 2), I("isSquare", <<2>>, 0), I("sqrt", <<2>>, 0), I("inv", <<2>>, 3), I("div", <<2, 3>>, 4), I("frombe", <<1, <<1>> >>, 0), I("powI", <<4, "-12345678901234567890">>, 4), I("tole", <<4>>, 0)>>, 4)
\* panics and errors on the way
Mixed(p, q) == Cycle("mixed/" \o PName(p), <<MkFp(p, 1), MkFp(q, 2), MkElt(1, Two, 3), MkElt(2, Two, 4), I("add", <<3, 4>>, 0), I("mul", <<4, 3>>, 0), I("div", <<3, 4>>, 0), I("eq", <<3, 4>>, 0), I("sqrt", <<3>>, 0), I("sqrt", <<4>>, 0)>>, 4)
CurveCycle(id, c, head) ==
  Cycle("curve/" \o id, <<head, I("gen", <<1>>, 2), I("scalar", <<1, "7">>, 3), I("mul", <<2, 3>>, 4), I("decode", <<1, Encode(c, Gen(c), TRUE)>>, 2), I("decode", <<1, <<7, 7>> >>, 0), I("normalize", <<4>>, 0), I("encode", <<4, FALSE>>, 0), I("onCurve", <<1, 4>>, 0),
     I("bitsL", <<3>>, 0), I("bitsR", <<3>>, 0), I("eq", <<2, 4>>, 0)>>, 4)
MapCycle(id, m, c, z, head) ==
  Cycle("map/" \o m \o "/" \o id, <<head, I("field", <<1>>, 2), MkElt(2, z, 3), I("newmap", <<m, 1, 3>>, 4), I("map", <<4, 3>>, 2), I("newmap", <<m, 1, 3>>, 0)>>, 4)
RatCycle(rat) == Cycle("rat/" \o rat, <<I("rat", <<rat>>, 1), I("dom", <<1>>, 2), I("gen", <<2>>, 3), I("push", <<1, 3>>, 4), I("pull", <<1, 4>>, 3), I("cod", <<1>>, 2)>>, 4)
EdMapCycle(name, rat, z) == Cycle("map/ell2e/" \o name, <<Name(name), I("field", <<1>>, 2), MkElt(2, z, 3), I("rat", <<rat>>, 4), I("newmap", <<"ell2e", 1, 3, 4>>, 2), I("map", <<2, 3>>, 1)>>, 4)
IsoCycle(iso, name, z) == Cycle("map/ab0/" \o iso, <<I("iso", <<iso>>, 1), I("dom", <<1>>, 2), I("gen", <<2>>, 3), I("push", <<1, 3>>, 4), I("named", <<name>>, 2), I("field", <<2>>, 3), MkElt(3, z, 3), I("newmap", <<"ab0", 2, 3, 1>>, 4), I("map", <<4, 3>>, 4)>>, 4)
\* the same life cycle over and over, on other values each time (a table that
\* remembers what it has seen grows only with what it has not seen yet)
Family(us) == LET n == Len(us) IN [us[n] EXCEPT !.id = "family/" \o @] @@ [before |-> [i \in 1 .. (n - 1) |-> us[i].code]]
\* strings close to the encodings of a point; points that are not on the curve
Refusals(c, P, v) ==
  LET e == Encode(c, P, TRUE) u == Encode(c, P, FALSE) at == IF c.kind = "e" THEN 1 ELSE Len(e)
      D(x) == I("decode", <<1, x>>, 0) IN
  << >> \o [k \in 1 .. 6 |-> D([e EXCEPT ![at] = (@ + 3 * k + v) % 256])] \o [k \in 1 .. 2 |-> D([u EXCEPT ![Len(u)] = (@ + k + v) % 256])] \o
  <<D([e EXCEPT ![1] = (@ + 64 + v) % 256]), D(SubSeq(e, 1, Len(e) - 1 - (v % 3))), D(u \o <<v % 256>>), I("field", <<1>>, 2)>> \o
  Flat([k \in 1 .. 2 |-> <<MkElt(2, P.x, 3), MkElt(2, Plus(P.y, N(k + v)), 4), I("point", <<1, 3, 4>>, 0)>>]) \o
  <<I("sqrt", <<3>>, 0), I("neg", <<3>>, 3), I("sqrt", <<3>>, 0), I("isSquare", <<3>>, 0), I("drop", <<4>>, 0)>>
CurveLife(id, c, head, v) ==
  LET P == PtsFrom(c, Rnd(47000 + v, c.p), 1)[1] IN
  Cycle("curve/" \o id, <<head>> \o Refusals(c, P, v) \o <<I("decode", <<1, Encode(c, P, TRUE)>>, 2), I("scalar", <<1, Show(Rnd(47100 + v, c.r))>>, 3), I("mul", <<2, 3>>, 4), I("mul", <<3, 2>>, 0), I("add", <<4, 2>>, 0), I("eq", <<2, 4>>, 0),
     I("decode", <<1, [Encode(c, P, TRUE) EXCEPT ![1] = (@ + 7 + v) % 256]>>, 0), I("encode", <<4, TRUE>>, 0), I("onCurve", <<1, 4>>, 0), I("normalize", <<4>>, 0), I("neg", <<4>>, 2), I("inv", <<3>>, 3), I("bitsL", <<3>>, 0), I("field", <<1>>, 1), MkElt(1, Rnd(47200 + v, c.p), 1), I("sqrt", <<1>>, 1), I("drop", <<4>>, 0)>>, 3)
MapLife(id, m, c, z, head, v) ==
  Cycle("map/" \o m \o "/" \o id, <<head, I("field", <<1>>, 2), MkElt(2, z, 3), I("newmap", <<m, 1, 3>>, 4), MkElt(2, Rnd(47300 + v, c.p), 2), I("map", <<4, 2>>, 2)>>, 4)
RatLife(rat, v) ==
  LET e == RatDom(rat) m == RatCod(rat) IN
  Cycle("rat/" \o rat, <<I("rat", <<rat>>, 1), I("dom", <<1>>, 2), I("decode", <<2, Encode(e, PtsFrom(e, Rnd(47400 + v, e.p), 1)[1], TRUE)>>, 3), I("push", <<1, 3>>, 4), I("pull", <<1, 4>>, 3), I("cod", <<1>>, 2)>>, 4)
IsoLife(iso, v) ==
  LET c == NamedIso(iso).dom IN
  Cycle("iso/" \o iso, <<I("iso", <<iso>>, 1), I("dom", <<1>>, 2), I("decode", <<2, Encode(c, PtsFrom(c, Rnd(47500 + v, c.p), 1)[1], TRUE)>>, 3), I("push", <<1, 3>>, 4), I("cod", <<1>>, 2)>>, 4)
FieldLife(p, two, v) ==
  LET E(j) == IF two THEN MkElt2(1, QSqr(p, <<Rnd(47600 + v, p), Rnd(47700 + v, p)>>), j) ELSE MkElt(1, FSqr(p, Rnd(47800 + v, p)), j) IN
  Cycle((IF two THEN "fp2/" ELSE "fp/") \o PName(p), <<IF two THEN MkFp2(p, 1) ELSE MkFp(p, 1), E(2), I("sqrt", <<2>>, 3), I("isSquare", <<2>>, 0), I("inv", <<2>>, 0), I("powI", <<2, Show(Rnd(47900 + v, p))>>, 3), I("sqr", <<3>>, 3), I("tobe", <<3>>, 0), I("sgn0", <<3>>, 0)>>, 3)
Families(t) ==
  LET p3 == <<103, 107, 127, 131, 139, 151, 163, 167>>
      p5 == <<101, 109, 149, 157, 173, 181, 197, 229>>
      bs == SelectSeq(BigPrimes(0), HasRoots)
      qs == QPrimes(0)
      F(k, G(_, _)) == Family([i \in 1 .. k |-> G(i, 10 * k + i)])
      wk(v) == LET cs == WOdd(13) IN Gened(cs[1 + ((v * 7) % Len(cs))])
      ek(v) == LET cs == ECurves(13) IN Gened(cs[1 + ((v * 3) % Len(cs))])
      mk(v) == LET cs == MWithS(MCurves(13), 1) IN Gened(cs[1 + ((v * 5) % Len(cs))])
      ms(m) == LET cs == SelectSeq(WOdd(13), LAMBDA c : HasZ(m, c)) IN [i \in 1 .. 8 |-> Gened(cs[1 + ((i * 7) % Len(cs))])]
      zz(m, c) == N(CHOOSE z \in 0 .. (ToInt(c.p) - 1) : MapOk(m, c, N(z)))
  IN <<F(8, LAMBDA i, v : FieldLife(N(p3[i]), FALSE, v)), F(8, LAMBDA i, v : FieldLife(N(p5[i]), FALSE, v)), F(8, LAMBDA i, v : FieldLife(N(p3[i]), TRUE, v)),
       F(Len(bs), LAMBDA i, v : FieldLife(bs[i], FALSE, v)), F(Len(qs), LAMBDA i, v : FieldLife(qs[i], TRUE, v)),
       F(8, LAMBDA i, v : FieldLife(ModOf(5), FALSE, v)), F(8, LAMBDA i, v : FieldLife(ModOf(1), FALSE, v)), F(8, LAMBDA i, v : FieldLife(ModOf(1), TRUE, v)),
       F(8, LAMBDA i, v : Mixed(N(p3[i]), N(p5[i]))),
       F(8, LAMBDA i, v : CurveLife("w", wk(v), Toy(wk(v)), v)), F(8, LAMBDA i, v : CurveLife("e", ek(v), Toy(ek(v)), v)), F(8, LAMBDA i, v : CurveLife("m", mk(v), Toy(mk(v)), v))>> \o
     [k \in 1 .. NNamed |-> F(5, LAMBDA i, v : CurveLife(KN(k), Named(KN(k)), Name(KN(k)), v))] \o
     <<F(Len(StdPrimes(0)), LAMBDA i, v : CurveCycle(KN(i), Named(KN(i)), Name(KN(i))))>> \o
     (LET w == ms("sswu") x == ms("svdw") IN
      <<F(8, LAMBDA i, v : MapLife("toy", "sswu", w[i], zz("sswu", w[i]), Toy(w[i]), v)), F(8, LAMBDA i, v : MapLife("toy", "svdw", x[i], zz("svdw", x[i]), Toy(x[i]), v))>>) \o
     <<F(6, LAMBDA i, v : MapLife("P256", "sswu", Named("P256"), N(0 - 10), Name("P256"), v)), F(6, LAMBDA i, v : MapLife("P256", "svdw", Named("P256"), N(0 - 3), Name("P256"), v)),
       F(6, LAMBDA i, v : MapLife("CURVE25519", "ell2", Named("CURVE25519"), N(2), Name("CURVE25519"), v)),
       F(6, LAMBDA i, v : RatLife("25519", v)), F(5, LAMBDA i, v : RatLife("448", v)), F(6, LAMBDA i, v : IsoLife("secp256k1", v)), F(5, LAMBDA i, v : IsoLife("bls12381g1", v))>>
C26Suite(t) ==
  Families(0) \o
  Flat([i \in 1 .. 6 |-> LET p == N(<<7, 13, 11, 29, 5, 37>>[i]) IN <<FpCycle(p), FpCycle2(p), Mixed(p, N(19)), Mixed(p, p)>>]) \o
  Flat([i \in 1 .. 4 |-> LET p == N(<<7, 11, 3, 19>>[i]) IN <<Fp2Cycle(p), Fp2Cycle2(p)>>]) \o
  (LET ps == SelectSeq(BigPrimes(0), HasRoots) IN Flat([i \in 1 .. Len(ps) |-> <<FpCycle(ps[i]), FpCycle2(ps[i])>>])) \o
  (LET ps == QPrimes(0) IN Flat([i \in 1 .. Len(ps) |-> <<Fp2Cycle(ps[i]), Fp2Cycle2(ps[i])>>])) \o
  [i \in 1 .. NNamed |-> CurveCycle(KN(i), Named(KN(i)), Name(KN(i)))] \o
  (LET cs == Every(WOdd(11), 20, 0) \o Every(WOdd(13), 40, 0) \o MWithS(Every(MCurves(11), 20, 0), 1) \o Every(ECurves(11), 6, 0) \o Every(ECurves(13), 8, 0) IN
   [i \in 1 .. Len(cs) |-> LET c == Gened(cs[i]) IN CurveCycle(ToyId(c, i), c, Toy(c))]) \o
  <<MapCycle("P256", "sswu", Named("P256"), N(0 - 10), Name("P256")), MapCycle("P384", "sswu", Named("P384"), N(0 - 12), Name("P384")), MapCycle("P521", "sswu", Named("P521"), N(0 - 4), Name("P521")),
    MapCycle("P256", "svdw", Named("P256"), N(0 - 3), Name("P256")), MapCycle("BLS12381G1", "svdw", Named("BLS12381G1"), N(0 - 3), Name("BLS12381G1")), MapCycle("SECP256K1", "svdw", Named("SECP256K1"), N(1), Name("SECP256K1")),
    MapCycle("CURVE25519", "ell2", Named("CURVE25519"), N(2), Name("CURVE25519")), MapCycle("CURVE448", "ell2", Named("CURVE448"), N(0 - 1), Name("CURVE448")),
    RatCycle("25519"), RatCycle("448"), EdMapCycle("EDWARDS25519", "25519", Two), EdMapCycle("EDWARDS448", "448", N(0 - 1)), IsoCycle("secp256k1", "SECP256K1", N(0 - 11)), IsoCycle("bls12381g1", "BLS12381G1", N(11))>> \o
  Drops(Sample(C02Suite(0), 3000, 3) \o Sample(C03Suite(0), 1500, 1) \o Sample(C05Suite(0), 1200, Pick(2, 1)) \o Sample(C07Suite(0), 2500, 1) \o Sample(C08Suite(0), 1500, Pick(3, 1))
        \o Sample(C09Suite(0), 1200, Pick(12, 2)) \o Sample(C10Suite(0), 1200, Pick(16, 3)) \o Sample(C11Suite(0), 1200, Pick(8, 2)) \o Sample(C12Suite(0), 1500, Pick(9, 2))
        \o Sample(C13Suite(0), 1000, Pick(16, 3)) \o Sample(C14Suite(0), 1500, Pick(9, 2)) \o Sample(C16Suite(0), 1500, Pick(4, 1)) \o Sample(C18Suite(0), 1500, Pick(24, 4))
        \o Sample(C17Suite(0), 1500, Pick(20, 4)) \o Sample(C19Suite(0), 1500, Pick(12, 3)) \o Sample(C20Suite(0), 1500, Pick(6, 2)) \o Sample(C24Suite(0), 1500, Pick(40, 8)), 0)

(*-------------------------------- sessions -------------------------------*)
\* A session walks through the machine: every call is chosen from a hash of the
\* seed among those the registers allow; R is the abstract state so far (of an
\* undetermined root, some choice).
\* 1 2 curves (2 the codomain of the morphism, if any), 3 field, 4 morphism, 5 map, 6 z,
\* 7..11 elements, 12..14 scalars, 17..22 points of 1, 23..27 points of 2, 28 29 temporary
Guess(v) == CASE v.k = "npt" -> v.v
              [] v.k = "root" /\ v.x.k = "fp" -> VFp(v.x.p, FRootSgn(v.x.p, v.x.v, 1))
              [] v.k \in {"root", "any"} -> IF v.x.k = "fp" THEN VFp(v.x.p, Zero) ELSE VFp2(v.x.p, QZero)
              [] OTHER -> v
Advance(acc, ins) == [R |-> After(ins, Guess(Exec(ins, acc.R)), acc.R), code |-> Append(acc.code, ins)]
Run(acc, code) == FoldLeft(Advance, acc, code)

SessionCalls(s, i, R, K) ==
  LET h(j, m) == RndAt(s, 64 * i + j, m)
      b    == h(1, 4) = 0
      cv   == IF b THEN 2 ELSE 1
      c    == R[cv].c
      P(j) == IF b THEN 23 + h(j, 5) ELSE 17 + h(j, 6)
      E(j) == 7 + h(j, 5)
      S(j) == 12 + h(j, 3)
      A(j) == 17 + h(j, 6)                                \* on curve 1, with scalars
      IsP(r) == R[r].k = "pt"
      BadLit == IF ~IsP(P(3)) THEN <<0>> ELSE [Encode(c, R[P(3)].P, TRUE) EXCEPT ![1] = (@ + 8) % 256]
      op   == h(2, 80)
      Lit(j) == IF ~IsP(P(j)) THEN <<0>> ELSE
                LET e == Encode(c, R[P(j)].P, h(6, 2) = 0) n == Len(e) k == 1 + h(7, n) IN
                IF h(8, 4) > 0 THEN e ELSE IF h(9, 3) = 0 THEN [e EXCEPT ![1] = (@ + 1) % 256] ELSE [e EXCEPT ![k] = (@ + 128 * h(10, 2) + h(11, 3)) % 256]
  IN
  CASE op < 8  -> <<I("add", <<P(3), P(4)>>, P(5))>>
    [] op < 12 -> <<I("sub", <<P(3), P(4)>>, P(5))>>
    [] op = 12 -> <<I("neg", <<P(3)>>, P(5))>>
    [] op < 15 -> IF b THEN <<I("add", <<P(3), P(3)>>, P(5))>> ELSE <<I("mul", <<P(3), S(4)>>, P(5))>>
    [] op = 15 -> IF b THEN <<I("scalar", <<2, Show(Rnd(s + 97 * i, c.r))>>, 28), I("mul", <<28, P(3)>>, P(5))>> ELSE <<I("mul", <<S(4), P(3)>>, P(5))>>
    [] op < 18 -> <<I("normalize", <<P(3)>>, 0)>>
    [] op = 18 -> <<I("clone", <<P(3)>>, P(5))>>
    [] op = 19 -> <<I("encode", <<P(3), h(4, 2) = 0>>, 0)>>
    [] op < 23 -> IF K.roots THEN <<I("decode", <<cv, Lit(3)>>, P(5))>> ELSE <<I("gen", <<cv>>, P(5))>>
    [] op < 26 -> IF K.push THEN <<I("push", <<4, 17 + h(3, 6)>>, 23 + h(5, 5))>> ELSE <<I("clone", <<17 + h(3, 6)>>, 28), I("add", <<28, P(5)>>, 28), I("eq", <<28, P(5)>>, 0)>>
    [] op < 29 -> IF K.pull THEN <<I("pull", <<4, 23 + h(3, 5)>>, 17 + h(5, 6))>> ELSE <<I("eq", <<P(3), P(5)>>, 0)>>
    [] op < 33 -> IF K.map THEN <<I("map", <<5, E(3)>>, IF K.mapTo = 1 THEN 17 + h(5, 6) ELSE 23 + h(5, 5))>> ELSE <<I("onCurve", <<cv, P(3)>>, 0)>>
    [] op = 33 -> <<I("onCurve", <<cv, P(3)>>, 0), I("isZero", <<P(3)>>, 0)>>
    [] op = 34 -> <<I("eq", <<P(3), P(4)>>, 0)>>
    [] op = 35 -> IF c.kind = "m" THEN <<I("twoTorsion", <<P(3)>>, 0)>> ELSE <<I("read", <<P(3)>>, 0)>>
    [] op < 38 -> <<I("add", <<E(3), E(4)>>, E(5))>>
    [] op < 40 -> <<I("mul", <<E(3), E(4)>>, E(5))>>
    [] op = 40 -> <<I("sub", <<E(3), E(4)>>, E(5))>>
    [] op = 41 -> <<I("div", <<E(3), E(4)>>, E(5))>>
    [] op = 42 -> <<I(<<"neg", "sqr", "inv">>[1 + h(6, 3)], <<E(3)>>, E(5))>>
    [] op < 45 -> IF K.roots THEN <<I("isSquare", <<E(3)>>, 0), I("sqrt", <<E(3)>>, E(5))>> ELSE <<I("isSquare", <<E(3)>>, 0)>>
    [] op = 45 -> <<I("elt", <<3, Show(Minus(Rnd(s + 31 * i, Times(c.p, N(3))), c.p))>>, E(5))>>
    [] op = 46 -> <<I("powI", <<E(3), Show(Minus(Rnd(s + 37 * i, Times(c.p, Two)), c.p))>>, E(5))>>
    [] op = 47 -> IF R[E(3)].k = "fp" THEN <<I("tobe", <<E(3)>>, 0), I("frombe", <<3, FToBE(c.p, R[E(3)].v)>>, E(5)), I("eq", <<E(3), E(5)>>, 0)>> ELSE <<I("zero", <<3>>, E(5))>>
    [] op = 48 -> <<I("sgn0", <<E(3)>>, 0), I("cmov", <<E(3), E(4), h(6, 2) = 0>>, E(5))>>
    [] op = 49 -> <<I(<<"add", "sub", "mul", "div">>[1 + h(6, 4)], <<S(3), S(4)>>, S(5))>>
    [] op = 50 -> <<I(<<"neg", "inv">>[1 + h(6, 2)], <<S(3)>>, S(5)), I("bitsL", <<S(5)>>, 0)>>
    [] op = 51 -> <<I("scalar", <<1, Show(Minus(Rnd(s + 41 * i, Times(R[1].c.r, Two)), R[1].c.r))>>, S(5))>>
    [] op < 54 -> IF IsP(P(3)) /\ ~R[P(3)].P.inf
                  THEN <<MkElt(3, R[P(3)].P.x, 28), MkElt(3, IF h(6, 6) = 0 THEN FAdd(c.p, R[P(3)].P.y, One) ELSE R[P(3)].P.y, 29), I("point", <<cv, 28, 29>>, P(5))>>
                  ELSE <<I("identity", <<cv>>, P(5))>>
    [] op = 54 -> <<I("gen", <<cv>>, P(5)), I("identity", <<cv>>, P(4))>>
    [] op = 55 -> <<I("drop", <<P(3)>>, 0), I("gen", <<cv>>, P(3))>>
    [] op = 56 -> <<I("clone", <<1>>, 28), I("clone", <<28>>, 1), I("eq", <<1, 28>>, 0)>>
    [] op = 57 -> <<I("setZero", <<E(3)>>, 0), I("isZero", <<E(3)>>, 0), I("setOne", <<E(4)>>, 0)>>
    [] op = 58 -> <<I("read", <<P(3)>>, 0), I("read", <<E(3)>>, 0)>>
    [] op = 59 -> <<I("add", <<P(3), P(4)>>, P(4)), I("add", <<P(4), P(3)>>, P(3))>>
    \* closely related calls, one right after the other
    [] op < 62 -> IF b THEN <<I("add", <<P(3), P(3)>>, 28), I("neg", <<P(3)>>, 29), I("add", <<29, 29>>, 29), I("add", <<28, 29>>, P(5))>>
                  ELSE <<I("mul", <<P(3), S(4)>>, 28), I("neg", <<P(3)>>, 29), I("mul", <<29, S(4)>>, 29), I("add", <<28, 29>>, 30), I("isZero", <<30>>, 0), I("clone", <<29>>, P(5))>>
    [] op = 62 -> IF b THEN <<I("sub", <<P(3), P(4)>>, 28), I("sub", <<P(4), P(3)>>, 29), I("add", <<28, 29>>, 30), I("isZero", <<30>>, 0)>>
                  ELSE <<I("mul", <<S(4), P(3)>>, 28), I("add", <<P(3), P(5)>>, 29), I("mul", <<S(4), 29>>, 29), I("sub", <<29, 28>>, 30), I("mul", <<P(5), S(4)>>, 31), I("eq", <<30, 31>>, 0), I("clone", <<30>>, P(5))>>
    [] op = 63 -> IF b THEN <<I("eq", <<P(3), P(4)>>, 0), I("eq", <<P(4), P(3)>>, 0)>>
                  ELSE <<I("mul", <<P(3), S(4)>>, 28), I("neg", <<S(4)>>, 29), I("mul", <<P(3), 29>>, 30), I("neg", <<30>>, 30), I("eq", <<28, 30>>, 0), I("mul", <<P(3), S(4)>>, 30), I("eq", <<28, 30>>, 0)>>
    [] op = 64 -> IF K.map THEN <<I("map", <<5, E(3)>>, 28), I("neg", <<E(3)>>, 29), I("map", <<5, 29>>, 30), I("eq", <<28, 30>>, 0), I("map", <<5, E(3)>>, 30), I("eq", <<28, 30>>, 0)>>
                  ELSE <<I("neg", <<P(3)>>, 28), I("encode", <<P(3), TRUE>>, 0), I("encode", <<28, TRUE>>, 0), I("eq", <<28, P(3)>>, 0)>>
    [] op = 65 -> IF K.roots /\ IsP(P(3)) THEN LET e == Encode(c, R[P(3)].P, TRUE) IN <<I("decode", <<cv, e>>, 28), I("decode", <<cv, [e EXCEPT ![IF c.kind = "e" THEN Len(e) ELSE 1] = IF c.kind = "e" THEN (@ + 128) % 256 ELSE IF @ = 0 THEN 0 ELSE 5 - @]>>, 29), I("decode", <<cv, e>>, 30), I("eq", <<28, 30>>, 0)>>
                  ELSE <<I("sgn0", <<E(3)>>, 0), I("neg", <<E(3)>>, E(5)), I("sgn0", <<E(5)>>, 0)>>
    [] op = 66 -> IF K.push THEN <<I("push", <<4, 17 + h(3, 6)>>, 28), I("neg", <<17 + h(3, 6)>>, 29), I("push", <<4, 29>>, 30), I("add", <<28, 30>>, 30), I("isZero", <<30>>, 0)>>
                  ELSE <<I("inv", <<E(3)>>, 28), I("neg", <<E(3)>>, 29), I("inv", <<29>>, 30), I("add", <<28, 30>>, 30), I("isZero", <<30>>, 0)>>
    [] op = 67 -> IF K.pull THEN <<I("pull", <<4, 23 + h(3, 5)>>, 28), I("neg", <<23 + h(3, 5)>>, 29), I("pull", <<4, 29>>, 30), I("add", <<28, 30>>, 30), I("isZero", <<30>>, 0)>>
                  ELSE <<I("inv", <<S(3)>>, 28), I("neg", <<S(3)>>, 29), I("inv", <<29>>, 30), I("add", <<28, 30>>, 30), I("bitsL", <<30>>, 0)>>
    [] op = 68 -> IF K.roots THEN <<I("sqr", <<E(3)>>, 28), I("sqrt", <<28>>, 29), I("neg", <<E(3)>>, 30), I("sqr", <<30>>, 30), I("sqrt", <<30>>, 31), I("neg", <<28>>, 28), I("sqrt", <<28>>, 28), I("clone", <<29>>, E(5))>>
                  ELSE <<I("div", <<E(3), E(4)>>, 28), I("div", <<E(4), E(3)>>, 29), I("mul", <<28, 29>>, E(5))>>
    [] op = 69 -> <<I("clone", <<P(3)>>, 28), I("normalize", <<28>>, 0), I("eq", <<28, P(3)>>, 0), I("add", <<28, P(4)>>, 29), I("add", <<P(3), P(4)>>, 30), I("eq", <<29, 30>>, 0), I("encode", <<28, TRUE>>, 0), I("encode", <<P(3), TRUE>>, 0)>>
    \* calls that are refused, and the like of them that are not right after
    [] op < 72 -> <<I("mul", <<A(3), 34>>, 0), I("mul", <<A(3), S(4)>>, A(5))>>
    [] op = 72 -> <<I("mul", <<34, A(3)>>, 0), I("mul", <<S(4), A(3)>>, 28), I("mul", <<35, S(4)>>, 0), I("mul", <<A(3), S(4)>>, 29), I("eq", <<28, 29>>, 0)>>
    [] op < 75 -> <<I("add", <<A(3), 35>>, 0), I("add", <<A(3), A(4)>>, A(5)), I("eq", <<A(3), 35>>, 0), I("sub", <<35, A(4)>>, 0), I("sub", <<A(3), A(4)>>, 28), I("eq", <<28, A(5)>>, 0)>>
    [] op = 75 -> <<I(<<"add", "sub", "mul", "div">>[1 + h(6, 4)], <<E(3), 37>>, 0), I(<<"add", "sub", "mul", "div">>[1 + h(6, 4)], <<E(3), E(4)>>, E(5)), I(<<"add", "sub", "mul", "div">>[1 + h(7, 4)], <<37, E(5)>>, 0), I("sqr", <<E(5)>>, E(4))>>
    [] op = 76 -> <<I(<<"add", "sub", "mul", "div">>[1 + h(6, 4)], <<S(3), 34>>, 0), I(<<"add", "sub", "mul", "div">>[1 + h(6, 4)], <<S(3), S(4)>>, S(5)), I(<<"add", "sub", "mul", "div">>[1 + h(7, 4)], <<34, S(5)>>, 0), I("bitsL", <<S(5)>>, 0), I("mul", <<A(3), S(5)>>, A(4))>>
    [] op = 77 -> IF K.roots THEN <<I("decode", <<cv, BadLit>>, 0), I("decode", <<cv, Lit(3)>>, P(5)), I("decode", <<cv, <<2>> >>, 0), I("mul", <<A(3), S(4)>>, A(5))>>
                  ELSE <<I("eq", <<A(3), 35>>, 0), I("eq", <<35, A(3)>>, 0)>>
    [] op = 78 -> IF IsP(A(3)) /\ ~R[A(3)].P.inf
                  THEN <<MkElt(3, R[A(3)].P.x, 28), MkElt(3, R[A(3)].P.y, 29), I("point", <<1, 37, 29>>, 0), I("point", <<1, 28, 37>>, 0), I("point", <<1, 28, 28>>, 0), I("point", <<1, 28, 29>>, 30), I("eq", <<30, A(3)>>, 0), I("mul", <<30, S(4)>>, A(5))>>
                  ELSE <<I("onCurve", <<1, A(3)>>, 0), I("add", <<A(3), 35>>, 0), I("mul", <<A(3), S(4)>>, A(5))>>
    [] OTHER   -> (IF K.map THEN <<I("map", <<5, 37>>, 0), I("map", <<5, E(3)>>, 28)>> ELSE << >>) \o
                  (IF K.push /\ R[4].k = "iso" /\ R[4].how = "table" THEN << >> ELSE IF K.push THEN <<I("push", <<4, 35>>, 0), I("push", <<4, A(3)>>, 29)>> ELSE << >>) \o <<I("mul", <<A(3), 34>>, 0), I("mul", <<S(4), A(3)>>, A(5))>>

\* of another group: 33 curve, 34 scalar, 35 point, 36 field, 37 element
Foreign(c) == CASE c.kind = "w" -> IF c.p = ModOf(1) THEN "SECP256K1" ELSE "P256"
                [] c.kind = "m" -> IF c.p = Named("CURVE448").p THEN "CURVE25519" ELSE "CURVE448"
                [] OTHER        -> IF c.p = Named("EDWARDS25519").p THEN "EDWARDS448" ELSE "EDWARDS25519"
SessionHead(K, s) ==
  LET c == K.c f == Foreign(c) IN
  <<I("named", <<f>>, 33), I("scalar", <<33, Show(Rnd(s * 41 + 53000, Named(f).r))>>, 34), I("gen", <<33>>, 35), I("field", <<33>>, 36), MkElt(36, Two, 37)>> \o
  K.head \o <<MkFp(c.p, 3)>> \o K.extra \o
  [i \in 1 .. 5 |-> MkElt(3, CASE i = 1 -> Zero [] i = 2 -> One [] OTHER -> Rnd(s * 31 + 50000 + i, c.p), 6 + i)] \o
  [i \in 1 .. 3 |-> I("scalar", <<1, Show(CASE i = 1 -> Two [] OTHER -> Rnd(s * 37 + 51000 + i, c.r))>>, 11 + i)] \o
  [i \in 1 .. 6 |-> I(IF i = 1 THEN "identity" ELSE "gen", <<1>>, 16 + i)] \o
  [i \in 1 .. 5 |-> I(IF i = 1 THEN "identity" ELSE "gen", <<2>>, 22 + i)]
Session(id, K, s, steps) ==
  LET R0  == [i \in 1 .. 40 |-> VNone]
      acc == FoldLeft(LAMBDA a, i : Run(a, SessionCalls(s, i, a.R, K)), Run([R |-> R0, code |-> << >>], SessionHead(K, s)), [i \in 1 .. steps |-> i])
      one == acc.code \o Read(7, 14) \o Read(17, 27)
  IN Unit("session/" \o id \o "/" \o ToString(s), one \o one)
\* what a session has at hand
PlainK(c, c2, h1, h2) == [c |-> c, head |-> <<[h1 EXCEPT !.d = 1], [h2 EXCEPT !.d = 2]>>, extra |-> << >>, push |-> FALSE, pull |-> FALSE, map |-> FALSE, mapTo |-> 1, roots |-> HasRoots(c.p)]
MapK(K, m, z) == [K EXCEPT !.extra = <<MkElt(3, z, 6), I("newmap", <<m, 1, 6>>, 5)>>, !.map = TRUE]
IsoK(iso, z) ==
  LET i == NamedIso(iso) IN
  [c |-> i.dom, head |-> <<I("iso", <<iso>>, 4), I("dom", <<4>>, 1), I("cod", <<4>>, 2)>>, extra |-> <<MkElt(3, z, 6), I("newmap", <<"ab0", 2, 6, 4>>, 5)>>,
   push |-> TRUE, pull |-> FALSE, map |-> TRUE, mapTo |-> 2, roots |-> TRUE]
RatK(rat, z, m) ==
  [c |-> RatDom(rat), head |-> <<I("rat", <<rat>>, 4), I("dom", <<4>>, 1), I("cod", <<4>>, 2)>>,
   extra |-> <<MkElt(3, z, 6), IF m = 1 THEN I("newmap", <<"ell2e", 1, 6, 4>>, 5) ELSE I("newmap", <<"ell2", 2, 6>>, 5)>>,
   push |-> TRUE, pull |-> TRUE, map |-> TRUE, mapTo |-> m, roots |-> TRUE]
TabK(v) == [PlainK(Gened(v.dom), Gened(v.cod), MkCurve(Gened(v.dom), 1), MkCurve(Gened(v.cod), 2)) EXCEPT
              !.extra = <<I("isotab", <<1, 2, VTab(v.dom, v.T)>>, 4)>>, !.push = TRUE]
ToyK(c0) == LET c == Gened(c0) IN PlainK(c, c, MkCurve(c, 1), MkCurve(c, 2))
ToyMapK(m, c0) == LET c == Gened(c0) IN MapK(ToyK(c0), m, N(CHOOSE z \in 0 .. (ToInt(c.p) - 1) : MapOk(m, c, N(z))))
NamedK(name) == LET c == Named(name) IN PlainK(c, c, Name(name), Name(name))
Sessions(id, Ks, n, steps, s0) == Flat([k \in 1 .. Len(Ks) |-> [j \in 1 .. n |-> Session(id \o ToString(k), Ks[k], s0 + 100 * k + j, steps)]])

\* straight-line computations in fields: 1 field, 2..9 elements
FieldCalls(s, i, R, two) ==
  LET h(j, m) == RndAt(s, 64 * i + j, m)
      E(j) == 2 + h(j, 8)
      p    == R[1].p
      op   == h(2, 38)
      ok   == two \/ HasRoots(p)
  IN CASE op < 5 -> <<I("add", <<E(3), E(4)>>, E(5))>>
       [] op < 8 -> <<I("sub", <<E(3), E(4)>>, E(5))>>
       [] op < 13 -> <<I("mul", <<E(3), E(4)>>, E(5))>>
       [] op < 15 -> <<I("div", <<E(3), E(4)>>, E(5))>>
       [] op = 15 -> <<I("neg", <<E(3)>>, E(5))>>
       [] op = 16 -> <<I("inv", <<E(3)>>, E(5))>>
       [] op < 19 -> <<I("sqr", <<E(3)>>, E(5))>>
       [] op < 22 -> <<I("isSquare", <<E(3)>>, 0)>> \o (IF ok THEN <<I("sqrt", <<E(3)>>, E(5))>> ELSE << >>)
       [] op = 22 -> <<I("sqr", <<E(3)>>, E(3))>> \o (IF ok THEN <<I("sqrt", <<E(3)>>, E(5)), I("isSquare", <<E(3)>>, 0)>> ELSE << >>)
       [] op = 23 -> <<I("powI", <<E(3), Show(Minus(Rnd(s + 37 * i, Times(p, N(4))), Times(p, Two)))>>, E(5))>>
       [] op = 24 -> <<I("powU", <<E(3), Show(Rnd(s + 39 * i, Times(p, p)))>>, E(5))>>
       [] op = 25 -> <<I("cmov", <<E(3), E(4), h(6, 2) = 0>>, E(5)), I("sgn0", <<E(3)>>, 0), I("eq", <<E(3), E(4)>>, 0)>>
       [] op = 26 -> <<I("clone", <<1>>, 10), I("elt", <<10, Show(Minus(Rnd(s + 41 * i, Times(p, Two)), p))>>, E(5)), I("isOne", <<E(5)>>, 0)>>
       [] op = 27 -> <<I("tobe", <<E(3)>>, 0), I("tole", <<E(3)>>, 0), I("isZero", <<E(3)>>, 0)>>
       [] op = 28 -> <<I("xorU", <<E(3), 2>>, E(5)), I("xorI", <<E(3), 0 - 1>>, E(4)), I("divU", <<E(4), 1>>, E(3))>>
       [] op = 29 -> <<I("neg", <<E(3)>>, 10), I("inv", <<E(3)>>, 11), I("inv", <<10>>, 12), I("add", <<11, 12>>, 12), I("isZero", <<12>>, 0), I("inv", <<E(3)>>, 12), I("eq", <<11, 12>>, 0)>>
       [] op = 30 -> <<I("powU", <<E(3), Show(Rnd(s + 43 * i, Times(p, p)))>>, 10), I("neg", <<E(3)>>, 11), I("powU", <<11, Show(Rnd(s + 43 * i, Times(p, p)))>>, 12), I("mul", <<10, 12>>, E(5))>>
       [] op = 31 -> <<I("powI", <<E(3), Show(Rnd(s + 47 * i, p))>>, 10), I("powI", <<E(3), Show(Minus(Zero, Rnd(s + 47 * i, p)))>>, 11), I("mul", <<10, 11>>, 12), I("isOne", <<12>>, 0)>>
       [] op = 32 -> IF ok THEN <<I("sqr", <<E(3)>>, 10), I("sqrt", <<10>>, 11), I("neg", <<10>>, 10), I("isSquare", <<10>>, 0), I("sqrt", <<10>>, 12), I("neg", <<10>>, 10), I("isSquare", <<10>>, 0), I("sqrt", <<10>>, 12), I("eq", <<11, 12>>, 0)>>
                     ELSE <<I("neg", <<E(3)>>, 10), I("isSquare", <<E(3)>>, 0), I("isSquare", <<10>>, 0)>>
       [] op = 33 -> <<I("mul", <<E(3), E(4)>>, 10), I("neg", <<E(3)>>, 11), I("mul", <<11, E(4)>>, 12), I("add", <<10, 12>>, 12), I("isZero", <<12>>, 0), I("tobe", <<10>>, 0)>>
       [] op < 36 -> <<I(<<"add", "sub", "mul", "div">>[1 + h(6, 4)], <<E(3), 14>>, 0), I(<<"add", "sub", "mul", "div">>[1 + h(7, 4)], <<E(3), E(4)>>, E(5)), I(<<"add", "sub", "mul", "div">>[1 + h(8, 4)], <<14, E(5)>>, 0), I("sqr", <<E(5)>>, E(4))>>
       [] op = 36 -> <<I("eq", <<E(3), 14>>, 0), I("eq", <<1, 13>>, 0), I("eq", <<E(3), E(4)>>, 0), I("frombe", <<1, <<1>> >>, 0), I("frombe", <<1, << >> >>, 0), I("tobe", <<E(4)>>, 0), I("xorU", <<E(3), 3>>, 0), I("xorU", <<E(3), 2>>, E(5)), I("divU", <<E(4), 7>>, 0), I("divU", <<E(4), 1>>, E(3))>>
       [] OTHER -> <<I("setOne", <<E(3)>>, 0), I("setZero", <<E(4)>>, 0), I("frombe", <<1, [k \in 1 .. (IF two THEN QSize(p) ELSE FSize(p)) |-> RndAt(s, 1000000 + 1000 * i + k, 256)]>>, E(5))>>
\* another field in f, an element of it in f+1
ForeignElt(p, two, f) ==
  LET q == IF BitLen(p) < 64 THEN ModOf(1) ELSE N(19) IN
  IF two THEN <<MkFp2(q, f), MkElt2(f, <<Two, N(3)>>, f + 1)>> ELSE <<MkFp(q, f), MkElt(f, Two, f + 1)>>
FieldSession(id, p, two, s, steps) ==
  LET R0   == [i \in 1 .. 14 |-> VNone]
      head == <<IF two THEN MkFp2(p, 1) ELSE MkFp(p, 1)>> \o ForeignElt(p, two, 13) \o
              [i \in 1 .. 8 |-> IF two THEN MkElt2(1, <<Rnd(s * 11 + 52000 + i, p), Rnd(s * 11 + 52100 + i, p)>>, 1 + i) ELSE MkElt(1, Rnd(s * 11 + 52000 + i, p), 1 + i)]
      acc  == FoldLeft(LAMBDA a, i : Run(a, FieldCalls(s, i, a.R, two)), Run([R |-> R0, code |-> << >>], head), [i \in 1 .. steps |-> i])
      one  == acc.code \o Read(2, 9)
  IN Unit("session/" \o id \o "/" \o PName(p) \o "/" \o ToString(s), one \o one)
ToyMaps(m, cs, k) == LET ds == SelectSeq(cs, LAMBDA c : HasZ(m, c) /\ (c.kind = "w" => OddOrder(c))) IN LET es == Every(ds, k, 1) IN [i \in 1 .. Len(es) |-> ToyMapK(m, es[i])]
SessKs(t) == <<MapK(NamedK("P256"), "sswu", N(0 - 10)), MapK(NamedK("P384"), "sswu", N(0 - 12)), MapK(NamedK("P521"), "sswu", N(0 - 4)), MapK(NamedK("SECP256K1"), "svdw", One),
   MapK(NamedK("BLS12381G1"), "svdw", N(0 - 3)), MapK(NamedK("CURVE25519"), "ell2", Two), MapK(NamedK("CURVE448"), "ell2", N(0 - 1)), NamedK("EDWARDS25519"), NamedK("EDWARDS448"),
   IsoK("secp256k1", N(0 - 11)), IsoK("bls12381g1", N(11)), RatK("25519", Two, 1), RatK("448", N(0 - 1), 1), RatK("25519", Two, 2), RatK("448", N(0 - 1), 2)>>
C27Suite(t) ==
  Sessions("w", LET cs == Every(WOdd(5), 3, 0) \o Every(WOdd(7), 4, 1) \o Every(WOdd(11), 12, 2) \o Every(WOdd(13), 24, 0) \o Every(WOdd(17), 60, 0) IN [i \in 1 .. Len(cs) |-> ToyK(cs[i])], Pick(2, 12), 60, 1000000) \o
  Sessions("wm", ToyMaps("sswu", WCurves(11), Pick(20, 5)) \o ToyMaps("svdw", WCurves(11), Pick(20, 5)) \o ToyMaps("sswu", WCurves(7), 5) \o ToyMaps("svdw", WCurves(13), Pick(40, 10)), Pick(1, 6), 60, 2000000) \o
  Sessions("m", LET cs == MWithS(MCurves(5), 1) \o MWithS(Every(MCurves(7), 3, 0), 1) \o MWithS(Every(MCurves(11), 10, 0), 1) \o MWithS(Every(MCurves(13), 20, 0), 1) IN [i \in 1 .. Len(cs) |-> ToyK(cs[i])], Pick(1, 8), 60, 3000000) \o
  Sessions("mm", ToyMaps("ell2", MWithS(MCurves(11), 1), Pick(16, 4)) \o ToyMaps("ell2", MWithS(MCurves(7), 1), 6), Pick(1, 6), 60, 4000000) \o
  Sessions("e", LET cs == ECurves(5) \o Every(ECurves(7), 2, 0) \o Every(ECurves(11), 5, 0) \o Every(ECurves(13), 6, 0) \o Every(ECurves(17), 16, 0) IN [i \in 1 .. Len(cs) |-> ToyK(cs[i])], Pick(2, 10), 60, 5000000) \o
  Sessions("wi", LET vs == VeluAll(Every(WOdd(11), 4, 0), 3) \o VeluAll(Every(WOdd(13), 6, 0), 3) \o VeluAll(Every(WOdd(11), 4, 1), 5) IN [i \in 1 .. Len(vs) |-> TabK(vs[i])], Pick(1, 4), 60, 6000000) \o
  Sessions("n", SessKs(0), Pick(2, 12), Pick(50, 80), 7000000) \o
  Flat([i \in 1 .. 9 |-> [j \in 1 .. Pick(3, 20) |-> FieldSession("fp", N(<<3, 5, 7, 11, 13, 17, 29, 251, 65521>>[i]), FALSE, 8000000 + 100 * i + j, 100)]]) \o
  [i \in 1 .. Len(BigPrimes(0)) |-> FieldSession("fp", BigPrimes(0)[i], FALSE, 8100000 + i, Pick(60, 300))] \o
  Flat([i \in 1 .. 5 |-> [j \in 1 .. Pick(3, 20) |-> FieldSession("fp2", N(<<3, 7, 11, 19, 251>>[i]), TRUE, 8200000 + 100 * i + j, 100)]]) \o
  [i \in 1 .. Len(QPrimes(0)) |-> FieldSession("fp2", QPrimes(0)[i], TRUE, 8300000 + i, Pick(50, 300))]
=============================================================================
