------------------------------- MODULE MC_Impl ------------------------------
(***************************************************************************)
(* The algorithms the library documents, on its representations, refine    *)
(* the abstract model: complete projective addition (Renes-Costello-Batina *)
(* algorithms 1 and 3 on curves of odd order, the Montgomery form with an  *)
(* admissible constant s, extended Edwards coordinates), and left-to-right *)
(* double-and-add as a step machine whose accumulator is always the        *)
(* multiple by the bits consumed so far (C09-C13).                         *)
(***************************************************************************)
EXTENDS Toys
LOCAL INSTANCE Integers
LOCAL INSTANCE FiniteSets
CONSTANTS Primes, MaxK
VARIABLES c, P, Q, z1, z2, k, bits, acc, val, st
vars == <<c, P, Q, z1, z2, k, bits, acc, val, st>>

Eligible(p) == {w \in WeierstrassOver(p) : Order(w) % 2 = 1} \cup EdwardsOver(p) \cup
               UNION {{[m EXCEPT !.s = s] : s \in {x \in F(p) : \A X \in PtSet(m) : X.y # x \/ X.inf}} : m \in MontgomeryOver(p)}
Rep(X, z) == IF X.inf THEN [x |-> 0, y |-> z, z |-> 0, t |-> 0]
             ELSE [x |-> FMul(c.p, X.x, z), y |-> FMul(c.p, X.y, z), z |-> z, t |-> FMul(c.p, FMul(c.p, X.x, X.y), z)]
p == c.p
M(a, b) == FMul(p, a, b)
A(a, b) == FAdd(p, a, b)
S(a, b) == FSub(p, a, b)
XYZ(x, y, z) == [x |-> x, y |-> y, z |-> z, t |-> 0]

AddW(o, q) ==
  LET b3 == FRed(p, 3 * c.b)
      xx == M(o.x, q.x) yy == M(o.y, q.y) zz == M(o.z, q.z)
      t3 == S(M(A(o.x, o.y), A(q.x, q.y)), A(xx, yy))
      t4 == S(M(A(o.x, o.z), A(q.x, q.z)), A(xx, zz))
      t5 == S(M(A(o.y, o.z), A(q.y, q.z)), A(yy, zz))
      w  == A(M(c.a, t4), M(b3, zz))
      x3 == S(yy, w) z3 == A(yy, w)
      t1 == A(3 * xx, M(c.a, zz))
      t4b == A(M(b3, t4), M(c.a, S(xx, M(c.a, zz))))
  IN XYZ(S(M(t3, x3), M(t5, t4b)), A(M(x3, z3), M(t1, t4b)), A(M(t5, z3), M(t3, t1)))
DblW(o) ==
  LET b3 == FRed(p, 3 * c.b)
      t0 == M(o.x, o.x) t1 == M(o.y, o.y) t2 == M(o.z, o.z)
      t3 == 2 * M(o.x, o.y) xz == 2 * M(o.x, o.z)
      w  == A(M(c.a, xz), M(b3, t2))
      x3 == S(t1, w) y3 == M(x3, A(t1, w))
      t2a == M(c.a, t2)
      t3b == A(M(c.a, S(t0, t2a)), M(b3, xz))
      t0b == M(A(3 * t0, t2a), t3b)
      yz == 2 * M(o.y, o.z)
  IN XYZ(S(M(t3, x3), M(yz, t3b)), A(y3, t0b), FRed(p, 4 * M(yz, t1)))
AddM(o, q) ==
  LET sb == M(c.b, c.s)
      t0 == M(o.x, q.x) t1 == M(c.b, M(o.y, q.y)) t2 == M(o.z, q.z)
      t3 == M(o.x, q.y) t4 == M(q.x, o.y) t5 == M(o.y, q.z) t6 == M(q.y, o.z) t7 == M(o.x, q.z) t8 == M(q.x, o.z)
      t9 == A(t7, t8)
      ta == A(t9, M(t0, c.a))
      rr == A(t5, t6) tt == S(ta, t1)
      vv == A(M(t9, c.a), 3 * t0 + t2)
      ss == A(M(S(t3, t4), sb), t0 - t2)
      uu == S(M(S(t7, t8), c.s), t3 + t4)
      ww == A(M(S(t5, t6), sb), ta + t1)
  IN XYZ(M(S(M(rr, ss), M(tt, uu)), c.b), S(M(tt, ww), M(vv, ss)), M(S(M(vv, uu), M(rr, ww)), c.b))
AddE(o, q) ==
  LET aa == M(o.x, q.x) bb == M(o.y, q.y) cc == M(c.d, M(o.t, q.t)) dd == M(o.z, q.z)
      ee == S(M(A(o.x, o.y), A(q.x, q.y)), A(aa, bb))
      ff == S(dd, cc) gg == A(dd, cc) hh == S(bb, M(c.a, aa))
  IN [x |-> M(ee, ff), y |-> M(gg, hh), t |-> M(ee, hh), z |-> M(ff, gg)]
AddR(o, q) == CASE c.kind = "w" -> AddW(o, q) [] c.kind = "m" -> AddM(o, q) [] c.kind = "e" -> AddE(o, q)
DblR(o) == IF c.kind = "w" THEN DblW(o) ELSE AddR(o, o)
NegR(o) == CASE c.kind = "e" -> [o EXCEPT !.x = FNeg(p, o.x), !.t = FNeg(p, o.t)] [] OTHER -> [o EXCEPT !.y = FNeg(p, o.y)]
EqR(o, q) == M(o.x, q.z) = M(o.z, q.x) /\ M(o.y, q.z) = M(o.z, q.y) /\ (c.kind = "e" => M(o.t, q.z) = M(o.z, q.t))

Init == /\ \E q \in Primes : c \in Eligible(q)
        /\ P \in PtSet(c) /\ Q = Id(c) /\ z1 = 1 /\ z2 = 1
        /\ k = 0 /\ bits = << >> /\ acc = Rep(Id(c), 1) /\ val = 0 /\ st = "start"
\* two representatives
Choose2 == /\ st = "start" /\ st' = "pair"
           /\ Q' \in PtSet(c) /\ z1' \in 1 .. p - 1 /\ z2' \in 1 .. p - 1
           /\ UNCHANGED <<c, P, k, bits, acc, val>>
\* a scalar multiplication, bit by bit
Begin == /\ st = "start" /\ st' = "mul"
         /\ k' \in 0 .. MaxK /\ bits' = BitsMSB(k') /\ z1' \in {1, p - 1}
         /\ UNCHANGED <<c, P, Q, z2, acc, val>>
Bit1 == /\ st = "mul" /\ bits # << >>
        /\ LET d == DblR(acc) IN acc' = IF Head(bits) = 1 THEN AddR(d, Rep(P, z1)) ELSE d
        /\ val' = 2 * val + Head(bits)
        /\ bits' = Tail(bits)
        /\ UNCHANGED <<c, P, Q, z1, z2, k, st>>
Finish == st = "mul" /\ bits = << >> /\ st' = "done" /\ UNCHANGED <<c, P, Q, z1, z2, k, bits, acc, val>>
Next == Choose2 \/ Begin \/ Bit1 \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Bit1) /\ WF_vars(Finish)

AddRefines == st = "pair" =>
  LET o == AddR(Rep(P, z1), Rep(Q, z2)) IN ValidRep(c, o) /\ Represents(c, o, Add(c, P, Q))
DblRefines == st = "pair" => Represents(c, DblR(Rep(P, z1)), Add(c, P, P))
NegRefines == st = "pair" => Represents(c, NegR(Rep(P, z1)), Neg(c, P))
EqRefines  == st = "pair" => EqR(Rep(P, z1), Rep(Q, z2)) = (P = Q)
Accumulator == st \in {"mul", "done"} => ValidRep(c, acc) /\ Represents(c, acc, NTimes(c, val, P))
Result == st = "done" => val = k /\ AbsOf(c, acc) = Mul(c, k, P)
Terminates == (st = "mul") ~> (st = "done")
=============================================================================
