------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* The arbitrary-precision operators of java/redox against the definitions *)
(* of Num.tla.  Run twice: MODE=write evaluates the definitions (no        *)
(* overrides) and writes the table of results; MODE=check, with the        *)
(* overrides, reads the table and compares.  The identities below also     *)
(* hold for numbers no table can contain; they are checked on large ones   *)
(* in MODE=check.                                                          *)
(***************************************************************************)
EXTENDS Num, Sequences, Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE IOUtils
LOCAL INSTANCE Json
LOCAL INSTANCE TLC

Primes == <<2, 3, 5, 7, 11, 13, 17, 19, 23>>
A(i) == i - 31                                   \* i in 1..61: -30 .. 30
Row(f(_, _), n, m) == [i \in 1 .. n |-> [j \in 1 .. m |-> f(i, j)]]
B01(b) == IF b THEN "1" ELSE "0"
ShowSeq(s) == FoldLeft(LAMBDA acc, x : acc \o ToString(x) \o ",", "", s)
M1(i) == i                                       \* moduli 1 .. 40
Table(t) == [
  plus  |-> Row(LAMBDA i, j : Show(Plus(N(A(i)), N(A(j)))), 61, 61),
  minus |-> Row(LAMBDA i, j : Show(Minus(N(A(i)), N(A(j)))), 61, 61),
  times |-> Row(LAMBDA i, j : Show(Times(N(A(i)), N(A(j)))), 61, 61),
  divf  |-> Row(LAMBDA i, j : Show(DivF(N(A(i)), N(j))), 61, 40),
  modf  |-> Row(LAMBDA i, j : Show(ModF(N(A(i)), N(j))), 61, 40),
  less  |-> Row(LAMBDA i, j : B01(Less(N(A(i)), N(A(j)))), 61, 61),
  leq   |-> Row(LAMBDA i, j : B01(Leq(N(A(i)), N(A(j)))), 61, 61),
  odd   |-> Row(LAMBDA i, j : B01(Odd(N(A(i)))), 61, 1),
  same  |-> Row(LAMBDA i, j : B01(Plus(N(A(i)), N(1)) = N(A(j))), 61, 61),
  pow   |-> Row(LAMBDA i, j : Show(PowMod(N(i % 20), N(i \div 20), N(j))), 400, 23),
  inv   |-> Row(LAMBDA i, j : Show(InvMod(N(A(i)), N(Primes[j]))), 61, 9),
  issq  |-> Row(LAMBDA i, j : B01(IsSquareMod(N(A(i)), N(Primes[j]))), 61, 9),
  root  |-> Row(LAMBDA i, j : IF j > 1 /\ IsSquareMod(N(A(i)), N(Primes[j])) THEN Show(EvenRootMod(N(A(i)), N(Primes[j]))) ELSE "-", 61, 9),
  bits  |-> Row(LAMBDA i, j : Show(N(BitLen(N(i - 1)))), 300, 1),
  bit   |-> Row(LAMBDA i, j : Show(N(Bit(N(i - 1), j - 1))), 300, 10),
  le    |-> Row(LAMBDA i, j : ShowSeq(BytesLE(N(37 * i), j - 1)), 300, 5),
  be    |-> Row(LAMBDA i, j : ShowSeq(BytesBE(N(1009 * i), j + 2)), 300, 3),
  frombe |-> Row(LAMBDA i, j : Show(FromBE(SubSeq(<<i % 7, i % 256, (3 * i) % 256>>, 1, j - 1))), 300, 4),
  fromle |-> Row(LAMBDA i, j : Show(FromLE(SubSeq(<<i % 256, (3 * i) % 256, i % 7>>, 1, j - 1))), 300, 4),
  digits |-> Row(LAMBDA i, j : Show(FromDigits(<<i % 2, (i \div 2) % 2, (i \div 4) % 2>>, j + 1)), 8, 15),
  prime |-> Row(LAMBDA i, j : B01(IsPrime(N(i))), 300, 1)]

\* identities on large numbers, without a table
Big == <<N("4294967295"), N("4294967296"), N("4294967297"), N("18446744073709551615"), N("18446744073709551616"),
         N("115792089237316195423570985008687907853269984665640564039457584007908834671663"),
         N("57896044618658097711785492504343953926634992332820282019728792003956564819949")>>
P25519 == N("57896044618658097711785492504343953926634992332820282019728792003956564819949")
Identities(t) == \A i, j \in 1 .. 7 :
  LET a == Big[i] b == Big[j] IN
  /\ Minus(Plus(a, b), b) = a
  /\ Plus(Times(DivF(a, b), b), ModF(a, b)) = a
  /\ Leq(N(0), ModF(Minus(a, b), b)) /\ Less(ModF(Minus(a, b), b), b)
  /\ Plus(Times(DivF(Minus(N(0), a), b), b), ModF(Minus(N(0), a), b)) = Minus(N(0), a)
  /\ (Less(a, b) \/ Less(b, a) \/ a = b) /\ ~(Less(a, b) /\ Leq(b, a))
  /\ FromBE(BytesBE(a, 40)) = a /\ FromLE(BytesLE(a, 40)) = a
  /\ Len(BytesBE(a, 40)) = 40 /\ \A k \in 1 .. 40 : BytesBE(a, 40)[k] = BytesLE(a, 40)[41 - k]
  /\ FromDigits([k \in 1 .. BitLen(a) |-> Bit(a, BitLen(a) - k)], 2) = a
  /\ \A k \in {6, 7} : LET p == Big[k] IN
       /\ (ModF(a, p) = N(0)) = (InvMod(a, p) = N(0))
       /\ ModF(a, p) # N(0) => ModF(Times(InvMod(a, p), a), p) = N(1)
       /\ PowMod(a, Minus(p, N(1)), p) = (IF ModF(a, p) = N(0) THEN N(0) ELSE N(1))
       /\ ModF(Times(PowMod(a, b, p), a), p) = PowMod(a, Plus(b, N(1)), p)
       /\ IsSquareMod(Times(a, a), p)
       /\ LET y == EvenRootMod(Times(a, a), p) IN ~Odd(y) /\ ModF(Times(y, y), p) = ModF(Times(a, a), p)
       /\ IsSquareMod(a, p) = (PowMod(a, DivF(p, N(2)), p) \in {N(0), N(1)})

ASSUME IF IOEnv.MODE = "write" THEN JsonSerialize(IOEnv.PROG, Table(0))
       ELSE LET t == JsonDeserialize(IOEnv.PROG) IN
            /\ \A k \in DOMAIN Table(0) : Assert(Table(0)[k] = t[k], k)
            /\ Identities(0)
=============================================================================
