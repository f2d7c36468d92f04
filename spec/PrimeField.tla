----------------------------- MODULE PrimeField -----------------------------
(***************************************************************************)
(* The field of integers modulo an odd prime p.  An element is its         *)
(* canonical representative in 0..p-1.                                     *)
(***************************************************************************)
EXTENDS Num, Sequences, Naturals

Zero == N(0)
One  == N(1)
Two  == N(2)

FRed(p, n)    == ModF(n, p)
IsElt(p, a)   == Leq(Zero, a) /\ Less(a, p)
FAdd(p, a, b) == ModF(Plus(a, b), p)
FSub(p, a, b) == ModF(Minus(a, b), p)
FMul(p, a, b) == ModF(Times(a, b), p)
FNeg(p, a)    == ModF(Minus(Zero, a), p)
FSqr(p, a)    == FMul(p, a, a)
FInv(p, a)    == InvMod(a, p)                     \* the inverse of 0 is 0
FDiv(p, a, b) == FMul(p, a, FInv(p, b))
\* a^e for any integer e: x^0 = 1, and a negative power is a power of the inverse
FPow(p, a, e) == IF Less(e, Zero) THEN PowMod(FInv(p, a), Minus(Zero, e), p)
                 ELSE PowMod(a, e, p)

FIsSquare(p, a)  == IsSquareMod(a, p)
FIsRoot(p, y, a) == IsElt(p, y) /\ FSqr(p, y) = a
\* +1 for an even representative, -1 for an odd one
FSgn(a) == IF Odd(a) THEN 0 - 1 ELSE 1
\* the root of a square whose sign is sg (the root 0 has sign +1 only)
FRootSgn(p, a, sg) == LET y == EvenRootMod(a, p)
                      IN IF sg = 1 \/ y = Zero THEN y ELSE FNeg(p, y)

\* supported residue classes for square roots
HasRoots(p) == LET r == ToInt(ModF(p, N(8))) IN r % 4 = 3 \/ r = 5

(*------------------------------- representation --------------------------*)
FSize(p)      == (BitLen(p) + 7) \div 8
FToBE(p, a)   == BytesBE(a, FSize(p))
FToLE(p, a)   == BytesLE(a, FSize(p))
FFromBE(p, s) == FRed(p, FromBE(s))
FFromLE(p, s) == FRed(p, FromLE(s))

\* numeric text, given as a sequence of character codes:
\*   ["-"] ["0x" | "0o" | "0b"] digits ; the empty text is 0
DigitVal(ch) == IF ch >= 48 /\ ch <= 57 THEN ch - 48
                ELSE IF ch >= 97 /\ ch <= 122 THEN ch - 87
                ELSE ch - 55
ParseText(s) ==
  IF s = << >> THEN Zero ELSE
  LET neg    == s[1] = 45
      t      == IF neg THEN Tail(s) ELSE s
      pre    == IF Len(t) > 1 /\ t[1] = 48 THEN t[2] ELSE 0
      radix  == IF pre = 120 THEN 16 ELSE IF pre = 111 THEN 8 ELSE IF pre = 98 THEN 2 ELSE 10
      digits == IF radix = 10 THEN t ELSE SubSeq(t, 3, Len(t))
      v      == FromDigits([i \in 1 .. Len(digits) |-> DigitVal(digits[i])], radix)
  IN IF neg THEN Minus(Zero, v) ELSE v
=============================================================================
