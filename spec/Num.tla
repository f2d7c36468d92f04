-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Integer arithmetic used by every other module.  The definitions are     *)
(* ordinary TLA+ over the unbounded integers.  TLC evaluates native        *)
(* integers in 32 bits, so for the full-size curves the Java class         *)
(* redox.NumOverrides (java/redox) makes TLC evaluate exactly these        *)
(* operators on arbitrary-precision values; without that class on the      *)
(* class path the definitions below are evaluated as written ("pure"       *)
(* mode).  MC_Num.tla compares the two on small arguments.                 *)
(* Numbers are only ever built by N(_) and combined by these operators, so *)
(* the same specification text runs in both modes.                         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

N(i) == i                                  \* number for a literal (or, in trace mode, a decimal string)
ToInt(a) == a                              \* back to a native integer (small numbers only)

Plus(a, b)  == a + b
Minus(a, b) == a - b
Times(a, b) == a * b
DivF(a, b)  == a \div b                    \* floor division, b > 0
ModF(a, b)  == a % b                       \* floor modulus, b > 0
Less(a, b)  == a < b
Leq(a, b)   == a <= b
Odd(a)      == a % 2 = 1

RECURSIVE PowMod(_, _, _)                  \* b^e mod m for e >= 0, m > 0
PowMod(b, e, m) ==
  IF e = 0 THEN 1 % m
  ELSE LET h == PowMod((b * b) % m, e \div 2, m)
       IN IF e % 2 = 1 THEN (h * b) % m ELSE h

\* the inverse modulo a prime m, with the inverse of 0 being 0
InvMod(a, m) == IF a % m = 0 THEN 0 ELSE CHOOSE x \in 1 .. (m - 1) : (x * a) % m = 1

\* some y squares to a, modulo a prime m
IsSquareMod(a, m) == \E y \in 0 .. (m - 1) : (y * y) % m = a % m
\* the root of a square with an even representative (m an odd prime)
EvenRootMod(a, m) == CHOOSE y \in 0 .. (m - 1) : (y * y) % m = a % m /\ y % 2 = 0

RECURSIVE BitLen(_)
BitLen(a) == IF a = 0 THEN 0 ELSE 1 + BitLen(a \div 2)
RECURSIVE Bit(_, _)
Bit(a, i) == IF i = 0 THEN a % 2 ELSE Bit(a \div 2, i - 1)

RECURSIVE BytesLE(_, _)                    \* the len least significant base-256 digits
BytesLE(a, len) == IF len = 0 THEN << >> ELSE <<a % 256>> \o BytesLE(a \div 256, len - 1)
BytesBE(a, len) == LET s == BytesLE(a, len) IN [i \in 1 .. len |-> s[len + 1 - i]]
RECURSIVE FromDigits(_, _)                 \* big-endian digits in a radix
FromDigits(s, radix) == IF s = << >> THEN 0
                        ELSE FromDigits(SubSeq(s, 1, Len(s) - 1), radix) * radix + s[Len(s)]
FromBE(s) == FromDigits(s, 256)
FromLE(s) == FromDigits([i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]], 256)

IsPrime(a) == a > 1 /\ \A d \in 2 .. (a - 1) : d * d <= a => a % d # 0
Show(a) == ToString(a)
=============================================================================
