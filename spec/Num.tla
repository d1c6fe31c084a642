-------------------------------- MODULE Num --------------------------------
(* Integers of any magnitude, and the integer encodings of binobj.            *)
(*                                                                            *)
(* TLC's integers have 32 bits, so an integer is written                      *)
(*     [t |-> "int", n |-> negative?, m |-> magnitude]                        *)
(* where the magnitude is a sequence of base-256 digits, least significant    *)
(* first, without leading zeros (zero is <<>>).                               *)
EXTENDS Integers, Sequences, TLC

\* TLCEval(v) is v. It makes TLC evaluate a sequence once and not for each use.

Rev(s) == LET v == TLCEval(s)
              n == Len(v)
          IN  TLCEval([i \in 1..n |-> v[n + 1 - i]])
Zeros(k) == [i \in 1..k |-> 0]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE TopNZ(_, _)
TopNZ(s, k) == IF k = 0 THEN 0 ELSE IF s[k] # 0 THEN k ELSE TopNZ(s, k - 1)

RECURSIVE LowNZ(_, _)
LowNZ(s, k) == IF k > Len(s) THEN 0 ELSE IF s[k] # 0 THEN k ELSE LowNZ(s, k + 1)

Norm(s) == LET v == TLCEval(s) IN SubSeq(v, 1, TopNZ(v, Len(v)))

RECURSIVE DigitsOf(_)
DigitsOf(k) == IF k = 0 THEN <<>> ELSE <<k % 256>> \o DigitsOf(k \div 256)

BigInt(neg, m) == [t |-> "int", n |-> neg /\ m # <<>>, m |-> m]
IntV(k) == IF k < 0 THEN BigInt(TRUE, DigitsOf(-k)) ELSE BigInt(FALSE, DigitsOf(k))

Huge == 1073741824      \* stands for any magnitude of four digits or more
SmallMag(m) == IF Len(m) > 3 THEN Huge
               ELSE (IF Len(m) > 0 THEN m[1] ELSE 0) + (IF Len(m) > 1 THEN 256 * m[2] ELSE 0)
                    + (IF Len(m) > 2 THEN 65536 * m[3] ELSE 0)
Small(v) == IF v.n THEN -SmallMag(v.m) ELSE SmallMag(v.m)

RECURSIVE MagLe_(_, _, _)
MagLe_(a, b, i) == i = 0 \/ a[i] < b[i] \/ (a[i] = b[i] /\ MagLe_(a, b, i - 1))
MagLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ MagLe_(a, b, Len(a)))
IntLe(v, w) == IF v.n # w.n THEN v.n ELSE IF v.n THEN MagLe(w.m, v.m) ELSE MagLe(v.m, w.m)

(* Arithmetic on magnitudes: factor and divisor at most 10^6.                 *)
RECURSIVE MulAdd_(_, _, _, _)
MulAdd_(m, k, c, i) ==
    IF i > Len(m) THEN DigitsOf(c)
    ELSE LET x == m[i] * k + c IN <<x % 256>> \o MulAdd_(m, k, x \div 256, i + 1)
MulAdd(m, k, c) == Norm(MulAdd_(m, k, c, 1))            \* m * k + c

RECURSIVE DivMod_(_, _, _, _)
DivMod_(m, k, i, r) ==                                  \* most significant digit first
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET x == r * 256 + m[i]
             d == DivMod_(m, k, i - 1, x % k)
         IN  <<Append(d[1], x \div k), d[2]>>
DivMod(m, k) == LET d == DivMod_(m, k, Len(m), 0) IN <<Norm(d[1]), d[2]>>

-----------------------------------------------------------------------------
(* Fixed width, two's complement; digits least significant first.             *)

TwosComplement(r) ==
    LET s == TLCEval(r)
        k == LowNZ(s, 1)
    IN
    TLCEval([i \in 1..Len(s) |-> IF k = 0 \/ i < k THEN 0
                         ELSE IF i = k THEN 256 - s[i] ELSE 255 - s[i]])

FixedFits(v, size, signed) ==
    IF ~signed THEN ~v.n /\ Len(v.m) <= size
    ELSE \/ Len(v.m) < size
         \/ /\ Len(v.m) = size
            /\ \/ size = 0
               \/ v.m[size] < 128
               \/ v.n /\ v.m[size] = 128 /\ \A i \in 1..(size - 1) : v.m[i] = 0

FixedEnc(v, size, endian) ==
    LET pad == TLCEval([i \in 1..size |-> IF i <= Len(v.m) THEN v.m[i] ELSE 0])
        le  == IF v.n THEN TwosComplement(pad) ELSE pad
    IN  IF endian = "big" THEN Rev(le) ELSE le

FixedDec(b, signed, endian) ==
    LET le  == IF endian = "big" THEN Rev(b) ELSE b
        neg == signed /\ Len(le) > 0 /\ le[Len(le)] >= 128
    IN  BigInt(neg, Norm(IF neg THEN TwosComplement(le) ELSE le))

-----------------------------------------------------------------------------
(* Variable length: groups of seven bits, the eighth says if more follow.     *)

BitAt(m, i) == IF i \div 8 >= Len(m) THEN 0 ELSE (m[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2

BitLen(m) == IF m = <<>> THEN 0
             ELSE 8 * (Len(m) - 1) +
                  (CHOOSE k \in 1..8 : m[Len(m)] >= 2 ^ (k - 1) /\ m[Len(m)] < 2 ^ k)

\* Bits from..from+cnt-1 of m as a number.
Field(m, from, cnt) ==
    LET RECURSIVE Sum(_)
        Sum(k) == IF k = cnt THEN 0 ELSE BitAt(m, from + k) * (2 ^ k) + Sum(k + 1)
    IN  Sum(0)

\* The magnitude made of groups (least significant first) of w bits each.
FromBits(s) ==
    LET bits == TLCEval(s) IN
    Norm([j \in 1..CeilDiv(Len(bits), 8) |->
            LET B(k) == IF 8 * (j - 1) + k <= Len(bits) THEN bits[8 * (j - 1) + k] ELSE 0
            IN  B(1) + 2 * B(2) + 4 * B(3) + 8 * B(4) + 16 * B(5) + 32 * B(6) + 64 * B(7) + 128 * B(8)])

GroupBits(s) == LET g == TLCEval(s) IN
                TLCEval([i \in 1..(7 * Len(g)) |-> (g[((i - 1) \div 7) + 1] \div (2 ^ ((i - 1) % 7))) % 2])

\* Negation of a number given as bits, in two's complement.
NegBits(s) ==
    LET bits == TLCEval(s)
        k == LowNZ(bits, 1)
    IN
    TLCEval([i \in 1..Len(bits) |-> IF k = 0 \/ i < k THEN 0 ELSE IF i = k THEN 1 ELSE 1 - bits[i]])

Continued(s) == LET g == TLCEval(s)
                    n == Len(g)
                IN  TLCEval([i \in 1..n |-> IF i < n THEN 128 + g[i] ELSE g[i]])
Groups(m, cnt) == TLCEval([i \in 1..cnt |-> Field(m, 7 * (i - 1), 7)])

VarSigned(fmt) == fmt \in {"compact", "leb128"}

\* The encoding of integer v. The signed little-endian form reserves a bit for
\* the sign next to the bits of the magnitude, also for -2^k, which it could do
\* without.
VarEnc(v, fmt) ==
    LET bl == BitLen(v.m) IN
    CASE fmt = "uleb128" -> Continued(Groups(v.m, MaxOf(1, CeilDiv(bl, 7))))
      [] fmt = "vlq"     -> Continued(Rev(Groups(v.m, MaxOf(1, CeilDiv(bl, 7)))))
      [] fmt = "compact" ->
            LET more  == IF bl <= 6 THEN 0 ELSE CeilDiv(bl - 6, 7)
                first == (IF v.n THEN 64 ELSE 0) + Field(v.m, 7 * more, 6)
            IN  Continued(<<first>> \o Rev(Groups(v.m, more)))
      [] fmt = "leb128"  ->
            IF v.m = <<>> THEN <<0>>
            ELSE LET cnt  == CeilDiv(bl + 1, 7)
                     bits == TLCEval([i \in 1..(7 * cnt) |-> BitAt(v.m, i - 1)])
                     tc   == IF v.n THEN NegBits(bits) ELSE bits
                     g    == [j \in 1..cnt |->
                                LET B(k) == tc[7 * (j - 1) + k] IN
                                B(1) + 2 * B(2) + 4 * B(3) + 8 * B(4) + 16 * B(5) + 32 * B(6) + 64 * B(7)]
                 IN  Continued(g)

\* Index of the last byte of the number starting at index i, or 0.
RECURSIVE VarEnd(_, _)
VarEnd(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] < 128 THEN i ELSE VarEnd(s, i + 1)

\* The integer encoded by the bytes b, the last of which is the only one < 128.
VarDec(b, fmt) ==
    LET g == TLCEval([i \in 1..Len(b) |-> b[i] % 128]) IN
    CASE fmt = "uleb128" -> BigInt(FALSE, FromBits(GroupBits(g)))
      [] fmt = "vlq"     -> BigInt(FALSE, FromBits(GroupBits(Rev(g))))
      [] fmt = "compact" ->
            BigInt(g[1] >= 64, FromBits(GroupBits(Rev(Tail(g)) \o <<g[1] % 64>>)))
      [] fmt = "leb128"  ->
            LET bits == GroupBits(g)
                neg  == bits[Len(bits)] = 1
            IN  BigInt(neg, FromBits(IF neg THEN NegBits(bits) ELSE bits))

\* What is left when dividing a natural number by the small k.
Remainder(v, k) ==
    LET RECURSIVE From(_, _)
        From(i, acc) == IF i = 0 THEN acc ELSE From(i - 1, (acc * 256 + v.m[i]) % k)
    IN  From(Len(v.m), 0)
=============================================================================
