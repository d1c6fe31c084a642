-------------------------------- MODULE Float -------------------------------
(* IEEE-754. A float value is the eight bytes of its binary64 encoding, most  *)
(* significant first. Of the values that are not a number one is canonical;    *)
(* all others are written as OddNaN, and nothing is said about their bits.    *)
EXTENDS Integers, Sequences

CanonicalNaN == <<127, 248, 0, 0, 0, 0, 0, 0>>
OddNaN == <<127, 255, 255, 255, 255, 255, 255, 255>>

Bits8(b) == [k \in 1..8 |-> (b \div (2 ^ (8 - k))) % 2]
BitsOfBytes(s) == [i \in 1..(8 * Len(s)) |-> (s[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2]
BytesOfBits(b) == [j \in 1..(Len(b) \div 8) |->
                     LET B(k) == b[8 * (j - 1) + k] IN
                     128 * B(1) + 64 * B(2) + 32 * B(3) + 16 * B(4) + 8 * B(5) + 4 * B(6) + 2 * B(7) + B(8)]

RECURSIVE NumOf_(_, _, _, _)
NumOf_(b, i, j, acc) == IF i > j THEN acc ELSE NumOf_(b, i + 1, j, 2 * acc + b[i])
NumOf(b, i, j) == NumOf_(b, i, j, 0)                    \* bits i..j, most significant first

BitsOfNum(k, w) == [i \in 1..w |-> (k \div (2 ^ (w - i))) % 2]

ExpBits(w) == CASE w = 2 -> 5 [] w = 4 -> 8 [] w = 8 -> 11
Bias(w) == 2 ^ (ExpBits(w) - 1) - 1

\* Binary64 d to w bytes: [ok, b], not ok if a finite number is too large.
Narrow(d, w) ==
    IF w = 8 THEN [ok |-> TRUE, b |-> d]
    ELSE
    LET bits == BitsOfBytes(d)
        sign == bits[1]
        ex   == NumOf(bits, 2, 12)
        frac == \E i \in 13..64 : bits[i] = 1
        eb   == ExpBits(w)
        mb   == 8 * w - 1 - eb
        top  == (2 ^ eb - 1) * (2 ^ mb)                 \* infinity
        E    == ex - 1023
        sig  == <<1>> \o SubSeq(bits, 13, 64)
        emin == 1 - Bias(w)
        keep == IF E >= emin THEN mb + 1 ELSE mb + 1 - (emin - E)
        kept == IF keep <= 0 THEN 0 ELSE NumOf(sig, 1, keep)
        guard == keep >= 0 /\ sig[keep + 1] = 1
        sticky == keep >= 0 /\ \E i \in (keep + 2)..53 : sig[i] = 1
        up   == guard /\ (sticky \/ kept % 2 = 1)
        mag  == (IF E >= emin THEN (E + Bias(w) - 1) * (2 ^ mb) + kept ELSE kept) + (IF up THEN 1 ELSE 0)
        Pack(x) == BytesOfBits(<<sign>> \o BitsOfNum(x, 8 * w - 1))
    IN  IF ex = 2047 THEN [ok |-> TRUE, b |-> Pack(IF frac THEN top + 2 ^ (mb - 1) ELSE top)]
        ELSE IF ex = 0 THEN [ok |-> TRUE, b |-> Pack(0)]
        ELSE IF E > Bias(w) \/ mag >= top THEN [ok |-> FALSE, b |-> <<>>]
        ELSE [ok |-> TRUE, b |-> Pack(mag)]

\* w bytes to binary64.
Widen(b, w) ==
    LET bits == BitsOfBytes(b)
        eb   == ExpBits(w)
        mb   == 8 * w - 1 - eb
        ex   == NumOf(bits, 2, 1 + eb)
        mant == SubSeq(bits, 2 + eb, 8 * w)
        zero == \A i \in 1..mb : mant[i] = 0
        lead == CHOOSE i \in 1..mb : mant[i] = 1 /\ \A j \in 1..(i - 1) : mant[j] = 0
        Make(e, m) == BytesOfBits(<<bits[1]>> \o BitsOfNum(e, 11) \o
                                  [i \in 1..52 |-> IF i <= Len(m) THEN m[i] ELSE 0])
        plain == bits[1] = 0 /\ mant[1] = 1 /\ \A i \in 2..mb : mant[i] = 0
    IN  IF ex = 2 ^ eb - 1
        THEN IF zero THEN Make(2047, <<>>)
             \* Half precision loses what else there is in it.
             ELSE IF plain \/ (w = 2 /\ bits[1] = 0) THEN CanonicalNaN ELSE OddNaN
        ELSE IF w = 8 THEN b
        ELSE IF ex = 0 THEN
            IF zero THEN Make(0, <<>>)
            ELSE Make(1 - Bias(w) - lead + 1023, SubSeq(mant, lead + 1, mb))
        ELSE Make(ex - Bias(w) + 1023, mant)
=============================================================================
