------------------------------- MODULE Codec -------------------------------
(* Instants and UUIDs.                                                        *)
(*                                                                            *)
(* A point in time is [t |-> "dt", day, sec, us, off, aware, fold]: days      *)
(* since 1970-01-01, seconds in the day and microseconds as shown on a clock  *)
(* that is off seconds ahead of UTC. For a naive value off is 0 and the clock *)
(* is the local one; fold is 1 if it shows that time for the second time.     *)
(*                                                                            *)
(* Where the clock is: [off, dst, on, until]. It is off seconds ahead of UTC, *)
(* but dst seconds from 2:00 on one day of every year to 3:00 on another, if  *)
(* on isn't 0. Days are counted as in a year that isn't a leap year. The C     *)
(* library does so since 1970.                                                *)
(*                                                                            *)
(* A UUID is [t |-> "uuid", u |-> its 16 bytes].                              *)
EXTENDS Num

DayMin == -719162       \* 0001-01-01
DayMax == 2932896       \* 9999-12-31

DayOfYear(day) ==           \* 1 to 365; 60 is both February 29 and March 1
    LET z == (day + 719468) % 146097            \* of 400 years starting in March
        y == (z - z \div 1460 + z \div 36524 - z \div 146096) \div 365
        d == z - (365 * y + y \div 4 - y \div 100)
    IN  IF d <= 305 THEN d + 60 ELSE IF d = 365 THEN 60 ELSE d - 305

\* How far the clock is ahead of UTC, at a time UTC.
Ahead(tz, day, sec) ==
    LET s == sec + tz.off
        now == 86400 * DayOfYear(day + s \div 86400) + (s % 86400)
        on == 86400 * tz.on + 7200
        until == 86400 * tz.until + 10800 - (tz.dst - tz.off)
    IN  IF tz.on = 0 THEN tz.off
        ELSE IF day < 0 THEN (IF until < on THEN tz.dst ELSE tz.off)
        ELSE IF (on < until /\ on <= now /\ now < until) \/ (until < on /\ (on <= now \/ now < until)) THEN tz.dst
        ELSE tz.off
AheadIf(tz, d, off) == LET s == d.sec - off IN Ahead(tz, d.day + s \div 86400, s % 86400)
Offsets(tz, d) == {o \in {tz.off, tz.dst} : AheadIf(tz, d, o) = o}

\* There are times that a clock never shows.
Exists(d, tz) == d.aware \/ Offsets(tz, d) # {}
OffsetOf(d, tz) ==
    IF d.aware THEN d.off
    ELSE LET s == Offsets(tz, d) IN
         IF s = {} THEN tz.off
         ELSE IF d.fold = 1 THEN CHOOSE o \in s : \A q \in s : o <= q
         ELSE CHOOSE o \in s : \A q \in s : o >= q

\* Microseconds since the epoch.
MicrosOf(d, tz) ==
    LET s0  == d.sec - OffsetOf(d, tz)
        day == d.day + s0 \div 86400
        sec == s0 % 86400
        abs == IF day >= 0 THEN <<day, sec, d.us>>
               ELSE IF d.us = 0 THEN <<-day - 1, 86400 - sec, 0>>
               ELSE <<-day - 1, 86399 - sec, 1000000 - d.us>>
    IN  BigInt(day < 0, MulAdd(MulAdd(DigitsOf(abs[1]), 86400, abs[2]), 1000000, abs[3]))

\* The number of whole units since the epoch, cut towards it.
UnitsOf(d, tz, res) ==
    LET m == MicrosOf(d, tz)
        q == CASE res = "s"  -> DivMod(m.m, 1000000)[1]
               [] res = "ms" -> DivMod(m.m, 1000)[1]
               [] res = "us" -> m.m
               [] res = "ns" -> MulAdd(m.m, 1000, 0)
    IN  BigInt(m.n, q)

\* The point in time v units after the epoch: [ok, v]; not ok if too far away.
FromUnits(v, tz, res, aware) ==
    LET k  == DivMod(v.m, 1000)
        mm == CASE res = "s"  -> MulAdd(v.m, 1000000, 0)
                [] res = "ms" -> MulAdd(v.m, 1000, 0)
                [] res = "us" -> v.m
                [] res = "ns" ->            \* to the nearest microsecond, ties to even
                     IF k[2] > 500 \/ (k[2] = 500 /\ k[1] # <<>> /\ k[1][1] % 2 = 1)
                     THEN MulAdd(k[1], 1, 1) ELSE k[1]
        a  == DivMod(mm, 1000000)           \* seconds, microseconds
        b  == DivMod(a[1], 86400)           \* days, seconds
        dd == SmallMag(b[1])
        far == Len(b[1]) > 3
        us == IF v.n /\ a[2] > 0 THEN 1000000 - a[2] ELSE a[2]
        s1 == IF v.n THEN -(b[2] + (IF a[2] > 0 THEN 1 ELSE 0)) ELSE b[2]
        d1 == (IF v.n THEN -dd ELSE dd)
        ahead == IF aware \/ far THEN 0 ELSE Ahead(tz, d1 + s1 \div 86400, s1 % 86400)
        s2 == s1 + ahead
        d2 == d1 + s2 \div 86400
        w  == [day |-> d2, sec |-> s2 % 86400]
    IN  [ok |-> ~far /\ d2 > DayMin + 1 /\ d2 < DayMax - 1,
         v  |-> IF far THEN [t |-> "none"]
                ELSE [t |-> "dt", day |-> d2, sec |-> s2 % 86400, us |-> us,
                      off |-> 0, aware |-> aware,
                      fold |-> IF ~aware /\ \E o \in Offsets(tz, w) : o > ahead THEN 1 ELSE 0]]

-----------------------------------------------------------------------------
HexDigit(k) == IF k < 10 THEN 48 + k ELSE 87 + k
Hex(u) == [i \in 1..(2 * Len(u)) |->
             HexDigit(IF i % 2 = 1 THEN u[(i + 1) \div 2] \div 16 ELSE u[i \div 2] % 16)]
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Mixed(u) == <<u[4], u[3], u[2], u[1], u[6], u[5], u[8], u[7]>> \o SubSeq(u, 9, 16)

UuidSize(fmt) == CASE fmt \in {"binary_var_1", "binary_var_2"} -> 16
                   [] fmt = "canonical_string" -> 36
                   [] fmt = "hex_string" -> 32
UuidEnc(u, fmt) ==
    CASE fmt = "binary_var_1" -> u
      [] fmt = "binary_var_2" -> Mixed(u)
      [] fmt = "hex_string" -> Hex(u)
      [] fmt = "canonical_string" ->
            LET h == Hex(u) IN SubSeq(h, 1, 8) \o <<45>> \o SubSeq(h, 9, 12) \o <<45>> \o
                SubSeq(h, 13, 16) \o <<45>> \o SubSeq(h, 17, 20) \o <<45>> \o SubSeq(h, 21, 32)

\* [ok, u]; not ok if the bytes don't have the form written by UuidEnc (in
\* either case). What the code does with other spellings is left open.
UuidDec(b, fmt) ==
    CASE fmt = "binary_var_1" -> [ok |-> TRUE, u |-> b]
      [] fmt = "binary_var_2" -> [ok |-> TRUE, u |-> Mixed(b)]
      [] OTHER ->
            LET dash == {9, 14, 19, 24}
                h == IF fmt = "hex_string" THEN b
                     ELSE SubSeq(b, 1, 8) \o SubSeq(b, 10, 13) \o SubSeq(b, 15, 18) \o
                          SubSeq(b, 20, 23) \o SubSeq(b, 25, 36)
                ok == /\ \A i \in 1..32 : HexVal(h[i]) >= 0
                      /\ fmt = "canonical_string" => \A i \in dash : b[i] = 45
            IN  [ok |-> ok,
                 u |-> IF ok THEN [j \in 1..16 |-> 16 * HexVal(h[2 * j - 1]) + HexVal(h[2 * j])]
                       ELSE <<>>]
=============================================================================
