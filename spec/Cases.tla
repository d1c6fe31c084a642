-------------------------------- MODULE Cases --------------------------------
(* Single fields serialised and loaded by themselves: declarations with the   *)
(* events to go through for each, and the properties of the encodings, which  *)
(* are stated by other means than those the encodings are defined with.       *)
EXTENDS Catalogue

CONSTANT Thorough

FD(v) == [op |-> "fdump", c |-> 1, f |-> 1, v |-> <<v>>, env |-> <<>>, ctx |-> 0, via |-> "bytes"]
FDS(v) == [FD(v) EXCEPT !.via = "stream"]
FL(b) == [op |-> "fload", c |-> 1, f |-> 1, b |-> b, env |-> <<>>, ctx |-> 0, exact |-> TRUE]
FLX(b) == [FL(b) EXCEPT !.exact = FALSE]
FLS(b, p) == [op |-> "floads", c |-> 1, f |-> 1, b |-> b, p |-> p, env |-> <<>>, ctx |-> 0]

CaseP(f, tz, evs) == [prog |-> [classes |-> <<Class("C1", <<>>, "assign", <<[f EXCEPT !.name = "f"]>>)>>, tz |-> tz], evs |-> evs]
Case(f, evs) == CaseP(f, Zone(0), evs)

Seqs(s, n) == [1..n -> {s[i] : i \in 1..Len(s)}]
SeqsUpTo(s, n) == UNION {Seqs(s, k) : k \in 0..n}
Over(S, Op(_)) == LET s == SetToSeq(S) IN [i \in 1..Len(s) |-> Op(s[i])]
Cross(F(_, _), s, t) == FlattenSeq([i \in 1..Len(s) |-> [j \in 1..Len(t) |-> F(s[i], t[j])]])

\* Magnitudes 2^k - 1, 2^k and 2^k + 1.
Pow2(k) == [i \in 1..(k \div 8 + 1) |-> IF i = k \div 8 + 1 THEN 2 ^ (k % 8) ELSE 0]
Ones(k) == Norm([i \in 1..(k \div 8 + 1) |-> IF i = k \div 8 + 1 THEN 2 ^ (k % 8) - 1 ELSE 255])
Near(k) == <<Ones(k), Pow2(k), MulAdd(Pow2(k), 1, 1)>>
Both(ms) == [i \in 1..(2 * Len(ms)) |-> BigInt(i % 2 = 0, ms[(i + 1) \div 2])]
NearAll(ks) == FlattenSeq([i \in 1..Len(ks) |-> Both(Near(ks[i]))])
IntRange(a, b) == [i \in 1..(b - a + 1) |-> IntV(a + i - 1)]

-----------------------------------------------------------------------------
(* C03                                                                        *)

IntKinds ==
    <<<<"Int8", 1, TRUE>>, <<"UInt8", 1, FALSE>>, <<"Int16", 2, TRUE>>, <<"UInt16", 2, FALSE>>, <<"Int32", 4, TRUE>>,
      <<"UInt32", 4, FALSE>>, <<"Int64", 8, TRUE>>, <<"UInt64", 8, FALSE>>, <<"Integer", 3, TRUE>>, <<"Integer", 3, FALSE>>,
      <<"UnsignedInteger", 5, FALSE>>, <<"Integer", 9, TRUE>>, <<"UnsignedInteger", 17, FALSE>>, <<"Integer", 1, TRUE>>,
      <<"Integer", 16, TRUE>>, <<"Integer", 17, FALSE>>>>
IntCases(u) ==
    LET Make(k, e) ==
            LET n == k[2]
                ks == SetToSeq({8 * n, 8 * n - 1, 8 * n - 8, 7, 8, 8 * n + 1, 8 * n + 9})
                ints == FlattenSeq(<<NearAll(ks), IF n <= 2 THEN IntRange(-300, 300) ELSE IntRange(-3, 3)>>)
                B(x) == Seqs(<<0, 1, 127, 128, 255>>, x)
                bytes == IF n = 1 THEN {<<i>> : i \in 0..255}
                         ELSE IF n <= 3 THEN B(n)
                         ELSE {[i \in 1..n |-> IF i = 1 THEN x[1] ELSE IF i = n THEN x[2] ELSE x[3]] : x \in B(3)}
            IN  Case(IntF(k[1], n, k[3], e),
                     [i \in 1..Len(ints) |-> IF i % 3 = 0 THEN FDS(ints[i]) ELSE FD(ints[i])]
                     \o Over(bytes, FL) \o Over({<<7>> \o b \o <<9>> : b \in {CHOOSE x \in bytes : TRUE}}, LAMBDA b : FLS(b, 1))
                     \o <<FL([i \in 1..(n - 1) |-> 5]), FL([i \in 1..(n + 1) |-> 5]), FLX([i \in 1..(n + 1) |-> 5])>>)
    IN  Cross(Make, IntKinds, <<"", "big", "little">>)

\* The value is that of the sum of the digits times powers of 256, taken as
\* negative if the first bit is set and it's signed.
RECURSIVE SumLE(_, _)
SumLE(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + 256 * SumLE(b, i + 1)
IntMeaning(f, b, v) ==
    LET le == IF f.endian = "big" THEN Reverse(b) ELSE b
        n == Len(b)
    IN  /\ n = f.fsize
        /\ n <= 3 => Small(v) = SumLE(le, 1) - (IF f.signed /\ le[n] >= 128 THEN 2 ^ (8 * n) ELSE 0)
        /\ \A i \in 1..n : ~v.n => le[i] = (IF i <= Len(v.m) THEN v.m[i] ELSE 0)
        \* -v is what is to be added to get zero
        /\ v.n => LET RECURSIVE Adds(_, _)
                      Adds(i, c) == IF i > n THEN c = 1
                                    ELSE LET s == le[i] + (IF i <= Len(v.m) THEN v.m[i] ELSE 0) + c
                                         IN  s % 256 = 0 /\ Adds(i + 1, s \div 256)
                  IN  Adds(1, 0)
IntFits(f, v) ==
    LET top == IF f.signed THEN Ones(8 * f.fsize - 1) ELSE Ones(8 * f.fsize)
        low == IF f.signed THEN BigInt(TRUE, Norm(Pow2(8 * f.fsize - 1))) ELSE BigInt(FALSE, <<>>)
    IN  IntLe(low, v) /\ IntLe(v, BigInt(FALSE, top))

-----------------------------------------------------------------------------
(* C04                                                                        *)

VarCases(u) ==
    LET Exps == IF Thorough THEN [i \in 1..200 |-> i]
                ELSE <<1, 2, 5, 6, 7, 8, 12, 13, 14, 15, 19, 20, 21, 22, 27, 28, 31, 32, 34, 35, 48, 49, 55, 56, 62, 63, 64, 65, 69, 70, 71, 127, 128, 140>>
        Firsts == IF Thorough THEN [i \in 1..128 |-> 127 + i] ELSE <<128, 129, 130, 159, 160, 191, 192, 193, 223, 224, 254, 255>>
        Seconds == IF Thorough THEN [i \in 1..128 |-> i - 1] ELSE <<0, 1, 2, 31, 32, 62, 63, 64, 65, 95, 96, 126, 127>>
        Mids == <<128, 129, 191, 192, 255>>
        Numbers(fmt) == Case(VarF(fmt), LET s == TLCEval(NearAll(Exps)) IN [i \in 1..Len(s) |-> FD(s[i])])
        Smalls(fmt) == Case(VarF(fmt), LET s == IntRange(-130, 300) IN [i \in 1..Len(s) |-> FD(s[i])])
        Ones1(fmt) == Case(VarF(fmt), [i \in 1..256 |-> FL(<<i - 1>>)])
        Twos(fmt, b) == Case(VarF(fmt), [i \in 1..Len(Seconds) |-> FL(<<b, Seconds[i]>>)]
                                        \o <<FL(<<b, 128>>), FL(<<b, 3, 4>>), FLX(<<b, 3, 4>>), FLS(<<9, b, 1, 200>>, 1)>>)
        More(fmt, n) == Case(VarF(fmt), LET s == Cross(LAMBDA x, y : x \o <<y>>, SetToSeq(Seqs(Mids, n)), <<0, 1, 63, 64, 127>>)
                                        IN [i \in 1..Len(s) |-> FL(s[i])])
        Long(fmt) == Case(VarF(fmt), [i \in 1..24 |-> FL([k \in 1..(i + 8) |-> IF k = i + 8 THEN 1 ELSE IF i % 2 = 0 THEN 128 ELSE 255])])
        Limit(fmt, n) == Case([VarF(fmt) EXCEPT !.maxb = n],
                              LET s == NearAll(<<7 * n - 2, 7 * n - 1, 7 * n, 7 * n + 1>>) IN
                              [i \in 1..Len(s) |-> FD(s[i])] \o <<FL(<<255, 255, 255, 127>>), FL(<<128, 128, 128, 1>>)>>)
        fmts == <<"vlq", "uleb128", "leb128", "compact">>
    IN  [i \in 1..4 |-> Numbers(fmts[i])] \o [i \in 1..4 |-> Smalls(fmts[i])] \o [i \in 1..4 |-> Ones1(fmts[i])]
        \o Cross(Twos, fmts, Firsts) \o Cross(More, fmts, IF Thorough THEN <<2, 3, 4>> ELSE <<2, 3>>)
        \o [i \in 1..4 |-> Long(fmts[i])] \o Cross(Limit, fmts, <<1, 2, 3>>)

\* Groups of seven bits, and the last byte is the only one below 128.
RECURSIVE SumVlq(_, _, _), SumUleb(_, _)
SumVlq(b, i, acc) == IF i > Len(b) THEN acc ELSE SumVlq(b, i + 1, 128 * acc + (b[i] % 128))
SumUleb(b, i) == IF i > Len(b) THEN 0 ELSE (b[i] % 128) + 128 * SumUleb(b, i + 1)
VarMeaning(f, b, v) ==
    LET n == Len(b) IN
    /\ b[n] < 128 /\ \A i \in 1..(n - 1) : b[i] >= 128
    /\ n <= 3 => Small(v) = CASE f.fmt = "vlq" -> SumVlq(b, 1, 0)
                               [] f.fmt = "uleb128" -> SumUleb(b, 1)
                               [] f.fmt = "leb128" -> SumUleb(b, 1) - (IF b[n] >= 64 THEN 2 ^ (7 * n) ELSE 0)
                               [] f.fmt = "compact" ->
                                     LET m == SumVlq([b EXCEPT ![1] = b[1] % 64], 1, 0) IN
                                     IF b[1] % 128 >= 64 THEN -m ELSE m
\* No shorter encoding exists (but for the negative powers of two in leb128).
Shortest(f, b, v) ==
    Len(b) > 1 =>
        CASE f.fmt = "vlq" -> b[1] # 128
          [] f.fmt = "uleb128" -> b[Len(b)] # 0
          [] f.fmt = "compact" -> b[1] % 64 # 0 \/ b[2] % 128 >= 64
          [] f.fmt = "leb128" -> LET x == b[Len(b)] IN LET y == b[Len(b) - 1] IN
                                 /\ ~(x = 0 /\ y < 192) /\ (x = 127 /\ y >= 192) => v.n

-----------------------------------------------------------------------------
(* C05                                                                        *)

Encs == <<"ascii", "latin-1", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be", "cp500", "cp1252">>
WidthOf(enc) == CASE enc \in {"utf-16-le", "utf-16-be", "utf-16"} -> 2 [] enc \in {"utf-32-le", "utf-32-be", "utf-32"} -> 4 [] OTHER -> 1
Alphabet(enc) ==
    CASE enc = "ascii" -> <<65, 1, 127, 128>>
      [] enc = "latin-1" -> <<65, 32, 255, 256>>
      [] enc = "cp500" -> <<65, 133, 255, 256>>
      [] enc = "cp1252" -> <<65, 8364, 255, 129>>
      [] enc = "utf-8" -> <<65, 233, 8364, 128512, 55296>>
      [] enc = "utf-8-sig" -> <<65, 8364, 65279, 55296>>
      [] OTHER -> <<65, 256, 1, 65536, 56320>>
ByteAlphabet(enc) ==
    CASE enc = "ascii" -> <<0, 65, 128>>
      [] enc = "latin-1" -> <<0, 65, 255>>
      [] enc \in {"cp500", "cp1252"} -> <<0, 65, 128, 129>>
      [] enc = "utf-8" -> <<0, 65, 128, 195, 240>>
      [] enc = "utf-8-sig" -> <<0, 65, 187, 191, 239>>
      [] enc \in {"utf-16-le", "utf-16-be"} -> <<0, 1, 216, 220>>
      [] OTHER -> <<0, 1, 216>>
TextCases(u) ==
    LET len == IF Thorough THEN 4 ELSE 3
        Texts(enc) == LET s == SetToSeq(SeqsUpTo(Alphabet(enc), len)) IN [i \in 1..Len(s) |-> FD(StrV(s[i]))]
        WithNul(enc) == LET s == SetToSeq(SeqsUpTo(<<0>> \o Alphabet(enc), 2)) IN [i \in 1..Len(s) |-> FD(StrV(s[i]))]
        Raw(enc, n) == LET s == SetToSeq(IF n <= 4 \/ Thorough THEN SeqsUpTo(ByteAlphabet(enc), n)
                                         ELSE Seqs(ByteAlphabet(enc), n)) IN s
        Loads(enc, n) == LET s == Raw(enc, n) IN [i \in 1..Len(s) |-> IF i % 2 = 0 THEN FL(s[i]) ELSE FLX(s[i])]
        Most(enc) == CASE WidthOf(enc) = 1 -> 4 [] WidthOf(enc) = 2 -> (IF Thorough THEN 6 ELSE 4) [] OTHER -> (IF Thorough THEN 8 ELSE 5)
        Sized(enc, n) == Case(StrF(WidthOf(enc) * n, enc, -1), Texts(enc) \o WithNul(enc))
        Padded(enc, n) == Case(StrF(n, enc, 32), Texts(enc))
        SizedL(enc, n) == Case(StrF(n, enc, -1), Loads(enc, n + 1))
        Zd(enc) == Case(ZF(enc), Texts(enc))
        Zl(enc) == Case(ZF(enc), Loads(enc, Most(enc)))
        Zs(enc, n) == Case([ZF(enc) EXCEPT !.size = SizeOf(n * WidthOf(enc))], Texts(enc))
        Zp(enc, n) == Case([ZF(enc) EXCEPT !.size = SizeOf(n * WidthOf(enc)), !.pad = 46], Texts(enc) \o Loads(enc, MinOf(4, n * WidthOf(enc))))
        Bs(n) == Case([RawField EXCEPT !.k = "bytes", !.cname = "Bytes", !.size = SizeOf(n)],
                      Over({BytesV(s) : s \in SeqsUpTo(<<0, 255>>, n + 1)}, FD) \o Over(SeqsUpTo(<<0, 10, 255>>, n + 1), FL))
        Marks == <<"utf-16", "utf-32">>
    IN  Cross(Sized, Encs, <<0, 1, 2, 3>>) \o Cross(Padded, Encs, <<1, 3, 4, 8>>)
        \o Cross(SizedL, <<"ascii", "latin-1", "utf-8", "utf-16-le">>, <<1, 2, 3>>)
        \o [i \in 1..Len(Encs) |-> Zd(Encs[i])] \o [i \in 1..Len(Encs) |-> Zl(Encs[i])] \o Cross(Zs, Encs, <<1, 2, 3>>) \o Cross(Zp, Encs, <<1, 2, 3>>)
        \o [n \in 1..4 |-> Bs(n - 1)]
        \o [i \in 1..2 |-> Case(ZF(Marks[i]), [k \in 1..Len(Texts("utf-16-le")) |-> Texts("utf-16-le")[k]])]
        \o [i \in 1..2 |-> Case(StrF(8, Marks[i], -1), Texts("utf-16-le"))]
        \o <<Zd("utf-8-sig"), Zl("utf-8-sig"), Padded("utf-8-sig", 9), Sized("utf-8-sig", 6), SizedL("utf-8-sig", 4), Zs("utf-8-sig", 5), Zp("utf-8-sig", 5)>>

\* By size; characters one by one.
TextMeaning(f, b, v) ==
    LET RECURSIVE Of(_)
        One(c) == CASE f.enc \in {"ascii", "latin-1"} -> <<c>>
                    [] f.enc = "cp500" /\ c \in {0, 65, 133, 255} -> <<CASE c = 0 -> 0 [] c = 65 -> 193 [] c = 133 -> 21 [] OTHER -> 223>>
                    [] f.enc = "cp1252" /\ c = 8364 -> <<128>>
                    [] f.enc = "cp1252" -> <<c>>
                    [] f.enc \in {"utf-32-le"} -> <<c % 256, (c \div 256) % 256, c \div 65536, 0>>
                    [] f.enc \in {"utf-32-be"} -> <<0, c \div 65536, (c \div 256) % 256, c % 256>>
                    [] f.enc = "utf-16-le" /\ c < 65536 -> <<c % 256, c \div 256>>
                    [] f.enc = "utf-16-be" /\ c < 65536 -> <<c \div 256, c % 256>>
                    [] f.enc = "utf-8" /\ c < 128 -> <<c>>
                    [] f.enc = "utf-8" /\ c = 233 -> <<195, 169>>
                    [] f.enc = "utf-8" /\ c = 8364 -> <<226, 130, 172>>
                    [] f.enc = "utf-8" /\ c = 128512 -> <<240, 159, 152, 128>>
                    [] f.enc = "utf-16-le" /\ c = 65536 -> <<0, 216, 0, 220>>
                    [] f.enc = "utf-16-be" /\ c = 65536 -> <<216, 0, 220, 0>>
        Of(s) == IF s = <<>> THEN <<>> ELSE One(Head(s)) \o Of(Tail(s))
        text == Of(IF f.k = "strz" THEN Append(v.c, 0) ELSE v.c)
    IN  /\ f.fsize >= 0 => Len(b) = f.fsize
        /\ f.enc \notin {"utf-16", "utf-32", "utf-8-sig"} =>
              /\ SubSeq(b, 1, Len(text)) = text
              /\ \A i \in (Len(text) + 1)..Len(b) : b[i] = f.pad

-----------------------------------------------------------------------------
(* C06                                                                        *)

Half(k) == <<k \div 256, k % 256>>
BitOn(d, i) == LET j == (i - 1) \div 8 + 1 IN [d EXCEPT ![j] = @ + 2 ^ (7 - ((i - 1) % 8))]   \* bit that's off
AllOn(d, from) == [j \in 1..8 |-> LET base == 8 * (j - 1) IN
                      IF base + 1 >= from THEN 255
                      ELSE IF base + 8 >= from THEN d[j] + 2 ^ (base + 9 - from) - 1 ELSE d[j]]
FloatCases(u) ==
    LET F(n, e) == [Flt(n).f EXCEPT !.endian = e]
        step == IF Thorough THEN 1 ELSE 8
        per == 256
        Halves(k, e) == Case(F(2, e), [i \in 1..(per \div step) |-> LET b == Half(256 * k + step * (i - 1) + (k % step)) IN
                                            FL(IF e = "little" THEN Rev(b) ELSE b)])
        \* Around the middle between neighbours
        Round(k) == Case(F(2, "big"),
            FlattenSeq([i \in 1..(IF Thorough THEN 64 ELSE 8) |->
                LET p == (1024 * k + (IF Thorough THEN 16 * (i - 1) ELSE <<0, 1, 2, 511, 512, 1021, 1022, 1023>>[i]))
                    d == Widen(Half(p), 2)
                    mid == BitOn(d, 23)
                IN  <<FD(FloatV(d)), FD(FloatV(mid)), FD(FloatV(BitOn(mid, 64))), FD(FloatV(AllOn(d, 24))), FD(FloatV(BitOn(d, 64)))>>]))
        Round32(e, m) == Case(F(4, "big"),
            LET d == <<e \div 16, 16 * (e % 16) + (m \div 16), 16 * (m % 16), 0, 0, 0, 0, 0>>
                odd == [d EXCEPT ![4] = 32 + @]
                full == [d EXCEPT ![2] = @ - (@ % 16) + 15, ![3] = 255, ![4] = 224]
                For(x) == <<FD(FloatV(x)), FD(FloatV(BitOn(x, 36))), FD(FloatV(BitOn(BitOn(x, 36), 64))), FD(FloatV(AllOn(x, 37)))>>
            IN  For(d) \o For(odd) \o For(full))
        Subs == <<997, 998, 999, 1000, 1003, 1008, 1009, 1010, 1038, 1039, 1040, 1041, 873, 874, 875, 896, 897, 898, 1149, 1150, 1151, 1, 2046, 1023>>
        Special(n, e) == Case(F(n, e), [i \in 1..7 |-> FD(FloatV(
            <<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<128, 0, 0, 0, 0, 0, 0, 0>>, <<127, 240, 0, 0, 0, 0, 0, 0>>, <<255, 240, 0, 0, 0, 0, 0, 0>>,
              CanonicalNaN, <<0, 0, 0, 0, 0, 0, 0, 1>>, <<127, 239, 255, 255, 255, 255, 255, 255>>>>[i]))]
            \o LET s == SetToSeq(Seqs(<<0, 1, 127, 128, 255>>, 2)) IN
               [i \in 1..Len(s) |-> FL([k \in 1..n |-> IF k = 1 THEN s[i][1] ELSE IF k = n THEN s[i][2] ELSE 240 - k])]
            \o <<FL([k \in 1..(n - 1) |-> 0]), FL([k \in 1..(n + 1) |-> 0])>>)
        \* Double precision around half's limits: subnormals and overflow
        Edge(e) == Case(F(2, "big"), FlattenSeq([m \in 1..16 |->
            LET d == <<e \div 16, 16 * (e % 16) + (m - 1), 0, 0, 0, 0, 0, 0>> IN
            <<FD(FloatV(d)), FD(FloatV(BitOn(d, 64))), FD(FloatV(AllOn(d, 17)))>>]))
    IN  Cross(Halves, [i \in 1..256 |-> i - 1], <<"big">>) \o [k \in 1..30 |-> Round(k)]
        \o Cross(Round32, Subs, IF Thorough THEN [i \in 1..128 |-> 2 * i - 1] ELSE <<0, 1, 255>>)
        \o Cross(Special, <<2, 4, 8>>, <<"", "big", "little">>)
        \o [i \in 1..31 |-> Edge(995 + i)] \o [i \in 1..4 |-> Edge(1035 + i)]
        \o Cross(Halves, <<3, 60, 124, 200>>, <<"little">>)

\* Among neighbours the nearest, or of two equally near ones the even one. Half
\* precision values are compared by what they are in units of 2^-26, as far as
\* numbers here go.
FloatMeaning(f, b, v) ==
    /\ Len(b) = f.fsize
    /\ LET be == IF f.endian = "big" THEN b ELSE Reverse(b)
           w == Widen(be, f.fsize)
       IN  v.d \notin {CanonicalNaN, OddNaN} =>
             /\ (w[1] >= 128) = (v.d[1] >= 128)                         \* same sign
             /\ Narrow(w, f.fsize).b = be                               \* what's written is exact
             /\ \A i \in 1..8 : f.fsize = 8 => w[i] = v.d[i]

-----------------------------------------------------------------------------
(* C07                                                                        *)

UuidVals == <<[i \in 1..16 |-> i], [i \in 1..16 |-> 256 - i], [i \in 1..16 |-> IF i = 1 THEN 0 ELSE 171], [i \in 1..16 |-> 0],
              [i \in 1..16 |-> 17 * (i - 1)], [i \in 1..16 |-> IF i % 2 = 0 THEN 0 ELSE 250]>>
UuidCases(u) ==
    LET Up(b) == [i \in 1..Len(b) |-> IF b[i] >= 97 /\ b[i] <= 102 THEN b[i] - 32 ELSE b[i]]
        Make(fmt) == Case(Uuid(fmt).f,
            [i \in 1..Len(UuidVals) |-> FD([t |-> "uuid", u |-> UuidVals[i]])]
            \o FlattenSeq([i \in 1..Len(UuidVals) |-> LET b == UuidEnc(UuidVals[i], fmt) IN
                <<FL(b), FL(b \o <<48>>), FLX(b \o <<48>>), FL(SubSeq(b, 1, Len(b) - 1)), FLS(<<1, 2>> \o b \o <<3>>, 2)>>
                \o (IF fmt \in {"canonical_string", "hex_string"} THEN <<FL(Up(b))>> ELSE <<>>)]))
        fmts == <<"binary_var_1", "binary_var_2", "canonical_string", "hex_string">>
    IN  [i \in 1..4 |-> Make(fmts[i])]
TimeCases(u) ==
    LET Zones == Map_(IF Thorough THEN <<0, 3600, -18000, 20700, -12601, 50400, 1>> ELSE <<0, 3600, -16200, 20705>>, Zone)
        Days == <<0, 1, -1, 10000, -10000, 24855, 24856, -24855, -24856, 49710, 49711, 106751, 2000000, -600000>>
        Secs == <<0, 1, 43200, 86399>>
        Mics(res) == CASE res = "s" -> <<0, 1, 999999>> [] res = "ms" -> <<0, 1000, 999, 999999>> [] OTHER -> <<0, 1, 999999, 500000>>
        Offs(aware) == IF aware THEN <<0, 3600, -86340, 19815>> ELSE <<0>>
        Instants(res, aware, day) ==
            LET s == Cross(LAMBDA x, y : <<x, y>>, Secs, Mics(res)) IN
            FlattenSeq([i \in 1..Len(s) |-> [k \in 1..Len(Offs(aware)) |->
                FD(DateV(day, s[i][1], s[i][2], Offs(aware)[k], aware))]])
        Forms == <<<<4, "s", TRUE>>, <<4, "s", FALSE>>, <<8, "ms", TRUE>>, <<8, "us", TRUE>>, <<12, "ns", TRUE>>, <<8, "ns", FALSE>>, <<5, "ms", FALSE>>>>
        Dumped(k, tz) == CaseP([TsF(k[1], k[2], TRUE) EXCEPT !.signed = k[3]], tz,
            FlattenSeq([i \in 1..Len(Days) |-> LET s == Instants(k[2], i % 2 = 0, Days[i]) IN
                        IF Thorough THEN s ELSE SelectSeq(s, LAMBDA e : (e.v[1].sec + e.v[1].us + i) % 3 # 1)]))
        Counts == NearAll(<<1, 10, 30, 31, 32, 33, 40, 50, 56, 62, 63>>)
        Loaded(k, tz) ==
            LET ints == SelectSeq(Counts, LAMBDA v : FixedFits(v, k[1], k[3])) IN
            CaseP([TsF(k[1], k[2], tz.off % 2 = 0) EXCEPT !.signed = k[3]], tz,
                  [i \in 1..Len(ints) |-> FL(FixedEnc(ints[i], k[1], "little"))])
        \* when clocks change
        Summers == <<Summer(3600, 7200, 85, 300), Summer(-18000, -14400, 72, 308), Summer(36000, 37800, 280, 95)>>
        Days_(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
        Changes(tz) == SelectSeq(Days_(-1000, 1000), LAMBDA d : DayOfYear(d) \in {tz.on, tz.until}) \o
                       SelectSeq(Days_(19000, 20000), LAMBDA d : DayOfYear(d) \in {tz.on, tz.until}) \o
                       SelectSeq(Days_(-200400, -200000), LAMBDA d : DayOfYear(d) \in {tz.on, tz.until})
        Shown == <<0, 3599, 3600, 5400, 7199, 7200, 9000, 10799, 10800, 86399>>
        Changing(k, tz) == CaseP([TsF(k[1], k[2], FALSE) EXCEPT !.signed = k[3]], tz,
            FlattenSeq(Cross(LAMBDA d, s : <<FD(DateV(d, s, 0, 0, FALSE)), FD([DateV(d, s, 999999, 0, FALSE) EXCEPT !.fold = 1])>>, Changes(tz), Shown)))
        Passing(k, tz) ==       \* the same instants
            LET Time(d, s) == UnitsOf(DateV(d, s, 0, 0, TRUE), tz, k[2])
                ints == SelectSeq(Cross(LAMBDA d, s : Time(d, s - tz.off), Changes(tz), <<0, 3599, 3600, 5400, 5399, 7199, 7200, 8999, 9000, 10799, 10800>>),
                                  LAMBDA v : FixedFits(v, k[1], k[3])) IN
            CaseP([TsF(k[1], k[2], FALSE) EXCEPT !.signed = k[3]], tz, [i \in 1..Len(ints) |-> FL(FixedEnc(ints[i], k[1], "little"))])
        Few == IF Thorough THEN Forms ELSE <<Forms[1], Forms[5]>>
    IN  Cross(Dumped, Forms, Zones) \o Cross(Loaded, Forms, Zones) \o Cross(Changing, Few, Summers) \o Cross(Passing, Few, Summers)

\* Seconds since the epoch, where they're few enough.
TimeMeaning(f, b, v, tz) ==
    /\ Len(b) = f.fsize
    /\ (f.res = "s" /\ v.day >= -24000 /\ v.day <= 24000) =>
          LET x == FixedDec(b, f.signed, f.endian)
              Then(o) == 86400 * v.day + v.sec - o
              \* instants at which the clock shows v
              all == IF v.aware THEN {Then(v.off)} ELSE {Then(o) : o \in {p \in {tz.off, tz.dst} : Ahead(tz, Then(p) \div 86400, Then(p) % 86400) = p}}
              total == CHOOSE t \in all : \A u \in all : IF v.fold = 0 THEN t <= u ELSE t >= u
              s == IF total < 0 /\ v.us > 0 THEN total + 1 ELSE total
              \* in two parts, as numbers here are small
              RECURSIVE Sum(_)
              Sum(i) == IF i = 0 THEN 0 ELSE x.m[Len(x.m) - i + 1] * 256 ^ (Len(x.m) - i) + Sum(i - 1)
          IN  Len(x.m) <= 3 \/ x.m[4] < 127 => (IF x.n THEN -Sum(Len(x.m)) ELSE Sum(Len(x.m))) = s

-----------------------------------------------------------------------------
CasesOf(prop) ==
    CASE prop = "C03" -> IntCases(0)
      [] prop = "C04" -> VarCases(0)
      [] prop = "C05" -> TextCases(0)
      [] prop = "C06" -> FloatCases(0)
      [] prop = "C07" -> UuidCases(0) \o TimeCases(0)
      [] OTHER -> <<>>

\* What holds of an event of a case, and its outcome.
Meaning(P, f, b, v) ==
    CASE f.k = "int" -> IntMeaning(f, b, v)
      [] f.k = "vint" -> VarMeaning(f, b, v)
      [] f.k \in {"str", "strz"} -> TextMeaning(f, b, v)
      [] f.k = "bytes" -> v.b = b /\ Len(b) = f.fsize
      [] f.k = "float" -> FloatMeaning(f, b, v)
      [] f.k = "uuid" -> Len(b) = f.fsize
      [] f.k = "ts" -> TimeMeaning(f, b, v, P.tz)
Env0 == MapEnv(EmptyMap)
\* The value loaded from what v was written as.
Returned(P, f, v) ==
    CASE f.k = "float" -> FloatV(Widen(Narrow(v.d, f.fsize).b, f.fsize))
      [] f.k = "ts" -> FromUnits(UnitsOf(v, P.tz, f.res), P.tz, f.res, f.aware).v
      [] f.k = "str" /\ f.pad # -1 ->
            StrV(Decode(f.enc, Encode(f.enc, v.c) \o [i \in 1..(f.fsize - Len(Encode(f.enc, v.c))) |-> f.pad]).c)
      [] OTHER -> v
Dumpable(f, v) ==
    CASE f.k = "int" -> IntFits(f, v)
      [] f.k = "vint" -> (f.fmt \in {"leb128", "compact"} \/ ~v.n)
                            /\ (f.maxb >= 0 => 7 * f.maxb - (IF f.fmt = "compact" THEN 1 ELSE 0) >= BitLen(v.m) + (IF f.fmt = "leb128" /\ v.m # <<>> THEN 1 ELSE 0))
      [] f.k = "bytes" -> Len(v.b) = f.fsize
      [] OTHER -> FALSE
CaseHolds(P, ev) ==
    LET f == Fields(P, 1)[1] IN
    CASE ev.op = "fdump" ->
            LET v == ev.v[1]
                x == DumpField(P, f, v, 0, Env0)
                l == LoadField(P, f, x.b, 0, 0, Env0)
                m == LoadField(P, f, <<1>> \o x.b \o <<0, 255>>, 1, 0, Env0)
            IN  /\ f.k \in {"int", "vint", "bytes"} => (x.r = "ok") = Dumpable(f, v)
                /\ (f.k = "strz" /\ \E i \in 1..Len(v.c) : v.c[i] = 0) \/
                   (x.r = "ok" => /\ Meaning(P, f, x.b, v)
                                  /\ f.k = "vint" => Shortest(f, x.b, v)
                                  /\ (l.r = "ok" => l.v = Returned(P, f, v) /\ l.p = Len(x.b))
                                  /\ (l.r # "ok" => f.k \in {"str", "strz"} /\ f.pad # -1)
                                  /\ (m.r = "ok" => m.v = l.v /\ m.p = l.p + 1))
      [] ev.op = "fload" ->
            LET x == LoadField(P, f, ev.b, 0, 0, Env0)
                d == DumpField(P, f, x.v, 0, Env0)
                o == LoadField(P, f, SubSeq(ev.b, 1, Len(ev.b) - 1), 0, 0, Env0)
            IN  /\ x.r = "ok" =>
                      /\ f.k \in {"int", "bytes"} => d = OkB(SubSeq(ev.b, 1, x.p)) /\ Meaning(P, f, d.b, x.v)
                      /\ f.k = "vint" /\ f.maxb < 0 => d.r = "ok" /\ Len(d.b) <= x.p + (IF f.fmt = "leb128" /\ x.v.n THEN 1 ELSE 0) /\ Meaning(P, f, SubSeq(ev.b, 1, x.p), x.v)
                      /\ f.k = "float" /\ x.v.d # OddNaN => d = OkB(SubSeq(ev.b, 1, x.p)) \/ x.v.d = CanonicalNaN
                      /\ f.k = "strz" /\ f.fsize < 0 /\ f.enc \notin {"utf-16", "utf-32", "utf-8-sig"} => d = OkB(SubSeq(ev.b, 1, x.p))
                      /\ f.k = "str" /\ Mark(f.enc) = <<>> => d = OkB(SubSeq(ev.b, 1, x.p)) /\ x.p = f.fsize
                      /\ f.k = "ts" => LET i == FixedDec(ev.b, f.signed, f.endian)
                                           k == UnitsOf(x.v, P.tz, f.res)
                                       IN  i = k \/ f.res = "ns"
                \* nothing can be left out
                /\ (x.r = "ok" /\ x.p = Len(ev.b) /\ ev.b # <<>>) => o.r # "ok"
      [] OTHER -> TRUE
=============================================================================
