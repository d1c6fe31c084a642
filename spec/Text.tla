-------------------------------- MODULE Text --------------------------------
(* Text encodings: between sequences of code points and sequences of bytes.   *)
EXTENDS Integers, Sequences, SequencesExt

IsSurrogate(c) == c >= 55296 /\ c <= 57343

Unit16(u, be) == IF be THEN <<u \div 256, u % 256>> ELSE <<u % 256, u \div 256>>
Unit32(u, be) == LET l == <<u % 256, (u \div 256) % 256, u \div 65536, 0>>
                 IN  IF be THEN <<l[4], l[3], l[2], l[1]>> ELSE l

Utf8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Utf16(c, be) ==
    IF c < 65536 THEN Unit16(c, be)
    ELSE Unit16(55296 + (c - 65536) \div 1024, be) \o Unit16(56320 + ((c - 65536) % 1024), be)

\* Code pages: what the bytes from 0 (or 128, respectively) mean.
Cp500 == <<
    0, 1, 2, 3, 156, 9, 134, 127, 151, 141, 142, 11, 12, 13, 14, 15,
    16, 17, 18, 19, 157, 133, 8, 135, 24, 25, 146, 143, 28, 29, 30, 31,
    128, 129, 130, 131, 132, 10, 23, 27, 136, 137, 138, 139, 140, 5, 6, 7,
    144, 145, 22, 147, 148, 149, 150, 4, 152, 153, 154, 155, 20, 21, 158, 26,
    32, 160, 226, 228, 224, 225, 227, 229, 231, 241, 91, 46, 60, 40, 43, 33,
    38, 233, 234, 235, 232, 237, 238, 239, 236, 223, 93, 36, 42, 41, 59, 94,
    45, 47, 194, 196, 192, 193, 195, 197, 199, 209, 166, 44, 37, 95, 62, 63,
    248, 201, 202, 203, 200, 205, 206, 207, 204, 96, 58, 35, 64, 39, 61, 34,
    216, 97, 98, 99, 100, 101, 102, 103, 104, 105, 171, 187, 240, 253, 254, 177,
    176, 106, 107, 108, 109, 110, 111, 112, 113, 114, 170, 186, 230, 184, 198, 164,
    181, 126, 115, 116, 117, 118, 119, 120, 121, 122, 161, 191, 208, 221, 222, 174,
    162, 163, 165, 183, 169, 167, 182, 188, 189, 190, 172, 124, 175, 168, 180, 215,
    123, 65, 66, 67, 68, 69, 70, 71, 72, 73, 173, 244, 246, 242, 243, 245,
    125, 74, 75, 76, 77, 78, 79, 80, 81, 82, 185, 251, 252, 249, 250, 255,
    92, 247, 83, 84, 85, 86, 87, 88, 89, 90, 178, 212, 214, 210, 211, 213,
    48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 179, 219, 220, 217, 218, 159>>
Cp1252 == <<
    8364, -1, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, -1, 381, -1,
    -1, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, -1, 382, 376>>
Cp500Of == [c \in 0..255 |-> (CHOOSE i \in 1..256 : Cp500[i] = c) - 1]
InCp1252 == {i \in 1..32 : Cp1252[i] # -1}

Encodable(enc, c) ==
    CASE enc = "ascii" -> c < 128
      [] enc \in {"latin-1", "cp500"} -> c < 256
      [] enc = "cp1252" -> c < 128 \/ c \in 160..255 \/ \E i \in InCp1252 : Cp1252[i] = c
      [] OTHER -> ~IsSurrogate(c)

EncodeChar(enc, c) ==
    CASE enc \in {"ascii", "latin-1"} -> <<c>>
      [] enc = "cp500" -> <<Cp500Of[c]>>
      [] enc = "cp1252" -> IF c < 256 /\ c \notin 128..159 THEN <<c>> ELSE <<127 + CHOOSE i \in InCp1252 : Cp1252[i] = c>>
      [] enc \in {"utf-8", "utf-8-sig"} -> Utf8(c)
      [] enc = "utf-16-be" -> Utf16(c, TRUE)
      [] enc \in {"utf-16-le", "utf-16"} -> Utf16(c, FALSE)
      [] enc = "utf-32-be" -> Unit32(c, TRUE)
      [] enc \in {"utf-32-le", "utf-32"} -> Unit32(c, FALSE)

\* The byte order mark written by codecs that don't name a byte order (the
\* machine is little-endian).
Mark(enc) == CASE enc = "utf-8-sig" -> <<239, 187, 191>>
               [] enc = "utf-16" -> <<255, 254>>
               [] enc = "utf-32" -> <<255, 254, 0, 0>>
               [] OTHER -> <<>>

CanEncode(enc, cs) == \A i \in 1..Len(cs) : Encodable(enc, cs[i])
Encode(enc, cs) == Mark(enc) \o FlattenSeq([i \in 1..Len(cs) |-> EncodeChar(enc, cs[i])])

-----------------------------------------------------------------------------
(* Decoding one character of s at index i; only indices up to e exist.        *)
(* The result is <<status, code point, bytes used>> where status is "ok",     *)
(* "bad" or "short" (what there is could be completed to a character).        *)

Ok(c, k) == <<"ok", c, k>>
Bad == <<"bad", 0, 0>>
Short == <<"short", 0, 0>>

Utf8At(s, i, e) ==
    LET a == s[i]
        Cont(j, lo, hi) == IF j > e THEN "short" ELSE IF s[j] >= lo /\ s[j] <= hi THEN "ok" ELSE "bad"
        Second == CASE a = 224 -> Cont(i + 1, 160, 191)
                    [] a = 237 -> Cont(i + 1, 128, 159)
                    [] a = 240 -> Cont(i + 1, 144, 191)
                    [] a = 244 -> Cont(i + 1, 128, 143)
                    [] OTHER   -> Cont(i + 1, 128, 191)
        Third == Cont(i + 2, 128, 191)
        Fourth == Cont(i + 3, 128, 191)
    IN  IF a < 128 THEN Ok(a, 1)
        ELSE IF a < 194 \/ a > 244 THEN Bad
        ELSE IF Second # "ok" THEN <<Second, 0, 0>>
        ELSE IF a < 224 THEN Ok((a - 192) * 64 + s[i + 1] - 128, 2)
        ELSE IF Third # "ok" THEN <<Third, 0, 0>>
        ELSE IF a < 240
             THEN Ok((a - 224) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128, 3)
        ELSE IF Fourth # "ok" THEN <<Fourth, 0, 0>>
        ELSE Ok((a - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + s[i + 3] - 128, 4)

Utf16At(s, i, e, be) ==
    LET U(j) == IF be THEN s[j] * 256 + s[j + 1] ELSE s[j] + s[j + 1] * 256 IN
    IF i + 1 > e THEN Short
    ELSE IF ~IsSurrogate(U(i)) THEN Ok(U(i), 2)
    ELSE IF U(i) >= 56320 THEN Bad
    ELSE IF i + 3 > e THEN Short
    ELSE IF U(i + 2) >= 56320 /\ U(i + 2) <= 57343
         THEN Ok(65536 + (U(i) - 55296) * 1024 + U(i + 2) - 56320, 4)
    ELSE Bad

Utf32At(s, i, e, be) ==
    IF i + 3 > e THEN Short
    ELSE LET hi == IF be THEN s[i] ELSE s[i + 3]
             v  == IF be THEN s[i + 1] * 65536 + s[i + 2] * 256 + s[i + 3]
                         ELSE s[i + 2] * 65536 + s[i + 1] * 256 + s[i]
         IN  IF hi # 0 \/ v > 1114111 \/ IsSurrogate(v) THEN Bad ELSE Ok(v, 4)

CharAt(enc, s, i, e) ==
    CASE enc = "ascii" -> IF s[i] < 128 THEN Ok(s[i], 1) ELSE Bad
      [] enc = "latin-1" -> Ok(s[i], 1)
      [] enc = "cp500" -> Ok(Cp500[s[i] + 1], 1)
      [] enc = "cp1252" -> IF s[i] \notin 128..159 THEN Ok(s[i], 1)
                           ELSE IF (s[i] - 127) \in InCp1252 THEN Ok(Cp1252[s[i] - 127], 1) ELSE Bad
      [] enc = "utf-8" -> Utf8At(s, i, e)
      [] enc = "utf-16-be" -> Utf16At(s, i, e, TRUE)
      [] enc = "utf-16-le" -> Utf16At(s, i, e, FALSE)
      [] enc = "utf-32-be" -> Utf32At(s, i, e, TRUE)
      [] enc = "utf-32-le" -> Utf32At(s, i, e, FALSE)

\* What a byte order mark at index i selects: <<encoding, bytes used>>, with
\* encoding "" if there is none, or "short".
Marked(enc, s, i, e) ==
    IF enc = "utf-16" THEN
        IF i + 1 > e THEN <<"short", 0>>
        ELSE IF s[i] = 255 /\ s[i + 1] = 254 THEN <<"utf-16-le", 2>>
        ELSE IF s[i] = 254 /\ s[i + 1] = 255 THEN <<"utf-16-be", 2>>
        ELSE <<"", 0>>
    ELSE IF enc = "utf-32" THEN
        IF i + 3 > e THEN <<"short", 0>>
        ELSE IF s[i] = 255 /\ s[i + 1] = 254 /\ s[i + 2] = 0 /\ s[i + 3] = 0 THEN <<"utf-32-le", 4>>
        ELSE IF s[i] = 0 /\ s[i + 1] = 0 /\ s[i + 2] = 254 /\ s[i + 3] = 255 THEN <<"utf-32-be", 4>>
        ELSE <<"", 0>>
    ELSE IF enc = "utf-8-sig" THEN      \* optional
        <<"utf-8", IF i + 2 <= e /\ SubSeq(s, i, i + 2) = <<239, 187, 191>> THEN 3 ELSE 0>>
    ELSE <<enc, 0>>

NativeOf(enc) == CASE enc = "utf-16" -> "utf-16-le" [] enc = "utf-32" -> "utf-32-le" [] OTHER -> enc

\* All of b: [ok, c]
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(enc, b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, c |-> acc]
    ELSE LET x == CharAt(enc, b, i, Len(b)) IN
         IF x[1] = "ok" THEN DecodeFrom(enc, b, i + x[3], Append(acc, x[2]))
         ELSE [ok |-> FALSE, c |-> <<>>]

Decode(enc, b) ==
    LET k == Marked(enc, b, 1, Len(b)) IN
    IF k[1] \in {"", "short"} THEN DecodeFrom(NativeOf(enc), b, 1, <<>>)
    ELSE DecodeFrom(k[1], b, 1 + k[2], <<>>)

\* Characters from index i up to a null, not going past index e:
\* [st, c, i] with st "ok" (i is the index after the null), "bad" or "short".
RECURSIVE ToNullFrom(_, _, _, _, _)
ToNullFrom(enc, s, i, e, acc) ==
    IF i > e THEN [st |-> "short", c |-> <<>>, i |-> i]
    ELSE LET x == CharAt(enc, s, i, e) IN
         IF x[1] # "ok" THEN [st |-> x[1], c |-> <<>>, i |-> i]
         ELSE IF x[2] = 0 THEN [st |-> "ok", c |-> acc, i |-> i + x[3]]
         ELSE ToNullFrom(enc, s, i + x[3], e, Append(acc, x[2]))

ToNull(enc, s, i, e) ==
    LET k == Marked(enc, s, i, e) IN
    IF k[1] = "short" THEN [st |-> "short", c |-> <<>>, i |-> i]
    ELSE IF k[1] = "" THEN [st |-> "bad", c |-> <<>>, i |-> i]
    ELSE ToNullFrom(k[1], s, i + k[2], e, <<>>)
=============================================================================
