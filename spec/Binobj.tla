------------------------------- MODULE Binobj -------------------------------
(* Fields and structures of binobj: what is serialised and what is loaded.    *)
(*                                                                            *)
(* P is the program: P.cs is the sequence of its resolved classes and P.tz    *)
(* how far the local clock is ahead of UTC. Values are records with a type t: *)
(*   int, bytes, str (code points), float, uuid, dt, list, iter (an iterable  *)
(*   without a length), struct (class and the values that are set, as pairs   *)
(*   <<name, value>> in declaration order), dict, none, np (the not-present   *)
(*   marker), undef (no value).                                               *)
(* Streams are sequences of bytes and positions count from zero.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Num, Text, Float, Codec

NoneV == [t |-> "none"]
NP    == [t |-> "np"]
Undef == [t |-> "undef"]

OkV(v, p) == [r |-> "ok", v |-> v, p |-> p]
OkB(b)    == [r |-> "ok", b |-> b]
Err(e)    == [r |-> "err", e |-> e]
Err1(cls, fld) == Err({<<cls, fld>>})
AnyError  == Err1("*", "")
Unspecified       == [r |-> "any"]              \* the specification says nothing

EmptyMap == [n \in {} |-> NoneV]
MapOf(pairs) == [n \in {pairs[i][1] : i \in 1..Len(pairs)} |->
                   pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = n][2]]
Put(m, n, v) == [x \in DOMAIN m \cup {n} |-> IF x = n THEN v ELSE m[x]]
Without(m, ns) == [x \in DOMAIN m \ ns |-> m[x]]

\* Values looked up by the functions given to fields: those of an instance
\* (which fall back on defaults) or the ones in a dict.
MapEnv(m) == [self |-> 0, m |-> m]
SelfEnv(c, m) == [self |-> c, m |-> m]

Fields(P, c) == P.cs[c].fields
Names(P, c) == {Fields(P, c)[i].name : i \in 1..Len(Fields(P, c))}
FieldAt(P, c, n) == Fields(P, c)[CHOOSE i \in 1..Len(Fields(P, c)) : Fields(P, c)[i].name = n]
IndexOf(P, c, n) == CHOOSE i \in 1..Len(Fields(P, c)) : Fields(P, c)[i].name = n

\* The pairs of map m in declaration order.
Pairs(P, c, m) ==
    LET fs == SelectSeq(Fields(P, c), LAMBDA f : f.name \in DOMAIN m)
    IN  [i \in 1..Len(fs) |-> <<fs[i].name, m[fs[i].name]>>]
StructV(P, c, m) == [t |-> "struct", c |-> c, f |-> Pairs(P, c, m)]

IsInt(v) == v.t = "int"

\* The last eight bits of integer v in two's complement.
LowBits(v) == LET b == IF v.m = <<>> THEN 0 ELSE v.m[1] IN IF v.n THEN (256 - b) % 256 ELSE b

Mask(a, b) ==           \* bitwise and of small naturals
    LET RECURSIVE And(_, _)
        And(x, y) == IF x = 0 \/ y = 0 THEN 0
                     ELSE (x % 2) * (y % 2) + 2 * And(x \div 2, y \div 2)
    IN  And(a, b)

-----------------------------------------------------------------------------
(* Validators                                                                 *)

LenOf(v) == CASE v.t = "bytes" -> Len(v.b) [] v.t = "str" -> Len(v.c) [] v.t = "list" -> Len(v.e)
              [] OTHER -> -1

Passes(k, v) ==
    CASE k.m = "nonnull" -> v.t # "none"
      [] k.m = "le" -> IsInt(v) => Small(v) <= k.n
      [] k.m = "ge" -> IsInt(v) => Small(v) >= k.n
      [] k.m = "ne" -> IsInt(v) => Small(v) # k.n
      [] k.m = "maxlen" -> LenOf(v) <= k.n
      [] k.m = "minlen" -> LenOf(v) = -1 \/ LenOf(v) >= k.n
      [] k.m = "never" -> FALSE

AllPass(ks, v) == \A i \in 1..Len(ks) : Passes(ks[i], v)

-----------------------------------------------------------------------------
(* Where the value of a field comes from                                      *)

DefaultOf(f) == IF f.fct # <<>> THEN f.fct[1]
                ELSE IF f.dflt # <<>> THEN f.dflt[1]
                ELSE IF f.const # <<>> THEN f.const[1]
                ELSE Undef

RECURSIVE Look(_, _, _), Refers(_, _, _), ValueFor(_, _, _, _), Compute(_, _, _), Present(_, _, _, _)

\* env[n]
Look(P, env, n) ==
    IF n \in DOMAIN env.m THEN OkV(env.m[n], 0)
    ELSE IF env.self = 0 THEN AnyError
    ELSE ValueFor(P, FieldAt(P, env.self, n), env, 0)

\* env[k.r], or a field of the structure that is
Refers(P, env, k) ==
    LET x == Look(P, env, k.r) IN
    IF "s" \notin DOMAIN k \/ x.r # "ok" THEN x
    ELSE IF x.v.t = "dict"
         THEN IF k.s \in DOMAIN MapOf(x.v.f) THEN OkV(MapOf(x.v.f)[k.s], 0) ELSE AnyError
    ELSE IF x.v.t = "struct" THEN Look(P, SelfEnv(x.v.c, MapOf(x.v.f)), k.s)
    ELSE AnyError

Compute(P, k, env) ==
    IF k.m = "const" THEN OkV(IntV(k.n), 0)
    ELSE LET x == Refers(P, env, k) IN
         IF x.r # "ok" THEN x
         ELSE IF k.m = "copy" THEN x
         ELSE IF k.m = "len" /\ LenOf(x.v) >= 0 THEN OkV(IntV(LenOf(x.v) + k.n), 0)
         ELSE IF k.m = "sum" /\ x.v.t \in {"list", "iter"} /\ \A i \in 1..Len(x.v.e) : IsInt(x.v.e[i])
              THEN OkV(IntV(FoldLeft(LAMBDA a, e : a + Small(e), 0, x.v.e)), 0)
         ELSE AnyError

\* OkV(TRUE / FALSE) or the error the condition fails with.
Present(P, k, env, ctx) ==
    CASE k.m = "always" \/ k.m = "more" -> OkV(TRUE, 0)
      [] k.m = "ctx" -> OkV(Mask(ctx, k.n) # 0, 0)
      [] OTHER ->
            LET x == Refers(P, env, k) IN
            IF x.r # "ok" THEN x
            ELSE IF ~IsInt(x.v) THEN AnyError
            ELSE CASE k.m = "bit" -> OkV(Mask(LowBits(x.v), k.n) # 0, 0)
                   [] k.m = "nobit" -> OkV(Mask(LowBits(x.v), k.n) = 0, 0)
                   [] k.m = "eq" -> OkV(Small(x.v) = k.n, 0)
                   [] k.m = "ne" -> OkV(Small(x.v) # k.n, 0)

ValueFor(P, f, env, ctx) ==
    LET v == IF f.name \in DOMAIN env.m THEN OkV(env.m[f.name], 0)
             ELSE IF DefaultOf(f) # Undef THEN OkV(DefaultOf(f), 0)
             ELSE IF f.cfn.m # "no" THEN Compute(P, f.cfn, env)
             ELSE OkV(Undef, 0)
    IN  IF v.r # "ok" THEN v
        ELSE IF v.v = NP THEN OkV(NP, 0)
        ELSE LET p == Present(P, f.pres, env, ctx) IN
             IF p.r # "ok" THEN p
             ELSE IF ~p.v THEN OkV(NP, 0)
             ELSE IF v.v = Undef THEN Err1("MissingRequiredValueError", f.name)
             ELSE v

\* Reading obj.n
Read(P, c, m, n) == Look(P, SelfEnv(c, m), n)

-----------------------------------------------------------------------------
(* Conversion to mappings                                                     *)

\* All values there are, and can be computed, for the fields of an instance.
Available(P, c, m, ctx) ==
    LET env == SelfEnv(c, m)
        fs  == Fields(P, c)
        val == [i \in 1..Len(fs) |-> ValueFor(P, fs[i], env, ctx)]
        has == {i \in 1..Len(fs) : val[i].r = "ok" \/ fs[i].name \in DOMAIN m}
    IN  [n \in {fs[i].name : i \in has} |->
            LET i == CHOOSE j \in has : fs[j].name = n
            IN  IF val[i].r = "ok" THEN val[i].v ELSE m[n]]

\* A function given by the user fails with an error of its own: that's passed on,
\* but it isn't said by which operations.
Opaque(P, c, m, ctx) ==
    \E i \in 1..Len(Fields(P, c)) :
        LET f == Fields(P, c)[i] IN f.name \notin DOMAIN m /\ ValueFor(P, f, SelfEnv(c, m), ctx) = AnyError

RECURSIVE ToDict(_, _, _, _, _), Dictify(_, _, _, _), DictifyPairs(_, _, _, _, _), DictifySeq(_, _, _, _, _)

DictifyPairs(P, ps, keep, ctx, i) ==
    IF i > Len(ps) THEN OkV(<<>>, 0)
    ELSE LET x == Dictify(P, ps[i][2], keep, ctx) IN
         IF x.r # "ok" THEN x
         ELSE LET y == DictifyPairs(P, ps, keep, ctx, i + 1) IN
              IF y.r # "ok" THEN y ELSE OkV(<<<<ps[i][1], x.v>>>> \o y.v, 0)

DictifySeq(P, s, keep, ctx, i) ==
    IF i > Len(s) THEN OkV(<<>>, 0)
    ELSE LET x == Dictify(P, s[i], keep, ctx) IN
         IF x.r # "ok" THEN x
         ELSE LET y == DictifySeq(P, s, keep, ctx, i + 1) IN
              IF y.r # "ok" THEN y ELSE OkV(<<x.v>> \o y.v, 0)

Dictify(P, v, keep, ctx) ==
    CASE v.t = "struct" -> ToDict(P, v.c, MapOf(v.f), keep, ctx)
      [] v.t = "dict" -> LET x == DictifyPairs(P, v.f, keep, ctx, 1)
                         IN  IF x.r = "ok" THEN OkV([t |-> "dict", f |-> x.v], 0) ELSE x
      [] v.t = "list" -> LET x == DictifySeq(P, v.e, keep, ctx, 1)
                         IN  IF x.r = "ok" THEN OkV([t |-> "list", e |-> x.v], 0) ELSE x
      [] OTHER -> OkV(v, 0)

ToDict(P, c, m, keep, ctx) ==
    LET av    == Available(P, c, m, ctx)
        env   == SelfEnv(c, m)
        fs    == SelectSeq(Fields(P, c), LAMBDA f : keep \/ ~f.disc)
        lacks == {i \in 1..Len(fs) : fs[i].name \notin DOMAIN av}
    IN  IF Opaque(P, c, m, ctx) THEN Unspecified
        ELSE IF lacks # {}
        THEN ValueFor(P, fs[CHOOSE i \in lacks : \A j \in lacks : i <= j], env, ctx)
        ELSE LET x == DictifyPairs(P, [i \in 1..Len(fs) |-> <<fs[i].name, av[fs[i].name]>>], keep, ctx, 1)
             IN  IF x.r = "ok" THEN OkV([t |-> "dict", f |-> x.v], 0) ELSE x

-----------------------------------------------------------------------------
(* Equality: of the defined values, converted to mappings                     *)

RECURSIVE Canon(_), HasOdd(_)
Canon(v) == CASE v.t = "dict" -> [t |-> "cdict", s |-> {<<v.f[i][1], Canon(v.f[i][2])>> : i \in 1..Len(v.f)}]
              [] v.t = "list" -> [t |-> "list", e |-> [i \in 1..Len(v.e) |-> Canon(v.e[i])]]
              [] v.t = "dt" /\ v.aware -> [t |-> "instant", k |-> MicrosOf(v, <<>>)]
              [] v.t = "dt" -> [v EXCEPT !.fold = 0]
              [] v.t = "float" -> IF Tail(v.d) = Zeros(7) /\ v.d[1] = 128 THEN [v EXCEPT !.d[1] = 0] ELSE v
              [] OTHER -> v
HasOdd(v) == CASE v.t = "dict" -> \E i \in 1..Len(v.f) : HasOdd(v.f[i][2])
               [] v.t = "list" -> \E i \in 1..Len(v.e) : HasOdd(v.e[i])
               [] v.t = "iter" -> TRUE
               [] v.t = "float" -> v.d \in {CanonicalNaN, OddNaN}
               [] OTHER -> FALSE

\* For a structure only the values that are set count, for the structures in it
\* also defaults and computed ones. The values are not looked at in any given
\* order, so any of several errors may be reported.
Comparable(P, v) ==
    LET x == [i \in 1..Len(v.f) |-> Dictify(P, v.f[i][2], FALSE, 0)]
        bad == {i \in 1..Len(v.f) : x[i].r # "ok"}
    IN  IF bad = {} THEN OkV([t |-> "dict", f |-> [i \in 1..Len(v.f) |-> <<v.f[i][1], x[i].v>>]], 0)
        ELSE IF \E i \in bad : x[i].r = "any" THEN Unspecified
        ELSE Err(UNION {x[i].e : i \in bad})

\* Not-a-number, and what has no equality of its own, may be equal to itself or
\* not, depending on its identity.
Equal(P, a, b) ==
    LET x == Comparable(P, a)
        y == Comparable(P, b)
    IN  IF x.r # "ok" THEN x ELSE IF y.r # "ok" THEN y
        ELSE IF Canon(x.v) # Canon(y.v) THEN OkV(FALSE, 0)
        ELSE IF HasOdd(x.v) THEN Unspecified
        ELSE OkV(TRUE, 0)

\* Equality of any two values. Of structures, if there are any, it is loaded
\* values and constants that are compared.
RECURSIVE Alike(_, _, _)
Alike(P, a, b) ==
    CASE a.t = "list" /\ b.t = "list" ->
            LET x == [i \in 1..MinOf(Len(a.e), Len(b.e)) |-> Alike(P, a.e[i], b.e[i])] IN
            IF Len(a.e) # Len(b.e) THEN OkV(FALSE, 0)
            ELSE IF \E i \in 1..Len(x) : x[i].r # "ok" THEN Unspecified
            ELSE OkV(\A i \in 1..Len(x) : x[i].v, 0)
      [] a.t \in {"struct", "dict"} /\ b.t \in {"struct", "dict"} -> Equal(P, a, b)
      [] OTHER -> IF HasOdd(a) \/ HasOdd(b) THEN OkV(FALSE, 0) ELSE OkV(Canon(a) = Canon(b), 0)

-----------------------------------------------------------------------------
(* The validators of a structure: the errors they can fail with               *)

Validate(P, c, m) ==
    LET fs == Fields(P, c)
        FErr(i) ==
            LET x == Read(P, c, m, fs[i].name) IN
            IF x.r # "ok" THEN x.e
            ELSE IF x.v = NP THEN {}
            ELSE IF AllPass(fs[i].vals, x.v) /\ AllPass(P.cs[c].mv[i], x.v) THEN {}
            ELSE {<<"ValidationError", fs[i].name>>}
        errs == UNION {FErr(i) : i \in 1..Len(fs)}
        Holds(k) ==
            LET a == Read(P, c, m, k.a)
                b == Read(P, c, m, k.b)
            IN  IF a.r # "ok" \/ b.r # "ok" THEN FALSE
                ELSE (IsInt(a.v) /\ IsInt(b.v)) => IntLe(a.v, b.v)
        sv == P.cs[c].sv
    IN  IF errs # {} THEN errs
        ELSE IF \A i \in 1..Len(sv) : Holds(sv[i]) THEN {}
        ELSE {<<"ValidationError", "">>}

-----------------------------------------------------------------------------
(* Sizes                                                                      *)

\* Sizes that would take up too much memory.
TooBig(n) == n > 100000

\* A size or count: none, a number, or the value of another field. The result
\* is OkV(number) or an error.
RefInt(env, n, missing) ==
    IF n \notin DOMAIN env.m THEN Err1(missing, n)
    ELSE IF ~IsInt(env.m[n]) THEN AnyError
    ELSE OkV(Small(env.m[n]), 0)

\* Is the value of a type the field is for? Nothing is said about others.
Suits(f, v) ==
    CASE f.k \in {"int", "vint"} -> v.t = "int"
      [] f.k \in {"str", "strz"} -> v.t = "str"
      [] f.k = "ts"   -> v.t = "dt"
      [] f.k = "arr"  -> v.t \in {"list", "iter"}
      [] f.k = "nest" -> v.t \in {"struct", "dict"}
      [] f.k = "uni"  -> TRUE
      [] OTHER -> v.t = f.k

\* What value v takes up, for fields where that can be told from the value.
SizeForValue(f, v) ==
    IF ~Suits(f, v) THEN Unspecified ELSE
    CASE f.cname = "Custom" -> Err1("UndefinedSizeError", f.name)    \* the user's, who doesn't tell
      [] f.k = "bytes" -> OkV(Len(v.b), 0)
      [] f.k = "str"  -> IF CanEncode(f.enc, v.c) THEN OkV(Len(Encode(f.enc, v.c)), 0) ELSE AnyError
      [] f.k = "strz" -> IF CanEncode(f.enc, v.c) THEN OkV(Len(Encode(f.enc, Append(v.c, 0))), 0) ELSE AnyError
      [] f.k = "vint" -> IF v.n /\ ~VarSigned(f.fmt) THEN AnyError ELSE OkV(Len(VarEnc(v, f.fmt)), 0)
      [] OTHER -> Err1("UndefinedSizeError", f.name)

\* The number of bytes field f must occupy given the values of the others.
SizeFor(f, env) ==
    IF f.fsize >= 0 THEN OkV(f.fsize, 0)
    ELSE IF f.fsize = -2 THEN RefInt(env, f.size.r, "MissingRequiredValueError")
    ELSE LET v == IF f.name # "" /\ f.name \in DOMAIN env.m THEN env.m[f.name] ELSE DefaultOf(f) IN
         IF v = Undef \/ v.t \in {"none", "np"} THEN Err1("UndefinedSizeError", f.name)
         ELSE SizeForValue(f, v)

-----------------------------------------------------------------------------
(* Serialising                                                                *)

RECURSIVE DumpField(_, _, _, _, _), Encoding(_, _, _, _, _), DumpStruct(_, _, _, _),
          DumpFields(_, _, _, _, _, _), DumpElements(_, _, _, _, _, _), NullBytes(_, _, _)

NullBytes(P, f, env) ==
    CASE f.null.m = "no"    -> Err1("UnserializableValueError", f.name)
      [] f.null.m = "bytes" -> OkB(f.null.b)
      [] f.null.m = "val"   ->
            LET x == Encoding(P, f, f.null.v, 0, env) IN
            IF x.r = "err" /\ <<"UndefinedSizeError", f.name>> \in x.e THEN AnyError ELSE x
      [] f.null.m = "dflt"  ->
            IF f.fsize = -1 THEN Err({<<"UnserializableValueError", f.name>>,
                                      <<"BuggyFieldImplementationError", f.name>>})
            ELSE LET n == SizeFor(f, env) IN
                 IF n.r # "ok" THEN n
                 ELSE IF TooBig(n.v) THEN Unspecified
                 ELSE OkB(Zeros(MaxOf(0, n.v)))

\* The index of the alternative of a union; d says how it is chosen.
Decide(P, f, env, ctx, isInt, count) ==
    CASE f.dec.m = "tag" -> LET x == Refers(P, env, f.dec) IN
                            IF x.r # "ok" \/ ~IsInt(x.v) THEN AnyError
                            ELSE IF x.v.n THEN Unspecified
                            ELSE OkV(Remainder(x.v, count) + 1, 0)
      [] f.dec.m = "ctx" -> OkV((ctx % count) + 1, 0)
      [] f.dec.m = "data" -> OkV(IF isInt THEN 1 ELSE 2, 0)

DumpElements(P, f, es, ctx, env, i) ==
    IF i > Len(es) THEN OkB(<<>>)
    ELSE LET x == DumpField(P, f, es[i], ctx, env) IN
         IF x.r # "ok" THEN x
         ELSE LET y == DumpElements(P, f, es, ctx, env, i + 1) IN
              IF y.r # "ok" THEN y ELSE OkB(x.b \o y.b)

RECURSIVE Descends(_, _, _)
Descends(P, d, c) == d = c \/ (P.cs[d].base # 0 /\ Descends(P, P.cs[d].base, c))

DumpAsClass(P, c, v, ctx) ==
    IF v.t = "struct" THEN IF Descends(P, v.c, c) THEN DumpStruct(P, v.c, MapOf(v.f), ctx) ELSE Unspecified
    ELSE IF v.t # "dict" THEN Unspecified
    ELSE IF \E i \in 1..Len(v.f) : v.f[i][1] \notin Names(P, c) THEN Err1("UnexpectedValueError", "")
    ELSE DumpStruct(P, c, MapOf(v.f), ctx)

Encoding(P, f, v, ctx, env) ==
    LET Refuse(cls) == Err1(cls, f.name) IN
    IF ~Suits(f, v) THEN Unspecified ELSE
    CASE f.k = "int" ->
            IF FixedFits(v, f.fsize, f.signed) THEN OkB(FixedEnc(v, f.fsize, f.endian))
            ELSE Refuse("UnserializableValueError")
      [] f.k = "vint" ->
            IF v.n /\ ~VarSigned(f.fmt) THEN Refuse("UnserializableValueError")
            ELSE LET b == VarEnc(v, f.fmt) IN
                 IF f.maxb >= 0 /\ Len(b) > f.maxb THEN Refuse("ValueSizeError") ELSE OkB(b)
      [] f.k = "float" ->
            LET x == Narrow(v.d, f.fsize) IN
            IF v.d = OddNaN THEN Unspecified
            ELSE IF ~x.ok THEN Refuse("SerializationError")
            ELSE OkB(IF f.endian = "big" THEN x.b ELSE Rev(x.b))
      [] f.k = "bytes" ->
            LET n == SizeFor(f, env) IN
            IF n.r # "ok" THEN n
            ELSE IF Len(v.b) # n.v THEN Refuse("ValueSizeError") ELSE OkB(v.b)
      [] f.k = "str" ->
            IF ~CanEncode(f.enc, v.c) THEN AnyError
            ELSE LET b == Encode(f.enc, v.c)
                     n == SizeFor(f, env)
                 IN  IF n.r # "ok" THEN n
                     ELSE IF Len(b) = n.v THEN OkB(b)
                     ELSE IF Len(b) > n.v \/ f.pad = -1 THEN Refuse("ValueSizeError")
                     ELSE IF TooBig(n.v) THEN Unspecified
                     ELSE OkB(b \o [i \in 1..(n.v - Len(b)) |-> f.pad])
      [] f.k = "strz" ->
            IF ~CanEncode(f.enc, v.c) THEN AnyError ELSE OkB(Encode(f.enc, Append(v.c, 0)))
      [] f.k = "uuid" -> OkB(UuidEnc(v.u, f.fmt))
      [] f.k = "ts" ->
            LET k == UnitsOf(v, P.tz, f.res) IN
            IF ~Exists(v, P.tz) THEN Unspecified
            ELSE IF FixedFits(k, f.fsize, f.signed) THEN OkB(FixedEnc(k, f.fsize, f.endian))
            ELSE Refuse("UnserializableValueError")
      [] f.k = "arr" ->
            LET n == IF f.count.m = "none" THEN OkV(-1, 0)
                     ELSE IF f.count.m = "int" THEN OkV(f.count.n, 0)
                     ELSE RefInt(env, f.count.r, "FieldReferenceError")
                x == DumpElements(P, f.comp[1], v.e, ctx, env, 1)
            IN  IF n.r # "ok" THEN n
                ELSE IF v.t = "list" /\ n.v # -1 /\ Len(v.e) # n.v THEN Refuse("ArraySizeError")
                ELSE IF v.t = "iter" /\ n.v # -1 /\ Len(v.e) # n.v
                     THEN IF x.r = "ok" THEN Refuse("ArraySizeError")
                          ELSE IF x.r = "any" THEN Unspecified
                          ELSE Err(x.e \cup {<<"ArraySizeError", f.name>>})
                ELSE x
      [] f.k = "nest" -> DumpAsClass(P, f.cls, v, ctx)
      [] f.k = "uni" ->
            LET d == Decide(P, f, env, ctx, IsInt(v), Len(f.choices)) IN
            IF d.r # "ok" THEN d
            ELSE LET g == f.choices[d.v] IN
                 IF g.k = "nest" /\ g.bare THEN DumpAsClass(P, g.cls, v, ctx)
                 ELSE DumpField(P, g, v, ctx, env)

DumpField(P, f, v, ctx, env) ==
    IF ~AllPass(f.vals, v) THEN Err1("ValidationError", f.name)
    ELSE IF v = NoneV THEN NullBytes(P, f, env)
    ELSE LET x == Encoding(P, f, v, ctx, env) IN
         IF x.r # "ok" \/ f.fsize = -1 THEN x
         ELSE LET n == SizeFor(f, env) IN
              IF n.r # "ok" THEN n
              ELSE IF Len(x.b) = n.v THEN x
              ELSE IF TooBig(n.v) THEN Unspecified
              ELSE IF Len(x.b) < n.v /\ f.k \in {"str", "strz"} /\ f.pad # -1
                   THEN OkB(x.b \o [i \in 1..(n.v - Len(x.b)) |-> f.pad])
              ELSE Err1("ValueSizeError", f.name)

\* The bytes of fields i, i+1, ... The result has the encodings one by one
\* (empty if absent): [r |-> "ok", parts], or an error and the parts before it.
DumpFields(P, fs, vals, ctx, i, acc) ==
    IF i > Len(fs) THEN [r |-> "ok", parts |-> acc]
    ELSE LET v == vals[fs[i].name] IN
         IF v = NP THEN DumpFields(P, fs, vals, ctx, i + 1, Append(acc, <<>>))
         ELSE LET x == DumpField(P, fs[i], v, ctx, MapEnv(vals)) IN
              IF x.r = "ok" THEN DumpFields(P, fs, vals, ctx, i + 1, Append(acc, x.b))
              ELSE IF x.r = "any" THEN Unspecified
              ELSE [r |-> "err", e |-> x.e, parts |-> acc]

Concat(parts) == FlattenSeq(parts)
FieldPrefixes(parts) == {Concat(SubSeq(parts, 1, k)) : k \in 0..Len(parts)}

\* What must be written for an instance: OkB and parts, or an error and the
\* set w of what may have been written when it is raised.
DumpStruct(P, c, m, ctx) ==
    LET verr == Validate(P, c, m)
        td   == ToDict(P, c, m, TRUE, ctx)
        vals == MapOf(td.v.f)
        fs   == Fields(P, c)
        \* Absent are also those whose condition says so of the final values.
        pres == [i \in 1..Len(fs) |->
                   IF vals[fs[i].name] = NP THEN OkV(FALSE, 0)
                   ELSE Present(P, fs[i].pres, MapEnv(vals), ctx)]
        bad  == {i \in 1..Len(fs) : pres[i].r # "ok"}
        here == [n \in DOMAIN vals |->
                   IF pres[IndexOf(P, c, n)].v THEN vals[n] ELSE NP]
        x    == DumpFields(P, fs, [n \in DOMAIN vals |-> here[n]], ctx, 1, <<>>)
    IN  IF verr # {} THEN [r |-> "err", e |-> verr, w |-> {<<>>}]
        ELSE IF td.r = "any" THEN Unspecified
        ELSE IF td.r # "ok" THEN [r |-> "err", e |-> td.e, w |-> {<<>>}]
        ELSE IF bad # {} THEN Unspecified
        ELSE IF x.r = "ok" THEN [r |-> "ok", b |-> Concat(x.parts), parts |-> x.parts]
        ELSE IF x.r = "any" THEN Unspecified
        ELSE [r |-> "err", e |-> x.e, w |-> FieldPrefixes(x.parts)]

RECURSIVE PartialFields(_, _, _, _, _, _, _)
PartialFields(P, fs, av, last, ctx, i, acc) ==
    IF i > Len(fs) THEN [r |-> "ok", parts |-> acc]
    ELSE LET f == fs[i] IN
         IF f.name \notin DOMAIN av
         THEN IF last = "" THEN [r |-> "ok", parts |-> acc]
              ELSE [r |-> "err", e |-> {<<"MissingRequiredValueError", f.name>>}, parts |-> acc]
         ELSE LET x == IF av[f.name] = NP THEN OkB(<<>>)
                       ELSE DumpField(P, f, av[f.name], ctx, MapEnv(av)) IN
              IF x.r = "any" THEN Unspecified
              ELSE IF x.r # "ok" THEN [r |-> "err", e |-> x.e, parts |-> acc]
              ELSE IF f.name = last THEN [r |-> "ok", parts |-> Append(acc, x.b)]
              ELSE PartialFields(P, fs, av, last, ctx, i + 1, Append(acc, x.b))

\* The fields up to the one named last, or ("") to the first without a value.
PartialDump(P, c, m, last, ctx) ==
    LET x == PartialFields(P, Fields(P, c), Available(P, c, m, ctx), last, ctx, 1, <<>>) IN
    IF Opaque(P, c, m, ctx) \/ x.r = "any" THEN Unspecified
    ELSE IF x.r = "ok" THEN [r |-> "ok", b |-> Concat(x.parts), parts |-> x.parts]
    ELSE [r |-> "err", e |-> x.e, w |-> FieldPrefixes(x.parts)]

\* len(obj): OkV(number) or an error. A field of fixed size needs no value,
\* just to be known to be there. Nothing is said if a value can't be serialised.
LengthOf(P, c, m) ==
    LET fs == Fields(P, c)
        av == Available(P, c, m, 0)
        env == MapEnv(av)
        One(f) ==
            LET here == Present(P, f.pres, SelfEnv(c, m), 0)
                x    == DumpField(P, f, av[f.name], 0, env)
            IN  IF f.name \in DOMAIN av /\ av[f.name] = NP THEN OkV(0, 0)
                ELSE IF here.r # "ok" THEN here
                ELSE IF ~here.v THEN OkV(0, 0)
                ELSE IF f.name \in DOMAIN av
                     THEN IF x.r = "ok" THEN OkV(Len(x.b), 0)
                          ELSE IF x.r = "err" /\ f.fsize < 0 /\ \A e \in x.e : e[1] = "MissingRequiredValueError" THEN x
                          ELSE Unspecified
                ELSE IF f.fsize >= 0 THEN OkV(f.fsize, 0)
                ELSE IF f.fsize = -2 /\ f.size.r \in DOMAIN av THEN RefInt(env, f.size.r, "")
                ELSE ValueFor(P, f, SelfEnv(c, m), 0)
        len == [i \in 1..Len(fs) |-> One(fs[i])]
        bad == {i \in 1..Len(fs) : len[i].r = "err"}
    IN  IF Opaque(P, c, m, 0) THEN Unspecified
        ELSE IF \E i \in 1..Len(fs) : len[i].r = "any" \/ (len[i].r = "ok" /\ TooBig(len[i].v)) THEN Unspecified
        ELSE IF bad # {} THEN Err(UNION {len[i].e : i \in bad})
        ELSE OkV(FoldLeft(LAMBDA a, x : a + x.v, 0, len), 0)

-----------------------------------------------------------------------------
(* Loading                                                                    *)

RECURSIVE LoadField(_, _, _, _, _, _), Decoding(_, _, _, _, _, _), LoadStruct(_, _, _, _, _, _),
          LoadFields(_, _, _, _, _, _, _, _), LoadElements(_, _, _, _, _, _, _, _)

Slice(s, p, n) == SubSeq(s, p + 1, p + n)
Left(s, p) == MaxOf(0, Len(s) - p)
EOFError(f) == Err1("UnexpectedEOFError", f.name)

\* Errors in the data are reported for the field of the outermost structure.
DataErrors == {"UnexpectedEOFError", "DeserializationError", "ExtraneousDataError"}
Attribute(x, f) ==
    IF x.r # "err" THEN x
    ELSE Err({IF e[1] \in DataErrors THEN <<e[1], f.name>> ELSE e : e \in x.e})

LoadElements(P, f, s, p, ctx, env, n, acc) ==
    LET last == IF acc = <<>> THEN Undef ELSE acc[Len(acc)]
        said == IF f.halt.m = "ref" THEN RefInt(env, f.halt.r, "KeyError") ELSE OkV(0, 0)
        halt == CASE f.halt.m = "dflt" -> IF n >= 0 THEN Len(acc) >= n ELSE p >= Len(s)
                  [] f.halt.m \in {"last", "pop"} -> last # Undef /\ IsInt(last) /\ Small(last) = f.halt.n
                  [] f.halt.m = "peek" -> p >= Len(s) \/ s[p + 1] = f.halt.n
                  [] f.halt.m = "ctx"  -> Len(acc) >= ctx
                  [] f.halt.m = "ref"  -> Len(acc) >= said.v
    IN  IF said.r # "ok" THEN AnyError
        ELSE IF halt THEN OkV([t |-> "list", e |-> IF f.halt.m = "pop" THEN Front(acc) ELSE acc], p)   \* the sentinel is removed
        ELSE LET x == LoadField(P, f.comp[1], s, p, ctx, env) IN
             IF x.r # "ok" THEN x
             ELSE LoadElements(P, f, s, x.p, ctx, env, n, Append(acc, x.v))

Decoding(P, f, s, p, ctx, env) ==
    CASE f.k \in {"int", "float", "ts", "uuid"} ->
            IF Left(s, p) < f.fsize THEN EOFError(f)
            ELSE LET b == Slice(s, p, f.fsize)
                     q == p + f.fsize
                 IN  (CASE f.k = "int" -> OkV(FixedDec(b, f.signed, f.endian), q)
                       [] f.k = "float" ->
                            OkV([t |-> "float", d |-> Widen(IF f.endian = "big" THEN b ELSE Rev(b), f.fsize)], q)
                       [] f.k = "ts" ->
                            LET x == FromUnits(FixedDec(b, f.signed, f.endian), P.tz, f.res, f.aware)
                            IN  IF x.ok THEN OkV(x.v, q) ELSE Unspecified
                       [] f.k = "uuid" ->
                            LET x == UuidDec(b, f.fmt)
                            IN  IF x.ok THEN OkV([t |-> "uuid", u |-> x.u], q) ELSE Unspecified)
      [] f.k = "vint" ->
            LET e == VarEnd(s, p + 1) IN
            IF e = 0 THEN EOFError(f) ELSE OkV(VarDec(SubSeq(s, p + 1, e), f.fmt), e)
      [] f.k \in {"bytes", "str"} ->
            LET n == SizeFor(f, env) IN
            IF n.r # "ok" THEN n
            ELSE IF n.v < 0 THEN Unspecified
            ELSE IF Left(s, p) < n.v THEN EOFError(f)
            ELSE IF f.k = "bytes" THEN OkV([t |-> "bytes", b |-> Slice(s, p, n.v)], p + n.v)
            ELSE LET x == Decode(f.enc, Slice(s, p, n.v)) IN
                 IF x.ok THEN OkV([t |-> "str", c |-> x.c], p + n.v) ELSE AnyError
      [] f.k = "strz" ->
            LET n == IF f.fsize = -1 THEN OkV(-1, 0) ELSE SizeFor(f, env)
                e == IF n.v = -1 THEN Len(s) ELSE MinOf(Len(s), p + n.v)
                x == ToNull(f.enc, s, p + 1, e)
            IN  IF n.r # "ok" THEN n
                ELSE IF n.v < -1 THEN Unspecified
                ELSE IF x.st = "bad" THEN AnyError
                ELSE IF x.st = "short"
                     THEN IF n.v # -1 /\ e = p + n.v THEN Err1("DeserializationError", f.name) ELSE EOFError(f)
                ELSE IF f.pad # -1 /\ n.v # -1
                     THEN IF Left(s, p) < n.v THEN EOFError(f)
                          ELSE OkV([t |-> "str", c |-> x.c], p + n.v)
                ELSE OkV([t |-> "str", c |-> x.c], x.i - 1)
      [] f.k = "arr" ->
            LET n == IF f.count.m = "none" \/ f.halt.m # "dflt" THEN OkV(-1, 0)
                     ELSE IF f.count.m = "int" THEN OkV(f.count.n, 0)
                     ELSE RefInt(env, f.count.r, "FieldReferenceError")
            IN  IF n.r # "ok" THEN n
                ELSE LoadElements(P, f, s, p, ctx, env, MaxOf(n.v, -1), <<>>)
      [] f.k = "nest" -> LoadStruct(P, f.cls, s, p, ctx, EmptyMap)
      [] f.k = "uni" ->
            LET d == Decide(P, f, env, ctx, Left(s, p) = 0 \/ s[p + 1] < 128, Len(f.choices)) IN
            IF d.r # "ok" THEN d
            ELSE LET g == f.choices[d.v] IN
                 IF g.k = "nest" /\ g.bare THEN LoadStruct(P, g.cls, s, p, ctx, EmptyMap)
                 ELSE LoadField(P, g, s, p, ctx, env)

LoadField(P, f, s, p, ctx, env) ==
    LET here == IF f.pres.m = "more" THEN OkV(Left(s, p) > 0 /\ s[p + 1] # f.pres.n, 0) ELSE Present(P, f.pres, env, ctx)
        null == IF f.null.m = "no" THEN Err({}) ELSE NullBytes(P, f, env)
        \* Null that can't be represented is looked for in the data in vain.
        lost == null.r = "err" /\ \A e \in null.e : e[1] \in {"UnserializableValueError", "ValueSizeError",
                                                              "BuggyFieldImplementationError"}
        x    == Attribute(Decoding(P, f, s, p, ctx, env), f)
        v    == IF f.null.m = "val" /\ x.v = f.null.v THEN NoneV ELSE x.v
        same == Alike(P, v, f.const[1])
    IN  IF here.r # "ok" THEN here
        ELSE IF ~here.v THEN OkV(f.npv, p)
        ELSE IF null.r # "ok" /\ ~lost THEN null
        \* An initial value could tell the size.
        ELSE IF lost /\ f.null.m = "dflt" /\ f.name \in DOMAIN env.m THEN Unspecified
        ELSE IF lost /\ f.null.m = "dflt" THEN Err1("CannotDetermineNullError", f.name)
        ELSE IF null.r = "ok" /\ Slice(s, p, MinOf(Len(null.b), Left(s, p))) = null.b
             THEN IF AllPass(f.vals, NoneV) THEN OkV(NoneV, p + Len(null.b))
                  ELSE Err1("ValidationError", f.name)
        ELSE IF x.r # "ok" THEN x
        ELSE IF f.const # <<>> /\ same.r # "ok" THEN Unspecified
        ELSE IF f.const # <<>> /\ ~same.v THEN Err1("ValidationError", f.name)
        ELSE IF ~AllPass(f.vals, v) THEN Err1("ValidationError", f.name)
        ELSE OkV(v, x.p)

\* Fields i, i+1, ... up to the one named last. given: values that replace the
\* loaded ones. The result is [r, m, p], or an error, with the map and the
\* position of the fields before the one that failed.
LoadFields(P, fs, s, p, ctx, m, last, i) ==
    IF i > Len(fs) THEN [r |-> "ok", m |-> m, p |-> p]
    ELSE LET f == fs[i]
             x == LoadField(P, f, s, p, ctx, MapEnv(m))
         IN  IF x.r = "any" THEN Unspecified
             ELSE IF x.r # "ok" THEN [r |-> "err", e |-> x.e, m |-> m, p |-> p]
             ELSE LET m2 == IF f.name \in DOMAIN m THEN m ELSE Put(m, f.name, x.v) IN
                  IF f.name = last THEN [r |-> "ok", m |-> m2, p |-> x.p]
                  ELSE LoadFields(P, fs, s, x.p, ctx, m2, last, i + 1)

Discarded(P, c) == {Fields(P, c)[i].name : i \in {j \in 1..Len(Fields(P, c)) : Fields(P, c)[j].disc}}

\* given: values that replace those in the data.
LoadStruct(P, c, s, p, ctx, given) ==
    LET x == LoadFields(P, Fields(P, c), s, p, ctx, given, "", 1)
        verr == Validate(P, c, Without(x.m, P.cs[c].extra))
    IN  IF x.r = "any" THEN Unspecified
        ELSE IF x.r # "ok" THEN Err(x.e)
        ELSE IF \E n \in DOMAIN given : n \notin Names(P, c) \cup P.cs[c].extra THEN Err1("UnexpectedValueError", "")
        ELSE IF verr # {} THEN Err(verr)
        ELSE OkV(StructV(P, c, Without(x.m, Discarded(P, c) \cup P.cs[c].extra)), x.p)

\* Up to the field named last, or ("") as far as the input goes.
PartialLoad(P, c, s, p, last, ctx) ==
    LET x == LoadFields(P, Fields(P, c), s, p, ctx, EmptyMap, last, 1) IN
    IF x.r = "any" THEN Unspecified
    ELSE IF x.r = "ok" \/ (last = "" /\ \A e \in x.e : e[1] = "UnexpectedEOFError")
         THEN OkV(StructV(P, c, Without(x.m, Discarded(P, c))), x.p)
    ELSE Err(x.e)

\* The outcomes allowed for loading just the field named n: that of loading
\* everything up to it, or, if it's always at the same place and needs no other
\* field, of loading it alone (which doesn't see errors in the fields before).
\* Where data is malformed, the latter may not be where the former finds it: the
\* null of a string that takes up a given space may come too early, and the number
\* in the place of a constant may take more bytes than necessary. An array may halt
\* before the declared number of elements (or after).
RECURSIVE MayEndEarly(_, _)
MayEndEarly(P, f) ==
    \/ f.k = "strz" /\ f.size.m = "int" /\ f.pad = -1
    \/ f.k = "vint" /\ f.const # <<>>
    \/ f.k = "arr" /\ ((f.halt.m # "dflt" /\ f.count.m = "int") \/ MayEndEarly(P, f.comp[1]))
    \/ f.k = "nest" /\ \E i \in 1..Len(Fields(P, f.cls)) : MayEndEarly(P, Fields(P, f.cls)[i])

GetField(P, c, s, p, n, ctx) ==
    LET x == LoadFields(P, Fields(P, c), s, p, ctx, EmptyMap, n, 1)
        f == FieldAt(P, c, n)
        y == LoadField(P, f, s, p + f.off, ctx, MapEnv(EmptyMap))
        early == \E i \in 1..Len(Fields(P, c)) : Fields(P, c)[i].off < f.off /\ MayEndEarly(P, Fields(P, c)[i])
    IN  IF x.r = "any" THEN {Unspecified}
        ELSE (IF x.r = "ok" THEN {OkV(x.m[n], p)} ELSE {Err(x.e)})
             \cup (IF f.off >= 0 /\ ~f.dep /\ (x.r # "ok" \/ early)
                   THEN {IF y.r = "ok" THEN OkV(y.v, p) ELSE y} ELSE {})
=============================================================================
