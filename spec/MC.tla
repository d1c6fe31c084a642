---------------------------------- MODULE MC ----------------------------------
(* Explores what a user can do with the declarations of the catalogue, checks *)
(* property PROP of the specification in every state, and prints for every    *)
(* state what may be observed in it, to be compared with the library:         *)
(* how the state was reached, and events with their outcomes.                 *)
EXTENDS Catalogue, Props, Cases, Json, IOUtils

PROP == IOEnv.PROP
Shard == atoi(IOEnv.SHARD)
Shards == atoi(IOEnv.SHARDS)
IsThorough == IOEnv.TIER = "thorough"

-----------------------------------------------------------------------------
(* More entries                                                               *)

MV(n, m, k) == [ns |-> <<n>>, v |-> [m |-> m, n |-> k]]
SV(a, b) == [a |-> a, b |-> b]
WithIn(e, c, mv, sv) == [e EXCEPT !.prog.classes[c].mv = mv, !.prog.classes[c].sv = sv]

Validated(u) == <<
    Mid(Val(I16, "ge", 0)), Mid(Val(Val(I16, "ge", 0), "ne", 258)), With(Mid(I16), <<MV("f", "le", 0)>>, <<>>),
    With(Mid(U8), <<>>, <<SV("a", "f"), SV("f", "z")>>), With(Mid(Z8), <<MV("f", "minlen", 1), MV("z", "ne", 513)>>, <<>>),
    With(Mid(NullBy(I16, <<255, 255>>)), <<MV("f", "nonnull", 0)>>, <<>>), Mid(Val(NullDflt(Str), "nonnull", 0)),
    Mid(Val(ArrEof(U8), "maxlen", 1)), Mid(ArrOf(Val(I16, "ge", 0), 2)), Mid(ArrOf(Val(NullIs(I16, IntV(258)), "nonnull", 0), 1)),
    WithIn(WithIn(Derived(I16), 3, <<MV("a", "ne", 1)>>, <<>>), 4, <<MV("f", "le", 100)>>, <<SV("a", "f")>>),
    WithIn(WithIn(Derived(U8), 3, <<MV("a", "le", 100)>>, <<>>), 4, <<MV("a", "ge", 1), MV("z", "ne", 0)>>, <<SV("f", "z")>>),
    WithIn(Mid(Nest), 1, <<MV("y", "ne", 300)>>, <<SV("x", "y")>>), WithIn(Mid(ArrOf(Nest, 1)), 1, <<MV("x", "ge", 2)>>, <<>>),
    WithIn(Tagged, 1, <<MV("x", "ge", 2)>>, <<>>), With(Optional(Val(I16, "ge", 0)), <<MV("a", "ge", 1)>>, <<SV("a", "z")>>),
    With(Optional(Z8), <<MV("f", "maxlen", 0)>>, <<>>), With(Mid(Dflt(I16, IntV(258))), <<MV("f", "le", 100)>>, <<>>),
    With(Simple(<<N("n", Comp(U8, "len", 0, "f")), N("f", Z8), Tail1>>), <<MV("n", "ge", 1)>>, <<>>),
    With(Mid(Disc(I16)), <<MV("f", "le", 100)>>, <<>>), Mid(Val(Vlq, "le", 100)), Mid(Val(Bytes(2), "never", 0))>>

Sourced(u) == <<
    Mid(Dflt(I16, IntV(258))), Mid(Dflt(I16, IntV(40000))), Mid(Fct(Vlq, IntV(5))), Mid(Fct(Z8, StrV(<<66>>))),
    Mid(Dflt(NullDflt(I16), NoneV)), Mid(Dflt(ArrOf(U8, 2), ListV(<<IntV(1), IntV(2)>>))), Mid(Fct(ArrOf(U8, 2), ListV(<<IntV(1), IntV(2)>>))),
    Mid(Dflt(Bytes(2), BytesV(<<0, 0>>))), Mid(Dflt(Flt(4), FloatV(<<0, 0, 0, 0, 0, 0, 0, 0>>))), Derived(Dflt(I16, IntV(0))),
    Simple(<<N("c", Comp(U8, "copy", 0, "z")), N("f", Dflt(Z8, StrV(<<65>>))), N("z", Dflt(Within(U8, {IntV(7), IntV(255)}), IntV(9)))>>),
    Simple(<<N("c", Comp(U8, "len", 1, "f")), N("f", Z8), N("z", Comp(U16, "copy", 0, "c"))>>),
    Simple(<<N("f", ArrOf(U8, 2)), N("c", Comp(U8, "sum", 0, "f")), N("z", Comp(Vlq, "const", 300, ""))>>),
    Simple(<<N("c", Comp(U8, "copy", 0, "a")), N("a", Within(U8, {IntV(0), IntV(1)})), N("f", If(I16, "bit", 1, "c"))>>),
    Simple(<<N("c", Comp(U8, "copy", 0, "d")), N("d", Comp(U8, "copy", 0, "f")), N("f", Within(U16, {IntV(5), IntV(256)}))>>),
    Simple(<<N("f", Dflt(Nest, InstV(1, InnerXY(IntV(1), IntV(2))))), Tail1>>),
    Counted(0)[4], Counted(0)[5], Counted(0)[6], Conditions(0)[4], Conditions(0)[5], Conditions(0)[13], Conditions(0)[19], Conditions(0)[21]>>

\* An enclosing structure whose inner ones have defaults and computed fields.
ComputedInner ==
    LET e == Mid(Within(Nest, {InstV(1, <<<<"y", IntV(3)>>>>), DictV(<<<<"y", IntV(300)>>>>)})) IN
    [e EXCEPT !.prog.classes[1].fields = <<N("x", Comp(U8, "copy", 0, "y")).f, N("y", Vlq).f, N("w", Dflt(U8, IntV(4))).f>>]

Discarding(u) == <<
    Mid(Disc(I16)), Mid(Disc(Z8)), Mid(Disc(Const(I16, IntV(258)))), Mid(Disc(Dflt(Vlq, IntV(300)))), Mid(Disc(ArrOf(U8, 2))), Mid(Disc(Nest)),
    Mid(Disc(NullBy(I16, <<255, 255>>))), Derived(Disc(I16)),
    Simple(<<Disc(Tag("n", {0, 2})), N("f", SizedBy(It([RawField EXCEPT !.k = "bytes", !.cname = "Bytes"], {BytesV(<<>>), BytesV(<<1, 2>>)}, {}), "n")), Tail1>>),
    Simple(<<Disc(Tag("n", {1, 2})), N("f", CountedBy(It(ArrF(Vlq.f), {ListV(<<IntV(300)>>), ListV(<<IntV(1), IntV(1)>>)}, {}), "n")), Disc(Tail1)>>),
    Simple(<<Disc(Tag("t", {0, 1})), N("f", UniTag("t")), Tail1>>),
    Conditions(0)[10], Conditions(0)[11], Conditions(0)[20], Simple(<<Disc(N("n", Comp(U8, "len", 0, "f"))), N("f", Z8), Tail1>>),
    WithIn(Mid(Disc(Nest)), 1, <<MV("x", "ge", 2)>>, <<>>)>>

\* Entries with an inner structure that discards.
InnerDisc == [Mid(Nest) EXCEPT !.prog.classes[1].fields[1].disc = TRUE]

\* Fields that refer to what's in a structure.
OnInner(u) == <<
    Simple(<<N("h", NoBad(Nest)), N("f", IfInner(I16, "bit", 2, "h", "x")), Tail1>>),
    Simple(<<N("h", NoBad(Nest)), N("f", IfInner(Some(Z8), "eq", 1, "h", "x")), N("c", CompInner(U16, "copy", 0, "h", "y"))>>),
    Simple(<<N("c", CompInner(U16, "copy", 0, "h", "x")), N("h", NoBad(Nest)), N("f", IfInner(Some(Z8), "ne", 1, "h", "x"))>>),
    Simple(<<N("h", NoBad(Nest)), N("f", It([UniF(<<Vlq.f, Z8.f>>, "tag", "h") EXCEPT !.dec = [m |-> "tag", r |-> "h", s |-> "x"]],
                                            {IntV(300), StrV(<<65>>)}, {})), Tail1>>)>>

Nesting(u) == OnInner(0) \o <<
    Mid(Nest), Mid(Deep), Derived(Nest), Tagged, MidCtx(UniCtx), Mid(UniData), Mid(ArrOf(Nest, 2)), Mid(NullBy(Nest, <<255, 255>>)),
    ComputedInner, InnerDisc, Optional(Nest), OptionalCtx(Nest), OpenEnded1(0)[2], Counted(0)[4], Conditions(0)[22],
    WithIn(Mid(Nest), 1, <<MV("y", "ne", 300)>>, <<SV("x", "y")>>), WithIn(Tagged, 1, <<MV("x", "ge", 2)>>, <<>>),
    \* inner conditions on the context
    [InContext(<<N("f", NoBad(Nest)), Tail1>>, {0, 1}) EXCEPT !.prog.classes[1].fields[2] = N("y", If(Vlq, "ctx", 1, "")).f],
    [InContext(<<N("f", NoBad(ArrOf(Nest, 2))), Tail1>>, {0, 1}) EXCEPT !.prog.classes[1].fields[2] = N("y", If(Vlq, "ctx", 1, "")).f],
    [InContext(<<Tag("t", {0, 1, 2}), N("f", NoBad(UniTag("t"))), Tail1>>, {0, 1}) EXCEPT !.prog.classes[1].fields[2] = N("y", If(Vlq, "ctx", 1, "")).f]>>

ArrayComp(it, n) == CountedBy(It(ArrF(it.f), {ListV(<<>>), ListV([i \in 1..2 |-> CHOOSE v \in it.dom : TRUE])}, {}), n)
Arrayed(u) ==
    Each(LAMBDA it : Mid(ArrOf(it, 2)), <<U8, I24, Vlq, Bytes(2), Str, Z8, ZPad, Flt(2), Uuid("binary_var_2"), Ts, Nest, UniData,
        NullBy(I16, <<255, 255>>), NullIs(Vlq, IntV(300)), NullDflt(Str), NullBy(Z8, <<255>>), ArrOf(Vlq, 2), ArrOf(NullBy(U8, <<0>>), 2)>>)
    \o Counted(0) \o OpenEnded1(0) \o Halting(0) \o <<Simple(<<Head1, N("f", ArrPop(7)), Tail1>>)>>
    \o Each(LAMBDA it : Simple(<<Tag("n", {0, 2}), N("f", ArrayComp(it, "n")), Tail1>>), <<Str, Nest, NullBy(U8, <<0>>), ArrOf(Vlq, 1)>>)
    \* elements that refer to fields of the structure
    \o <<Simple(<<Tag("n", {1, 2}), N("f", It([ArrF([RawField EXCEPT !.k = "bytes", !.cname = "Bytes", !.size = Refer("n")]) EXCEPT !.count = SizeOf(2)],
                        {ListV(<<BytesV(<<1>>), BytesV(<<2>>)>>), ListV(<<BytesV(<<1, 2>>), BytesV(<<2, 3>>)>>)}, {ListV(<<BytesV(<<1>>), BytesV(<<1, 2>>)>>)})), Tail1>>),
         Simple(<<Tag("n", {0, 1, 2}), N("f", It([ArrF([ArrF(U8.f) EXCEPT !.count = Refer("n")]) EXCEPT !.count = SizeOf(2)],
                        {ListV(<<ListV(<<IntV(7)>>), ListV(<<IntV(8)>>)>>), ListV(<<ListV(<<>>), ListV(<<>>)>>)}, {ListV(<<ListV(<<IntV(7)>>), ListV(<<>>)>>)})), Tail1>>),
         Simple(<<Tag("n", {1, 2}), Tag("m", {0, 1}), N("f", It([ArrF([ArrF(Vlq.f) EXCEPT !.count = Refer("n")]) EXCEPT !.count = Refer("m")],
                        {ListV(<<ListV(<<IntV(7), IntV(300)>>)>>), ListV(<<>>), ListV(<<ListV(<<IntV(8)>>)>>)}, {})), Tail1>>),
         Simple(<<Tag("n", {1, 2}), N("f", It([ArrF([StrF(0, "utf-8", 32) EXCEPT !.size = Refer("n")]) EXCEPT !.count = SizeOf(2)],
                        {ListV(<<StrV(<<65>>), StrV(<<>>)>>), ListV(<<StrV(<<233>>)>>)}, {}))>>),
         Simple(<<Tag("t", {0, 1}), N("f", It([ArrF([UniF(<<U8.f, Z8.f>>, "tag", "t") EXCEPT !.name = ""]) EXCEPT !.count = SizeOf(2)],
                        {ListV(<<IntV(7), IntV(8)>>), ListV(<<StrV(<<65>>), StrV(<<>>)>>)}, {})), Tail1>>)>>

\* Entries with several optional, sized and discarded fields together.
Several(u) == <<
    Simple(<<Tag("a", {0, 1, 3}), N("f", If(Some(Z8), "bit", 1, "a")), N("g", If(NullBy(Some(I16), <<255, 255>>), "bit", 2, "a")), Tail1>>),
    Simple(<<N("n", Comp(Vlq, "len", 0, "f")), N("k", Const(I16, IntV(258))), N("f", SizedBy(It([RawField EXCEPT !.k = "bytes", !.cname = "Bytes"], {BytesV(<<>>), BytesV(<<1, 2>>)}, {}), "n")), N("o", If(Some(Z8), "ne", 0, "n"))>>),
    Simple(<<Tag("a", {0, 2}), N("s", SizedBy(It([RawField EXCEPT !.k = "bytes", !.cname = "Bytes"], {BytesV(<<>>), BytesV(<<1, 2>>)}, {}), "a")), N("f", If(Some(Nest), "eq", 2, "a")), N("u", UniData)>>)>>

-----------------------------------------------------------------------------
(* Declarations: how one is written, and with which defaults                   *)

Styles == <<"assign", "dataclass">>
Metas == <<[meta |-> FALSE, ad |-> <<>>], [meta |-> TRUE, ad |-> <<>>], [meta |-> TRUE, ad |-> <<<<"endian", "big">>>>],
           [meta |-> TRUE, ad |-> <<<<"UInt16__endian", "big">>, <<"endian", "little">>>>]>>
PlainU16 == It(IntF("UInt16", 2, FALSE, ""), {IntV(513)}, {})
Family(s1, m1, s2, m2, v) ==
    LET parent == [Class("C3", <<>>, s1, <<N("a", PlainU16).f, N("b", I16).f>>) EXCEPT !.meta = m1.meta, !.ad = m1.ad,
                        !.mv = IF v = 1 THEN <<MV("a", "ne", 513)>> ELSE <<>>]
        child == [Class("C4", <<3>>, s2, <<N("c", PlainU16).f, N("d", It(IntF("Int32", 4, TRUE, ""), {IntV(1)}, {})).f>>)
                        EXCEPT !.meta = m2.meta, !.ad = m2.ad, !.mv = IF v = 1 THEN <<MV("a", "le", 600), MV("c", "ne", 0)>> ELSE <<>>,
                               !.sv = IF v = 2 THEN <<SV("a", "c")>> ELSE <<>>]
        sibling == Class("C5", <<3>>, "assign", <<N("e", U8).f>>)
        grandchild == [Class("C6", <<4>>, "dataclass", <<N("g", PlainU16).f, N("h", Vlq).f>>) EXCEPT !.mv = IF v = 1 THEN <<MV("d", "ge", 0)>> ELSE <<>>]
    IN  Entry(Prelude \o <<parent, child, sibling, grandchild>>, IF v = 2 THEN 4 ELSE IF v = 1 THEN 6 ELSE 5 + (Len(m1.ad) % 2),
              IF v = 2 THEN <<N("a", PlainU16), N("b", Within(NoBad(I16), {IntV(-2)})), N("c", Within(PlainU16, {IntV(512), IntV(514)})), N("d", Tag("d", {1}))>>
              ELSE IF v = 1 THEN <<N("a", Within(PlainU16, {IntV(513), IntV(700), IntV(5)})), N("b", Some(I16)), N("c", Tag("c", {0, 1})), N("d", Tag("d", {1})), N("g", Tag("g", {1})), N("h", Some(Vlq))>>
              ELSE IF Len(m1.ad) % 2 = 0 THEN <<N("a", PlainU16), N("b", Some(I16)), N("e", Some(U8))>>
              ELSE <<N("a", PlainU16), N("b", Some(I16)), N("c", PlainU16), N("d", Tag("d", {1})), N("g", PlainU16), N("h", Some(Vlq))>>,
              {0})
Families(u) == FlattenSeq([i \in 1..2 |-> FlattenSeq([j \in 1..4 |-> FlattenSeq([k \in 1..2 |-> FlattenSeq([l \in 1..4 |->
                IF IsThorough \/ (i + (2 * j) + l + k) % 3 = 0
                THEN [v \in 1..3 |-> Family(Styles[i], Metas[j], Styles[k], Metas[l], v)]
                ELSE <<Family(Styles[i], Metas[j], Styles[k], Metas[l], ((i + j + k + l) % 3) + 1)>>])])])])

BadWays == <<"name", "pad2", "padtype", "count", "unionclass", "computes2", "computeconst", "dfltfct", "endian", "vfmt", "res">>
BadField(how, name) ==
    CASE how \in {"pad2", "padtype"} -> [StrF(4, "latin-1", -1) EXCEPT !.name = name, !.bad = how]
      [] how = "count" -> [ArrF(U8.f) EXCEPT !.name = name, !.bad = how]
      [] how = "unionclass" -> [UniF(<<U8.f, U8.f>>, "data", "") EXCEPT !.name = name, !.bad = how]
      [] how = "computes2" -> [U8.f EXCEPT !.name = name, !.bad = how, !.cfn = [m |-> "const", n |-> 1, r |-> ""]]
      [] how = "computeconst" -> [U8.f EXCEPT !.name = name, !.bad = how, !.const = <<IntV(1)>>]
      [] how = "endian" -> [Flt(4).f EXCEPT !.name = name, !.bad = how]
      [] how = "vfmt" -> [Vlq.f EXCEPT !.name = name, !.bad = how]
      [] how = "res" -> [Ts.f EXCEPT !.name = name, !.bad = how]
      [] how = "several" -> [U8.f EXCEPT !.name = name, !.bad = how, !.ann = how]
      [] how = "two" -> [U8.f EXCEPT !.name = name, !.bad = how, !.ann = how]
      [] OTHER -> [U8.f EXCEPT !.name = name, !.bad = how]
Refusals(u) ==
    LET Decl(c) == Entry(Prelude \o <<Class("C3", <<>>, "assign", <<Head1.f>>), Class("C4", <<>>, "dataclass", <<Tail1.f>>), c>>, 3, <<Head1>>, {0})
        One(how, style, bases, i) ==
            Decl(Class("C5", bases, style, IF i = 1 THEN <<BadField(how, "q"), N("r", U8).f>> ELSE <<N("r", U8).f, BadField(how, "q")>>))
    IN  FlattenSeq([i \in 1..2 |-> FlattenSeq([w \in 1..Len(BadWays) |-> FlattenSeq([s \in 1..2 |->
            <<One(BadWays[w], Styles[s], <<>>, i), One(BadWays[w], Styles[s], <<5 - s>>, i)>>])])])
        \o <<One("several", "dataclass", <<>>, 1), One("several", "dataclass", <<3>>, 2), One("two", "dataclass", <<>>, 1), One("two", "dataclass", <<4>>, 2)>>
        \o [s \in 1..2 |-> Decl(Class("C5", <<2 + s>>, "assign", <<N(IF s = 1 THEN "a" ELSE "z", U8).f>>))]
        \o [s \in 1..2 |-> Decl(Class("C5", <<2 + s>>, "dataclass", <<N("q", Vlq).f, N(IF s = 1 THEN "a" ELSE "z", U8).f>>))]
        \o [s \in 1..2 |-> Decl([Class("C5", <<>>, Styles[s], <<N("q", U8).f>>) EXCEPT !.bad = "noval"])]
        \o [s \in 1..2 |-> Decl([Class("C5", <<>>, Styles[s], <<N("q", U8).f>>) EXCEPT !.bad = IF s = 1 THEN "valfn" ELSE "valobj"])]
        \o [s \in 1..2 |-> Decl(Class("C5", <<4, 3>>, Styles[s], <<N("q", U8).f>>))]
        \o [s \in 1..2 |-> Decl(Class("C5", IF s = 1 THEN <<>> ELSE <<3>>, "mixed", <<N("q", U8).f, N("r", Vlq).f>>))]
        \o <<Decl(Class("C5", <<>>, "dataclass", <<>>)), Decl(Class("C5", <<3>>, "dataclass", <<>>)), Decl(Class("C5", <<3>>, "assign", <<>>))>>

\* Every form of annotation there is for a field.
ByClass == <<It(IntF("UInt8", 1, FALSE, ""), {IntV(1)}, {IntV(256)}), It(IntF("Int64", 8, TRUE, ""), {IntV(-2)}, {}), PlainU16,
             It([Flt(4).f EXCEPT !.endian = ""], {FloatV(<<63, 240, 0, 0, 0, 0, 0, 0>>)}, {}), It(ZF("latin-1"), {StrV(<<65>>)}, {StrV(<<256>>)}),
             Some(Uuid("binary_var_1")), Nest,
             It([TsF(4, "s", FALSE) EXCEPT !.cname = "Timestamp32", !.endian = ""], {DateV(10000, 7, 0, 0, FALSE)}, {})>>
Forms == <<"class", "anncls", "annother">>
Annotated(u) ==
    LET In(e) == AsData(e)
        Par(it, m) == LET e == Derived(it) IN [e EXCEPT !.prog.classes[4].meta = m.meta, !.prog.classes[4].ad = m.ad]
        OptOf(it, a) == Ann(NullDflt(it), a)
        Can(it) == it.f.fsize # -1 \/ it.f.size.m = "int" \/ it.f.k = "uuid"
        Optionals == SelectSeq(ByClass, LAMBDA it : it.f.k \notin {"strz", "nest"})
        Dv(it) == CHOOSE v \in it.dom : TRUE
        Defaults == SelectSeq(ByClass, LAMBDA it : it.f.k \notin {"nest"})
    IN  Cross(LAMBDA it, a : In(Mid(Ann(it, a))), ByClass, Forms)
        \o Cross(LAMBDA it, a : Par(Ann(it, a), Metas[3]), ByClass, Forms)
        \o Cross(LAMBDA it, a : In(Mid(OptOf(it, a))), Optionals, <<"opt", "annopt">>)
        \o Cross(LAMBDA it, a : In(Mid(Ann(Dflt(it, Dv(it)), a))), Defaults, Forms)
        \o Cross(LAMBDA it, a : In(Mid(Dflt(OptOf(it, a), NoneV))), <<Optionals[1], Optionals[4]>>, <<"opt", "annopt">>)
        \o Cross(LAMBDA it, a : In(Mid(Ann(it, a))), <<I24, Leb, Str, ZPad, ArrOf(U8, 2), Const(I16, IntV(258)), NullBy(I16, <<255, 255>>), Disc(I16), Dflt(I16, IntV(7)), Val(I16, "ge", 0)>>, <<"inst", "anninst">>)
        \o <<In(Tagged), In(Optional(I16)), In(Counted(0)[2]), In(Counted(0)[5]), With(In(Mid(Ann(PlainU16, "class"))), <<MV("f", "ne", 513)>>, <<SV("a", "f")>>)>>

-----------------------------------------------------------------------------
(* What is explored for each property                                         *)

General(u) == Each(Mid, Kinds(0)) \o <<MidCtx(UniCtx)>> \o Each(Derived, FewKinds) \o Each(Mid, Nullables(0)) \o Each(Mid, Constants(0))
           \o Conditions(0) \o Counted(0) \o <<Tagged>> \o OpenEnded1(0) \o Halting(0) \o Several(0)
Brief(u) == Each(Mid, FewKinds) \o Each(Derived, <<I16, Z8>>) \o Each(Mid, <<NullBy(I16, <<255, 255>>), NullIs(Vlq, IntV(300)), NullDflt(Str), Const(Unsized(Bytes(2)), BytesV(<<1, 2, 3>>))>>)
         \o Conditions(0) \o Counted(0) \o <<Tagged>> \o Halting(0) \o Several(0)

\* Two instances of each.
Pairs_(u) == <<
    Simple(<<N("f", I16), NoBad(Tail1)>>), Simple(<<N("f", NoBad(ArrOf(U8, 1))), NoBad(Tail1)>>), Simple(<<N("f", Within(NoBad(Nest), {InstV(1, InnerXY(IntV(1), IntV(300))), DictV(InnerXY(IntV(1), IntV(300)))}))>>),
    Simple(<<N("f", Dflt(I16, IntV(258))), N("z", Comp(U16, "copy", 0, "f"))>>), Simple(<<N("f", Fct(ArrOf(U8, 2), ListV(<<IntV(1), IntV(2)>>)))>>),
    Simple(<<N("f", Disc(Some(I16))), N("g", NullDflt(Some(Z8))), NoBad(Tail1)>>), Optional(Some(I16)), Simple(<<N("k", Const(I16, IntV(258))), NoBad(Tail1)>>),
    Entry(Prelude \o <<Class("C3", <<>>, "assign", <<Head1.f>>), Class("C4", <<3>>, "dataclass", <<N("f", Vlq).f>>)>>, 4, <<Head1, N("f", Vlq)>>, {0}),
    Simple(<<N("f", It(Flt(8).f, {FloatV(<<0, 0, 0, 0, 0, 0, 0, 0>>), FloatV(<<128, 0, 0, 0, 0, 0, 0, 0>>), FloatV(CanonicalNaN)}, {}))>>),
    Simple(<<N("f", It(TsF(8, "s", TRUE), {DateV(10000, 7, 0, 0, TRUE), DateV(10000, 3607, 0, 3600, TRUE)}, {}))>>), ComputedInner>>

EntriesOf(prop) ==
    CASE prop \in {"C01", "C02", "C08", "C23"} -> General(0)
      [] prop \in {"C09", "C11"} -> General(0) \o Discarding(0)
      [] prop = "C10" -> General(0)
      [] prop = "C12" -> Validated(0)
      [] prop = "C13" -> Each(Mid, Constants(0)) \o Each(Derived, Constants(0)) \o <<Conditions(0)[7], Discarding(0)[3], Several(0)[2],
                            Mid(Const(Unsized(Z8), StrV(<<>>))), Mid(Const(U8, IntV(0))), Mid(Const(Bytes(2), BytesV(<<0, 0>>))), AsData(Mid(Const(I16, IntV(258)))),
                            Mid(Const(ArrOf(Nest, 1), ListV(<<InstV(1, InnerXY(IntV(1), IntV(2)))>>)))>>
      [] prop = "C14" -> Sourced(0) \o <<OnInner(0)[2], OnInner(0)[3]>>
      [] prop = "C15" -> Each(Mid, Nullables(0)) \o Each(Derived, Nullables(0)) \o <<Conditions(0)[6], Discarding(0)[7], Arrayed(0)[13], Arrayed(0)[14], Arrayed(0)[15], Arrayed(0)[16]>>
      [] prop = "C16" -> Conditions(0) \o Several(0) \o OnInner(0)
      [] prop = "C17" -> Arrayed(0)
      [] prop = "C18" -> Nesting(0)
      [] prop = "C19" -> Pairs_(0)
      [] prop = "C20" -> Families(0) \o Refusals(0)
      [] prop = "C21" -> Annotated(0) \o SelectSeq(Refusals(0), LAMBDA e : e.prog.classes[5].style # "assign")
      [] prop = "C22" -> Brief(0) \o Validated(0)
      [] prop = "C24" -> Discarding(0) \o Each(Mid, FewKinds) \o Counted(0) \o <<Tagged, Several(0)[1]>>
      [] OTHER -> <<>>

Entries == TLCEval(EntriesOf(PROP))
Cases_ == TLCEval(CasesOf(PROP))
Count == Len(Entries) + Len(Cases_)
IsCase(i) == i > Len(Entries)
E(i) == Entries[i]
K(i) == Cases_[i - Len(Entries)]
Programs == TLCEval([i \in 1..Count |-> TLCEval(Resolve(IF IsCase(i) THEN K(i).prog ELSE E(i).prog))])

VARIABLES pid, objs, hist
vars == <<pid, objs, hist>>
View == <<pid, objs, hist = <<>>>>

P == Programs[pid]
x == objs[1]
Empty == hist = <<>>
Nothing == <<Nil, Nil>>
Declares == \A c \in 1..Len(P.cs) : P.cs[c].errs = {}       \* the last may be there to be refused

Ctxs == SetToSeq(E(pid).ctxs)
Ctx0 == Ctxs[1]
NamesSeq == [i \in 1..Len(Fields(P, E(pid).c)) |-> Fields(P, E(pid).c)[i].name]
FieldNo(i) == Fields(P, E(pid).c)[i]
Has(n) == n \in DOMAIN MapOf(x.f)
Values0 == [i \in 1..Len(NamesSeq) |-> SetToSeq(E(pid).dom[NamesSeq[i]])]
Bads0 == [i \in 1..Len(NamesSeq) |-> SetToSeq(E(pid).bad[NamesSeq[i]])]
IsBad(n, v) == v \in E(pid).bad[n]
CleanBut(o, n) == \A m \in DOMAIN MapOf(objs[o].f) : m = n \/ ~IsBad(m, MapOf(objs[o].f)[m])
AllClean(o) == CleanBut(o, "")

-----------------------------------------------------------------------------
(* Events                                                                     *)

ForCtx(Op(_)) == FlattenSeq([i \in 1..Len(Ctxs) |-> Op(Ctxs[i])])

EvSet(o, n, v, via) == [op |-> "set", o |-> o, path |-> <<>>, n |-> n, v |-> v, via |-> via]
EvDel(o, n, via) == [op |-> "del", o |-> o, path |-> <<>>, n |-> n, via |-> via]
EvDump(o, ctx, via) == [op |-> "dump", o |-> o, ctx |-> ctx, via |-> via]
EvDumps(o, ctx, pre, p) == [op |-> "dumps", o |-> o, ctx |-> ctx, pre |-> pre, p |-> p]
EvPdump(o, ctx, pre, p, last) == [op |-> "pdump", o |-> o, ctx |-> ctx, pre |-> pre, p |-> p, last |-> last]
EvLoad(o, b, ctx, exact, kw) == [op |-> "load", o |-> o, c |-> E(pid).c, b |-> b, ctx |-> ctx, exact |-> exact, kw |-> kw]
EvLoads(o, b, p, ctx, kw) == [op |-> "loads", o |-> o, c |-> E(pid).c, b |-> b, p |-> p, ctx |-> ctx, kw |-> kw]
EvPload(o, b, p, last, ctx) == [op |-> "pload", o |-> o, c |-> E(pid).c, b |-> b, p |-> p, last |-> last, ctx |-> ctx]
EvGetf(b, p, n, ctx) == [op |-> "getf", c |-> E(pid).c, b |-> b, p |-> p, n |-> n, ctx |-> ctx]
EvGet(o, n, via) == [op |-> "get", o |-> o, path |-> <<>>, n |-> n, via |-> via]
EvDict(o, keep, ctx) == [op |-> "dict", o |-> o, keep |-> keep, ctx |-> ctx]
EvEq(d, proxy) == [op |-> "eq", o |-> 1, o2 |-> 2, d |-> d, proxy |-> proxy]
EvNew(o, kw) == [op |-> "new", o |-> o, c |-> E(pid).c, kw |-> kw]
EvFdump(i, v, env, ctx) == [op |-> "fdump", c |-> E(pid).c, f |-> i, v |-> v, env |-> env, ctx |-> ctx, via |-> IF i % 2 = 0 THEN "stream" ELSE "bytes"]
EvFload(i, b, env, ctx, exact) == [op |-> "fload", c |-> E(pid).c, f |-> i, b |-> b, env |-> env, ctx |-> ctx, exact |-> exact]
EvFloads(i, b, p, env, ctx) == [op |-> "floads", c |-> E(pid).c, f |-> i, b |-> b, p |-> p, env |-> env, ctx |-> ctx]

Junk == <<9, 8, 7, 6, 5>>

\* What's observed. d is what DumpStruct gives in context ctx.
Bytes_(ctx) == LET d == Dump(P, x, ctx) IN IF d.r = "ok" THEN d.b ELSE <<>>
Dumpable_(ctx) == Dump(P, x, ctx).r = "ok"
IfDumps(ctx, s) == IF Dumpable_(ctx) THEN s ELSE <<>>

ODump(o) == ForCtx(LAMBDA ctx : <<EvDump(o, ctx, "method")>> \o (IF ctx = 0 THEN <<EvDump(o, ctx, "bytes")>> ELSE <<>>))
ODumps == ForCtx(LAMBDA ctx : <<EvDumps(1, ctx, Junk, 2), EvDumps(1, ctx, <<>>, 0), EvDumps(1, ctx, <<1, 2, 3>>, 3), EvDumps(1, ctx, <<1>>, 3)>>)
OPdump == ForCtx(LAMBDA ctx : Map_(Append(NamesSeq, ""), LAMBDA n : EvPdump(1, ctx, Junk, 1, n)))
OLen(o) == <<[op |-> "len", o |-> o]>>
ODict(o) == ForCtx(LAMBDA ctx : <<EvDict(o, TRUE, ctx), EvDict(o, FALSE, ctx)>>)
OGet(o) == [i \in 1..Len(NamesSeq) |-> EvGet(o, NamesSeq[i], <<"attr", "item", "proxy">>[(i % 3) + 1])]
OGetAll(o) == FlattenSeq([i \in 1..Len(NamesSeq) |-> [k \in 1..3 |-> EvGet(o, NamesSeq[i], <<"attr", "item", "proxy">>[k])]])
OValid(o) == <<[op |-> "valid", o |-> o]>>
OView(o) == <<[op |-> "iter", o |-> o, via |-> "iter"], [op |-> "iter", o |-> o, via |-> "proxy"], [op |-> "view", o |-> o, via |-> "ro"], [op |-> "view", o |-> o, via |-> "mut"]>>
OIn(o) == Map_(Append(NamesSeq, "nope"), LAMBDA n : [op |-> "in", o |-> o, n |-> n])

\* of loads of b
LFull(b, ctx) == <<EvLoad(2, b, ctx, TRUE, <<>>)>>
LTails(b, ctx) ==
    FlattenSeq(Map_(<<<<>>, <<0>>, <<255, 1>>>>, LAMBDA t : <<EvLoad(2, b \o t, ctx, TRUE, <<>>), EvLoad(2, b \o t, ctx, FALSE, <<>>), EvLoads(2, <<3, 2>> \o b \o t, 2, ctx, <<>>)>>))
    \o <<EvLoads(2, b \o b, 0, ctx, <<>>), EvLoads(2, b \o b, Len(b), ctx, <<>>)>>
LParts(b, p, ctx) == FlattenSeq(Map_(NamesSeq, LAMBDA n : <<EvPload(2, [i \in 1..p |-> 7] \o b, p, n, ctx), EvGetf([i \in 1..p |-> 7] \o b, p, n, ctx)>>))
                     \o <<EvPload(2, b, 0, "", ctx)>>
Cuts(b) == SelectSeq([k \in 1..Len(b) |-> k - 1], LAMBDA k : IsThorough \/ k <= 5 \/ k >= Len(b) - 4)
LCuts(b, ctx) == FlattenSeq(Map_(Cuts(b), LAMBDA k : LET c == SubSeq(b, 1, k) IN
                    <<EvLoad(2, c, ctx, k % 2 = 0, <<>>), EvLoads(2, <<1>> \o c, 1, ctx, <<>>)>> \o LParts(c, k % 2, ctx)))
Mutate(b, i, w) == [b EXCEPT ![i] = w]
Bent(b) == FlattenSeq([i \in 1..MinOf(Len(b), IF IsThorough THEN 12 ELSE 6) |->
              Map_(IF IsThorough THEN <<0, 1, 2, 3, 127, 128, 254, 255>> ELSE <<0, 1, 2, 255>>, LAMBDA w : Mutate(b, i, w))]) \o <<b \o <<0>>>>
LBent(b, ctx) == Map_(Bent(b), LAMBDA c : EvLoads(2, c, 0, ctx, <<>>))
LBentParts(b, ctx) == FlattenSeq([i \in 1..Len(Bent(b)) |-> LET c == Bent(b)[i] IN
                         <<EvLoad(2, c, ctx, FALSE, <<>>), EvGetf(c, 0, NamesSeq[(i % Len(NamesSeq)) + 1], ctx), EvPload(2, c, 0, NamesSeq[((i + 1) % Len(NamesSeq)) + 1], ctx)>>])
LGiven(b, ctx) ==
    FlattenSeq([i \in 1..Len(NamesSeq) |-> LET s == Values0[i] IN
        FlattenSeq([k \in 1..Len(s) |-> <<EvLoad(2, b, ctx, TRUE, <<<<NamesSeq[i], s[k]>>>>), EvLoads(2, <<1>> \o b \o <<2>>, 1, ctx, <<<<NamesSeq[i], s[k]>>>>)>>])])
    \o <<EvLoad(2, b, ctx, TRUE, <<<<"nope", IntV(1)>>>>)>>
ForBytes(Op(_, _)) == ForCtx(LAMBDA ctx : IfDumps(ctx, Op(Bytes_(ctx), ctx)))

\* of fields by themselves
EnvOf(ctx) == LET t == ToDict(P, x.c, MapOf(x.f), TRUE, ctx) IN IF t.r = "ok" THEN t.v.f ELSE <<>>
Given(env, i) == SelectSeq(env, LAMBDA e : e[2].t \notin {"np", "undef"})
OFields == ForCtx(LAMBDA ctx : IF ToDict(P, x.c, MapOf(x.f), TRUE, ctx).r # "ok" THEN <<>>
    ELSE LET env == Given(EnvOf(ctx), 0) IN
         FlattenSeq([i \in 1..Len(NamesSeq) |-> FlattenSeq(<<
            Map_(Values0[i] \o Bads0[i] \o <<NoneV>>, LAMBDA v : EvFdump(i, <<v>>, env, ctx)),
            IfDumps(ctx, LET d == Dump(P, x, ctx)
                             b == d.parts[i]
                         IN  <<EvFload(i, b, env, ctx, TRUE), EvFload(i, b \o <<0>>, env, ctx, TRUE), EvFload(i, b \o <<1>>, env, ctx, FALSE),
                               EvFloads(i, Junk \o b \o Junk, 5, env, ctx)>>)>>)]))
\* null and what's almost null
ONulls == LET env == <<>> IN
    FlattenSeq([i \in 1..Len(NamesSeq) |-> LET f == FieldNo(i) IN
        IF f.null.m = "no" THEN <<>>
        ELSE LET n == NullRepr(P, f)
                 w == n \o <<1, 2, 0, 255, 65, 66, 67, 68>>
                 u == <<1, 2, 0, 255, 65, 66>>
             IN  <<EvFload(i, n, env, 0, TRUE), EvFloads(i, <<5>> \o w, 1, env, 0), EvFdump(i, <<NoneV>>, env, 0)>>
                 \o [k \in 1..Len(n) |-> EvFload(i, SubSeq(n, 1, k - 1), env, 0, TRUE)]
                 \o [k \in 1..Len(n) |-> EvFloads(i, SubSeq(n, 1, k - 1) \o u, 0, env, 0)]
                 \o [k \in 1..Len(n) |-> EvFloads(i, Mutate(n, k, (n[k] + 1) % 256) \o u, 0, env, 0)]])

\* Assignments and deletions
InOrder(o) == (PROP = "C20" \/ o = 2) /\ ~IsThorough      \* only each field in turn
MaySet(o, i) ==
    \/ ~InOrder(o)
    \/ /\ NamesSeq[i] \notin DOMAIN MapOf(objs[o].f)
       /\ \A j \in 1..(i - 1) : NamesSeq[j] \in DOMAIN MapOf(objs[o].f) \/ Values0[j] = <<>>
Sets(o) == FlattenSeq([i \in 1..Len(NamesSeq) |-> LET s == IF MaySet(o, i) THEN Values0[i] \o Bads0[i] ELSE <<>>
                                                   vias == <<"attr", "item", "update", "proxy">> IN
              SelectSeq([k \in 1..Len(s) |-> EvSet(o, NamesSeq[i], s[k], vias[((i + k + Len(objs[o].f)) % 4) + 1])],
                        LAMBDA e : ~IsBad(e.n, e.v) \/ CleanBut(o, e.n))])
Dels(o) == LET m == MapOf(objs[o].f) IN
           IF o = 2 /\ ~IsThorough THEN <<>>
           ELSE SelectSeq([i \in 1..Len(NamesSeq) |-> EvDel(o, NamesSeq[i], IF i % 2 = 0 THEN "proxy" ELSE "item")], LAMBDA e : e.n \in DOMAIN m)
Appends(o) == LET m == MapOf(objs[o].f) IN
    FlattenSeq([i \in 1..Len(NamesSeq) |->
        IF NamesSeq[i] \in DOMAIN m /\ m[NamesSeq[i]].t = "list" /\ Len(m[NamesSeq[i]].e) < 3 /\ FieldNo(i).k = "arr" /\ FieldNo(i).comp[1].k \in {"int", "vint"}
        THEN <<[op |-> "append", o |-> o, path |-> <<>>, n |-> NamesSeq[i], v |-> IntV(1)]>> ELSE <<>>])
Inside(o) == LET m == MapOf(objs[o].f) IN       \* assignments to fields of a nested structure
    FlattenSeq([i \in 1..Len(NamesSeq) |->
        IF NamesSeq[i] \in DOMAIN m /\ m[NamesSeq[i]].t = "struct" /\ m[NamesSeq[i]].c = 1 /\ P.cs[1].fields[1].cfn.m = "no"
        THEN <<[op |-> "set", o |-> o, path |-> <<NamesSeq[i]>>, n |-> "x", v |-> IntV(255), via |-> "attr"],
               [op |-> "del", o |-> o, path |-> <<NamesSeq[i]>>, n |-> "y", via |-> "item"]>> ELSE <<>>])
Allowed(e) == e.op # "del" \/ e.path = <<>> \/ e.n \in DOMAIN MapOf(MapOf(objs[e.o].f)[e.path[1]].f)

Unknowns(o) == <<EvGet(o, "nope", "item"), EvGet(o, "nope", "proxy"), EvSet(o, "nope", IntV(1), "item"), EvSet(o, "nope", IntV(1), "proxy"),
                 EvDel(o, "nope", "item"), EvDel(o, "nope", "proxy"), EvNew(2, <<<<"nope", IntV(1)>>>>),
                 EvPload(2, <<1, 2, 3>>, 1, "nope", 0), EvGetf(<<1, 2, 3>>, 1, "nope", 0)>>

News == FlattenSeq([i \in 1..Len(NamesSeq) |-> Map_(Values0[i], LAMBDA v : EvNew(2, <<<<NamesSeq[i], v>>>>))])

Two == PROP = "C19"
Slots == IF Two THEN <<1, 2>> ELSE <<1>>
WithLists == PROP \in {"C17", "C19", "C14"}
WithInner == PROP \in {"C18", "C19", "C14"}
WithLoaded == PROP \in {"C01", "C24", "C13", "C16"}

Mutations ==
    IF x = Nil THEN <<EvNew(1, <<>>)>>
    ELSE IF Two /\ objs[2] = Nil THEN <<EvNew(2, <<>>)>>
    ELSE IF ~Two /\ objs[2] # Nil THEN <<>>
    ELSE FlattenSeq(Map_(Slots, LAMBDA o : Sets(o) \o Dels(o)
                         \o (IF WithLists THEN Appends(o) ELSE <<>>)
                         \o (IF WithInner THEN SelectSeq(Inside(o), Allowed) ELSE <<>>)))
         \o (IF WithLoaded /\ AllClean(1) THEN ForBytes(LAMBDA b, ctx : <<EvLoad(2, b, ctx, TRUE, <<>>)>>) ELSE <<>>)

Menu ==
    IF x = Nil THEN <<>>
    ELSE IF ~Two /\ objs[2] # Nil
         THEN ODump(2) \o ODict(2) \o OGet(2) \o OLen(2) \o OView(2) \o <<EvEq(<<>>, FALSE), EvEq(<<>>, TRUE)>>
    ELSE
    CASE PROP = "C01" -> ODump(1) \o ForBytes(LAMBDA b, ctx : <<EvLoads(2, Junk \o b, 5, ctx, <<>>)>>)
      [] PROP = "C02" -> ODump(1) \o ODumps \o ForCtx(LAMBDA ctx : <<EvPdump(1, ctx, Junk, 5, "")>>)
      [] PROP = "C08" -> OLen(1) \o ODump(1) \o ODict(1)
      [] PROP = "C09" -> ForBytes(LAMBDA b, ctx : LParts(b, 0, ctx) \o LParts(b \o <<0, 1>>, 3, ctx) \o <<EvLoads(2, b, 0, ctx, <<>>)>>
                                     \o (IF Len(b) <= 14 THEN LBentParts(b, ctx) ELSE <<>>))
      [] PROP = "C10" -> ForBytes(LAMBDA b, ctx : LCuts(b, ctx))
      [] PROP = "C11" -> ForBytes(LAMBDA b, ctx : LTails(b, ctx)) \o OFields
      [] PROP = "C12" -> OValid(1) \o ODump(1) \o ODumps \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LBent(b, ctx)) \o OFields
      [] PROP = "C13" -> ODump(1) \o OLen(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LBentParts(b, ctx)) \o OGet(1) \o OFields
      [] PROP = "C14" -> ODump(1) \o OLen(1) \o ODict(1) \o OGetAll(1) \o OPdump \o OValid(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx)) \o News
      [] PROP = "C15" -> ODump(1) \o OLen(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LBent(b, ctx) \o LParts(b, 1, ctx)) \o (IF Len(x.f) = 0 THEN ONulls ELSE <<>>) \o OFields
      [] PROP = "C16" -> ODump(1) \o OLen(1) \o ODict(1) \o OGet(1) \o OPdump \o OValid(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LParts(b, 2, ctx))
                         \o ForCtx(LAMBDA ctx : IfDumps(Ctx0, <<EvLoads(2, Bytes_(Ctx0) \o <<7, 7>>, 0, ctx, <<>>)>>))
      [] PROP = "C17" -> ODump(1) \o OLen(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LBent(b, ctx) \o LParts(b, 1, ctx)) \o OFields
      [] PROP = "C18" -> ODump(1) \o OLen(1) \o ODict(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LParts(b, 1, ctx) \o (IF Len(b) <= 14 THEN LBent(b, ctx) ELSE <<>>)) \o OFields
      [] PROP = "C19" -> IF objs[2] = Nil THEN <<>>
                         ELSE <<EvEq(<<>>, FALSE), EvEq(<<>>, TRUE), EvEq(<<[t |-> "dict", f |-> objs[2].f]>>, FALSE)>>
                              \o (IF Len(objs[2].f) <= 1 THEN OGetAll(1) \o OView(1) \o OIn(1) \o ODict(1) \o ODump(1) ELSE ODict(1) \o OGet(1))
                              \o ODict(2) \o (IF objs[2].f = <<>> THEN Unknowns(1) ELSE <<>>)
      [] PROP = "C20" -> ODump(1) \o OValid(1) \o OLen(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LParts(b, 1, ctx))
      [] PROP = "C21" -> ODump(1) \o OValid(1) \o OLen(1) \o ODict(1) \o OGet(1) \o OPdump \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LParts(b, 1, ctx)) \o OFields
      [] PROP = "C22" -> ODumps \o OPdump \o OLen(1) \o OValid(1) \o ODict(1) \o Unknowns(1)
                         \o ForBytes(LAMBDA b, ctx : LBent(b, ctx) \o Map_(Cuts(b), LAMBDA k : EvLoads(2, SubSeq(b, 1, k), 0, ctx, <<>>)))
      [] PROP = "C23" -> OPdump \o ODumps \o ODump(1)
      [] PROP = "C24" -> ODump(1) \o ODict(1) \o OGet(1) \o ForBytes(LAMBDA b, ctx : LFull(b, ctx) \o LGiven(b, ctx) \o LParts(b, 1, ctx) \o LBent(b, ctx))
      [] OTHER -> <<>>

Declarations == FlattenSeq([c \in 1..Len(P.cs) |-> <<[op |-> "decl", c |-> c]>> \o (IF P.cs[c].errs = {} THEN <<[op |-> "size", c |-> c]>> ELSE <<>>)])

-----------------------------------------------------------------------------
(* The state machine                                                          *)

Init == /\ pid \in {i \in 1..Count : i % Shards = Shard}
        /\ objs = Nothing
        /\ hist = <<>>

Next ==
    IF IsCase(pid) THEN Empty /\ hist' = <<0>> /\ UNCHANGED <<pid, objs>>
    ELSE \E i \in 1..Len(Mutations) :
            LET ev == Mutations[i] IN
            \E o \in Outcomes(P, objs, ev) :
               /\ o.res.r = "ok" /\ o.objs # objs
               /\ objs' = o.objs
               /\ hist' = Append(hist, ev)
               /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars

\* What's printed
Brief_(o) == [res |-> o.res, objs |-> IF o.objs = objs THEN <<>> ELSE o.objs, outs |-> o.outs, pos |-> o.pos]
WithOutcomes(s) == [i \in 1..Len(s) |-> LET os == Outcomes(P, objs, s[i]) IN <<s[i], {Brief_(o) : o \in os}>>]
Emit ==
    IF Empty
    THEN PrintT("@@" \o ToJson(<<"PROGRAM", pid, IF IsCase(pid) THEN K(pid).prog ELSE E(pid).prog, WithOutcomes(Declarations)>>))
    ELSE PrintT("@@" \o ToJson(<<"STATE", pid, hist, objs, WithOutcomes(IF IsCase(pid) THEN K(pid).evs ELSE Menu \o Mutations)>>))

-----------------------------------------------------------------------------
(* The property holds of the specification                                    *)

ForBent(Op(_, _)) == \A ctx \in E(pid).ctxs : Dumpable_(ctx) =>
                        LET b == Bytes_(ctx)
                            s == IF Len(b) <= 14 THEN Bent(b) ELSE <<b>> IN
                        \A i \in 1..Len(s) : Op(s[i], ctx)
HoldsFor(ctx) ==
    CASE PROP = "C01" -> RoundTrip(P, x, ctx)
      [] PROP = "C02" -> Layout(P, x, ctx) /\ \A i \in 1..Len(ODumps) : \A o \in Outcomes(P, objs, ODumps[i]) : Untouched(ODumps[i], o)
      [] PROP = "C08" -> Sizes(P, x, ctx)
      [] PROP = "C09" -> Positions(P, x, ctx)
      [] PROP = "C10" -> Truncated(P, x, ctx)
      [] PROP = "C11" -> Consumes(P, x, ctx)
      [] PROP = "C12" -> Guarded(P, x, ctx)
      [] PROP = "C13" -> Constants_(P, x, ctx)
      [] PROP = "C14" -> Sources(P, x, ctx)
      [] PROP = "C15" -> Nulls(P, x, ctx)
      [] PROP = "C16" -> Absent(P, x, ctx)
      [] PROP = "C17" -> Arrays(P, x, ctx) /\ WrongCounts(P, x, ctx)
      [] PROP = "C18" -> Inner(P, x, ctx)
      [] PROP = "C23" -> PrefixDumps(P, x, ctx)
      [] PROP = "C24" -> Discards(P, x, ctx)
      [] OTHER -> TRUE
Once ==
    CASE PROP \in {"C20", "C21"} ->
            /\ Inherits(E(pid).prog, P.cs) /\ Unchanged(E(pid).prog, P.cs) /\ Refused(E(pid).prog, P.cs) /\ StyleFree(E(pid).prog, P.cs)
      [] OTHER -> TRUE
Holds ==
    IF IsCase(pid) THEN ~Empty => \A i \in 1..Len(K(pid).evs) :
                                           CaseHolds(P, K(pid).evs[i]) \/ (PrintT(<<"case", K(pid).evs[i], Outcomes(P, objs, K(pid).evs[i])>>) /\ FALSE)
    ELSE IF Empty THEN Once
    ELSE IF PROP # "C19" /\ objs[2] # Nil THEN TRUE
    ELSE /\ \A ctx \in E(pid).ctxs : HoldsFor(ctx)
         /\ CASE PROP = "C09" -> ForBent(LAMBDA b, ctx : PartsAgree(P, x.c, b, ctx))
              [] PROP = "C12" -> ForBent(LAMBDA b, ctx : LoadsValid(P, x.c, b, ctx))
              [] PROP = "C13" -> ForBent(LAMBDA b, ctx : LoadsConstants(P, x.c, b, ctx))
              [] PROP = "C15" -> ForBent(LAMBDA b, ctx : \A i \in 1..Len(Fields(P, x.c)) :
                                    FieldNo(i).null.m # "no" /\ FieldNo(i).pres.m = "always" => NullLoads(P, FieldNo(i), b))
              [] PROP = "C17" -> ForBent(LAMBDA b, ctx : LoadsCounts(P, x.c, b, ctx))
              [] PROP = "C19" -> Mapping(P, x, objs[2])
              [] PROP = "C22" -> LET s == Menu \o Mutations IN
                                 \A i \in 1..Len(s) : \A o \in Outcomes(P, objs, s[i]) : Clean(P, objs, s[i], o)
              [] PROP = "C24" -> ForBytes(LAMBDA b, ctx : [i \in 1..Len(LGiven(b, ctx)) |-> Overrides(P, x.c, b, ctx, MapOf(LGiven(b, ctx)[i].kw))])
                                 \in Seq({TRUE})
              [] OTHER -> TRUE
=============================================================================
