------------------------------ MODULE Catalogue ------------------------------
(* Declarations whose instances are explored exhaustively. An item is a field *)
(* with values it takes (dom) and values it must refuse (bad). An entry is a  *)
(* program, the class c of it that's explored, and the values its fields are  *)
(* given.                                                                     *)
EXTENDS Machine

NoSize == [m |-> "none", n |-> 0, r |-> ""]
SizeOf(n) == [m |-> "int", n |-> n, r |-> ""]
Refer(n) == [m |-> "ref", n |-> 0, r |-> n]

RawField ==
    [name |-> "", k |-> "", cname |-> "", size |-> NoSize, byobj |-> FALSE, endian |-> "", signed |-> FALSE,
     enc |-> "", pad |-> -1, fmt |-> "", maxb |-> -1, res |-> "", aware |-> FALSE, const |-> <<>>,
     dflt |-> <<>>, fct |-> <<>>, null |-> [m |-> "no", b |-> <<>>, v |-> NoneV], disc |-> FALSE, npv |-> NP,
     pres |-> [m |-> "always", n |-> 0, r |-> ""], vals |-> <<>>, cfn |-> [m |-> "no", n |-> 0, r |-> ""],
     comp |-> <<>>, count |-> NoSize, halt |-> [m |-> "dflt", n |-> 0], choices |-> <<>>,
     dec |-> [m |-> "", r |-> ""], cls |-> 0, bare |-> FALSE, fsize |-> -1, off |-> -1, dep |-> FALSE,
     bad |-> "", ann |-> "inst"]

BytesV(s) == [t |-> "bytes", b |-> s]
StrV(s) == [t |-> "str", c |-> s]
ListV(s) == [t |-> "list", e |-> s]
FloatV(d) == [t |-> "float", d |-> d]
DictV(s) == [t |-> "dict", f |-> s]
InstV(c, s) == [t |-> "struct", c |-> c, f |-> s]
DateV(day, sec, us, off, aware) == [t |-> "dt", day |-> day, sec |-> sec, us |-> us, off |-> off, aware |-> aware, fold |-> 0]
Map_(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Zone(off) == [off |-> off, dst |-> off, on |-> 0, until |-> 0]
Summer(off, dst, on, until) == [off |-> off, dst |-> dst, on |-> on, until |-> until]

-----------------------------------------------------------------------------
(* Items                                                                      *)

It(f, dom, bad) == [f |-> f, dom |-> dom, bad |-> bad]

IntF(cname, size, signed, endian) ==
    [RawField EXCEPT !.k = "int", !.cname = cname, !.size = SizeOf(size), !.signed = signed, !.endian = endian]
U8  == It(IntF("UInt8", 1, FALSE, ""), {IntV(1), IntV(255)}, {IntV(256), IntV(-1), NoneV})
U16 == It(IntF("UInt16", 2, FALSE, "little"), {IntV(513)}, {IntV(65536)})
I16 == It(IntF("Int16", 2, TRUE, "big"), {IntV(-2), IntV(258)}, {IntV(32768), NoneV})
I24 == It(IntF("Integer", 3, TRUE, "big"), {IntV(-8388608), IntV(1)}, {IntV(8388608)})

VarF(fmt) == [RawField EXCEPT !.k = "vint", !.cname = "VariableLengthInteger", !.fmt = fmt]
Vlq == It(VarF("vlq"), {IntV(1), IntV(300)}, {IntV(-1), NoneV})
Vlq1 == It([VarF("vlq") EXCEPT !.maxb = 1], {IntV(0), IntV(127)}, {IntV(128)})
Compact == It(VarF("compact"), {IntV(-64), IntV(63)}, {NoneV})
Leb == It(VarF("leb128"), {IntV(-65), IntV(8191)}, {NoneV})
Uleb == It(VarF("uleb128"), {IntV(127), IntV(16384)}, {IntV(-1)})

Bytes(n) == It([RawField EXCEPT !.k = "bytes", !.cname = "Bytes", !.size = SizeOf(n)],
               {BytesV([i \in 1..n |-> 65]), BytesV([i \in 1..n |-> 255 * (i % 2)])},
               {BytesV([i \in 1..(n + 1) |-> 1]), NoneV})
StrF(size, enc, pad) == [RawField EXCEPT !.k = "str", !.cname = "String", !.size = SizeOf(size), !.enc = enc, !.pad = pad]
Str == It(StrF(3, "utf-8", 32), {StrV(<<65>>), StrV(<<233, 65>>)}, {StrV(<<8364, 8364>>), StrV(<<55296>>), NoneV})
Str16 == It(StrF(4, "utf-16-le", -1), {StrV(<<65, 233>>), StrV(<<128512>>)}, {StrV(<<65>>), StrV(<<65, 66, 67>>)})
Ascii == It(StrF(2, "ascii", 0), {StrV(<<>>), StrV(<<65, 66>>)}, {StrV(<<233>>), StrV(<<65, 66, 67>>)})
ZF(enc) == [RawField EXCEPT !.k = "strz", !.cname = "StringZ", !.enc = enc]
Z8  == It(ZF("utf-8"), {StrV(<<>>), StrV(<<233, 65>>)}, {StrV(<<55297>>), NoneV})
Z16 == It(ZF("utf-16-be"), {StrV(<<256>>), StrV(<<65, 1>>)}, {StrV(<<56320>>)})
ZPad == It([ZF("latin-1") EXCEPT !.size = SizeOf(3), !.pad = 46], {StrV(<<65>>), StrV(<<>>), StrV(<<233, 1>>)},
           {StrV(<<65, 66, 67>>)})
Flt(n) == It([RawField EXCEPT !.k = "float", !.cname = CASE n = 2 -> "Float16" [] n = 4 -> "Float32" [] OTHER -> "Float64",
                              !.size = SizeOf(n), !.endian = "big"],
             {FloatV(<<63, 240, 0, 0, 0, 0, 0, 0>>), FloatV(<<128, 0, 0, 0, 0, 0, 0, 0>>)},
             IF n = 8 THEN {NoneV} ELSE {FloatV(<<127, 224, 0, 0, 0, 0, 0, 0>>)})
Uuid(fmt) == It([RawField EXCEPT !.k = "uuid", !.cname = "UUID4", !.fmt = fmt],
                {[t |-> "uuid", u |-> [i \in 1..16 |-> i]], [t |-> "uuid", u |-> [i \in 1..16 |-> 255]]}, {NoneV})
TsF(size, res, aware) == [RawField EXCEPT !.k = "ts", !.cname = "Timestamp", !.size = SizeOf(size), !.res = res,
                                          !.aware = aware, !.signed = TRUE, !.endian = "little"]
Ts == It(TsF(4, "s", TRUE), {DateV(10000, 7, 0, 0, TRUE), DateV(-1, 86399, 0, 0, TRUE)}, {DateV(80000, 0, 0, 0, TRUE), NoneV})
TsMs == It(TsF(8, "ms", FALSE), {DateV(10000, 7, 1000, 0, FALSE), DateV(-5, 0, 999000, 0, FALSE)}, {NoneV})

ArrF(comp) == [RawField EXCEPT !.k = "arr", !.cname = "Array", !.comp = <<comp>>]
ArrOf(it, n) == It([ArrF(it.f) EXCEPT !.count = SizeOf(n)],
                   {ListV([i \in 1..n |-> v]) : v \in it.dom}
                   \cup {ListV([i \in 1..n |-> LET v == CHOOSE x \in it.dom : TRUE
                                                   w == CHOOSE x \in it.dom : x # v IN IF i = 1 THEN v ELSE w])},
                   {ListV([i \in 1..(n + 1) |-> CHOOSE x \in it.dom : TRUE]), ListV(<<>>), NoneV})
ArrEof(it) == It(ArrF(it.f), {ListV(<<>>)} \cup {ListV(<<v, w>>) : v \in it.dom, w \in it.dom}, {NoneV})
ArrLast(n) == It([ArrF(U8.f) EXCEPT !.halt = [m |-> "last", n |-> n]],
                 {ListV(<<IntV(n)>>), ListV(<<IntV(n + 1), IntV(n)>>)}, {NoneV})
ArrPop(n) == [ArrLast(n) EXCEPT !.f.halt.m = "pop", !.dom = {ListV(<<IntV(n)>>), ListV(<<>>), ListV(<<IntV(n + 1), IntV(n)>>)}]
ArrPeek(n) == It([ArrF(Vlq.f) EXCEPT !.halt = [m |-> "peek", n |-> n]], {ListV(<<>>), ListV(<<IntV(n + 1), IntV(300)>>)}, {NoneV})
ArrRef(r) == It([ArrF(Vlq.f) EXCEPT !.halt = [m |-> "ref", n |-> 0, r |-> r]], {ListV(<<>>), ListV(<<IntV(300)>>), ListV(<<IntV(1), IntV(300)>>)}, {NoneV})
ArrBoth(n, c) == It([ArrF(U8.f) EXCEPT !.halt = [m |-> "last", n |-> n], !.count = SizeOf(c)],      \* the count is for dumps
                    {ListV([i \in 1..c |-> IF i = c THEN IntV(n) ELSE IntV(n + 1)])}, {ListV(<<IntV(n)>>)})
ArrCtx == It([ArrF(Vlq.f) EXCEPT !.halt = [m |-> "ctx", n |-> 0]], {ListV(<<IntV(1), IntV(300)>>)}, {NoneV})

\* Class 1 of every program: a structure to be nested.
InnerXY(x, y) == <<<<"x", x>>, <<"y", y>>>>
Nest == It([RawField EXCEPT !.k = "nest", !.cname = "Nested", !.cls = 1],
           {InstV(1, InnerXY(IntV(1), IntV(300))), DictV(InnerXY(IntV(255), IntV(1)))},
           {InstV(1, <<<<"x", IntV(1)>>>>), DictV(<<<<"x", IntV(1)>>, <<"w", IntV(1)>>>>), InstV(1, InnerXY(IntV(256), IntV(1))), NoneV})
\* Class 2 of every program: one with a nested one, an optional field and an array.
DeepV(a, x, w, l) == <<<<"a", a>>, <<"n", InstV(1, x)>>, <<"o", w>>, <<"l", ListV(l)>>>>
Deep == It([RawField EXCEPT !.k = "nest", !.cname = "Nested", !.cls = 2],
           {InstV(2, DeepV(IntV(1), InnerXY(IntV(1), IntV(300)), IntV(-2), <<DictV(InnerXY(IntV(1), IntV(2)))>>)),
            InstV(2, <<<<"a", IntV(0)>>, <<"n", DictV(InnerXY(IntV(1), IntV(1)))>>, <<"l", ListV(<<>>)>>>>)},
           {InstV(2, DeepV(IntV(1), <<<<"x", IntV(1)>>>>, IntV(-2), <<>>))})

UniF(choices, m, r) == [RawField EXCEPT !.k = "uni", !.cname = "Union", !.choices = choices, !.dec = [m |-> m, r |-> r]]
Bare(c) == [RawField EXCEPT !.k = "nest", !.cname = "Nested", !.cls = c, !.bare = TRUE]
UniData == It(UniF(<<U8.f, Z8.f>>, "data", ""), {IntV(1), StrV(<<233>>)}, {IntV(256), StrV(<<55296>>)})
UniCtx  == It(UniF(<<Bytes(2).f, Bare(1)>>, "ctx", ""), {BytesV(<<1, 2>>), InstV(1, InnerXY(IntV(1), IntV(300)))},
              {BytesV(<<1>>)})
UniTag(tag) == It(UniF(<<Vlq.f, Nest.f, Bare(2)>>, "tag", tag),
                  {IntV(300), DictV(InnerXY(IntV(255), IntV(1))),
                   InstV(2, DeepV(IntV(1), InnerXY(IntV(1), IntV(300)), IntV(-2), <<InstV(1, InnerXY(IntV(1), IntV(2)))>>))},
                  {IntV(-1)})

Scalars == <<I16, I24, Vlq, Compact, Leb, Uleb, Bytes(2), Str, Str16, Z8, Z16, ZPad, Flt(4), Uuid("canonical_string"), Ts, TsMs>>
Containers(u) == <<ArrOf(U8, 2), ArrOf(Vlq, 2), ArrOf(Z8, 1), ArrOf(Nest, 2), ArrOf(ArrOf(I16, 1), 2), Nest, Deep, UniData, UniCtx>>
Kinds(u) == Scalars \o Containers(0)
FewKinds == <<I16, Vlq, Bytes(2), Str, Z8, ArrOf(U8, 2), Nest>>

-----------------------------------------------------------------------------
(* Items made from others                                                     *)

Within(it, dom) == [it EXCEPT !.dom = dom, !.bad = @ \ {NoneV}]
NoBad(it) == [it EXCEPT !.bad = {}]
NullBy(it, b) == [it EXCEPT !.f.null = [m |-> "bytes", b |-> b, v |-> NoneV], !.dom = @ \cup {NoneV}, !.bad = @ \ {NoneV}]
NullIs(it, v) == [it EXCEPT !.f.null = [m |-> "val", b |-> <<>>, v |-> v], !.dom = @ \cup {NoneV}, !.bad = @ \ {NoneV}]
NullDflt(it) == [it EXCEPT !.f.null = [m |-> "dflt", b |-> <<>>, v |-> NoneV], !.dom = @ \cup {NoneV}, !.bad = @ \ {NoneV}]
IfInner(it, m, n, r, s) == [it EXCEPT !.f.pres = [m |-> m, n |-> n, r |-> r, s |-> s]]
If(it, m, n, r) == [it EXCEPT !.f.pres = [m |-> m, n |-> n, r |-> r]]
Instead(it, v) == [it EXCEPT !.f.npv = v]
Const(it, v) == [it EXCEPT !.f.const = <<v>>, !.dom = {}, !.bad = {v}]
Unsized(it) == [it EXCEPT !.f.size = NoSize, !.f.pad = -1]
Dflt(it, v) == [it EXCEPT !.f.dflt = <<v>>]
Fct(it, v) == [it EXCEPT !.f.fct = <<v>>]
Disc(it) == [it EXCEPT !.f.disc = TRUE]
Val(it, m, n) == [it EXCEPT !.f.vals = Append(@, [m |-> m, n |-> n])]
CompInner(it, m, n, r, s) == [it EXCEPT !.f.cfn = [m |-> m, n |-> n, r |-> r, s |-> s], !.dom = {}, !.bad = {IntV(1)}]
Comp(it, m, n, r) == [it EXCEPT !.f.cfn = [m |-> m, n |-> n, r |-> r], !.dom = {}, !.bad = {IntV(1)}]
SizedBy(it, n) == [it EXCEPT !.f.size = Refer(n)]
CountedBy(it, n) == [it EXCEPT !.f.count = Refer(n)]
ByObj(it) == [it EXCEPT !.f.byobj = TRUE]
Ann(it, a) == [it EXCEPT !.f.ann = a]
Endian(it, e) == [it EXCEPT !.f.endian = e]
N(name, it) == [it EXCEPT !.f.name = name]

\* Of each value or condition, only some.
Some(it) == [it EXCEPT !.dom = {CHOOSE v \in it.dom : v # NoneV}, !.bad = {}]
Tag(name, vs) == N(name, It(IntF("UInt8", 1, FALSE, ""), {IntV(v) : v \in vs}, {}))

-----------------------------------------------------------------------------
(* Programs                                                                   *)

Class(name, bases, style, fields) ==
    [name |-> name, bases |-> bases, style |-> style, meta |-> FALSE, ad |-> <<>>, fields |-> fields, mv |-> <<>>,
     sv |-> <<>>, bad |-> "", xinit |-> FALSE]
InnerClass == Class("C1", <<>>, "assign", <<N("x", U8).f, N("y", Vlq).f>>)
DeepClass == Class("C2", <<>>, "dataclass",
                   <<N("a", U8).f, N("n", Nest).f, N("o", If(I16, "bit", 1, "a")).f,
                     [ArrF(Nest.f) EXCEPT !.count = Refer("a"), !.name = "l"]>>)    \* as many elements as a says
Prelude == <<InnerClass, DeepClass>>

FieldsOf(items) == [i \in 1..Len(items) |-> items[i].f]
NamesOf(items) == {items[i].f.name : i \in 1..Len(items)}
ItemAt(items, n) == items[CHOOSE i \in 1..Len(items) : items[i].f.name = n]
Entry(classes, c, items, ctxs) ==
    [prog |-> [classes |-> classes, tz |-> Summer(3600, 7200, 85, 300)], c |-> c,
     dom |-> [n \in NamesOf(items) |-> ItemAt(items, n).dom],
     bad |-> [n \in NamesOf(items) |-> ItemAt(items, n).bad], ctxs |-> ctxs]
Simple(items) == Entry(Append(Prelude, Class("C3", <<>>, "assign", FieldsOf(items))), 3, items, {0})
InContext(items, ctxs) == [Simple(items) EXCEPT !.ctxs = ctxs]
With(e, mv, sv) == [e EXCEPT !.prog.classes[3].mv = mv, !.prog.classes[3].sv = sv]
AsData(e) == [e EXCEPT !.prog.classes[3].style = "dataclass"]

Head1 == N("a", Within(U8, {IntV(1)}))
Tail1 == N("z", U16)
\* Field "f" between two others.
Mid(it) == Simple(<<Head1, N("f", it), Tail1>>)
MidCtx(it) == [Mid(it) EXCEPT !.ctxs = {0, 1}]
\* The same in a derived structure, declared with annotations.
Derived(it) ==
    Entry(Prelude \o <<Class("C3", <<>>, "assign", <<Head1.f>>),
                       Class("C4", <<3>>, "dataclass", <<N("f", it).f, Tail1.f>>)>>,
          4, <<Head1, N("f", it), Tail1>>, {0})
Each(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

Optional(it) == Simple(<<Tag("a", {0, 1}), N("f", If(it, "bit", 1, "a")), Tail1>>)
OptionalCtx(it) == InContext(<<N("f", If(it, "ctx", 1, "")), Tail1>>, {0, 1})
Counted(u) == <<
    Simple(<<Tag("n", {0, 1, 2}), N("f", CountedBy(It(ArrF(Vlq.f), {ListV(<<>>), ListV(<<IntV(300)>>), ListV(<<IntV(1), IntV(1)>>)}, {}), "n")), Tail1>>),
    Simple(<<Tag("n", {0, 2}), N("f", ByObj(SizedBy(It([RawField EXCEPT !.k = "bytes", !.cname = "Bytes"], {BytesV(<<>>), BytesV(<<1, 2>>)}, {}), "n"))), Tail1>>),
    Simple(<<Tag("n", {0, 3}), N("f", SizedBy(It(StrF(0, "utf-8", 32), {StrV(<<>>), StrV(<<233, 65>>)}, {}), "n")), Tail1>>),
    Simple(<<N("n", Comp(U8, "len", 0, "f")), N("f", CountedBy(It(ArrF(Nest.f), {ListV(<<>>), ListV(<<DictV(InnerXY(IntV(1), IntV(2)))>>)}, {}), "n")), Tail1>>),
    Simple(<<N("n", Comp(Vlq, "len", 0, "f")), Head1, N("f", SizedBy(It([RawField EXCEPT !.k = "bytes", !.cname = "Bytes"], {BytesV(<<>>), BytesV(<<1, 2>>)}, {}), "n"))>>),
    Simple(<<N("n", Dflt(NoBad(Within(U8, {IntV(1)})), IntV(2))), N("f", CountedBy(It(ArrF(U8.f), {ListV(<<IntV(7)>>), ListV(<<IntV(7), IntV(8)>>)}, {}), "n"))>>)>>
Tagged == Simple(<<Tag("t", {0, 1, 2}), N("f", UniTag("t")), Tail1>>)
OpenEnded1(u) == <<Simple(<<Head1, N("f", ArrEof(Vlq))>>), Simple(<<Head1, N("f", ArrEof(Nest))>>)>>
Halting(u) == <<Simple(<<Head1, N("f", ArrLast(7)), Tail1>>), Simple(<<Head1, N("f", ArrPeek(1)), N("z", Within(U16, {IntV(257)}))>>),
             InContext(<<N("f", ArrCtx), Tail1>>, {2, 1}),
             Simple(<<Tag("n", {0, 1, 2}), N("f", ArrRef("n")), Tail1>>), Simple(<<Head1, N("f", ArrBoth(7, 3)), Tail1>>)>>

Nullables(u) == <<NullBy(I16, <<255, 255>>), NullIs(I16, IntV(258)), NullDflt(I16), NullIs(Vlq, IntV(300)), NullBy(Vlq, <<128>>),
               NullDflt(Bytes(2)), NullBy(Bytes(2), <<65, 66>>), NullIs(Str, StrV(<<65, 32, 32>>)), NullDflt(Str),
               NullBy(Z8, <<255>>), NullIs(Z8, StrV(<<65>>)), NullBy(Flt(4), <<0, 0, 0, 0>>), NullDflt(Uuid("binary_var_1")),
               NullBy(ArrOf(U8, 2), <<0, 0>>), NullDflt(ArrOf(I16, 1)), NullBy(Nest, <<255, 255>>), NullBy(ArrOf(Vlq, 2), <<255>>)>>
Constants(u) == <<Const(I16, IntV(258)), Const(Bytes(2), BytesV(<<1, 255>>)), Const(Unsized(Bytes(2)), BytesV(<<1, 2, 3>>)),
               Const(Unsized(Str), StrV(<<233, 65>>)), Const(Z16, StrV(<<65>>)), Const(Vlq, IntV(300)), Const(Leb, IntV(-65)),
               Const(Flt(4), FloatV(<<63, 240, 0, 0, 0, 0, 0, 0>>)), Const(Uuid("hex_string"), [t |-> "uuid", u |-> [i \in 1..16 |-> i]]),
               Const(ArrOf(U8, 2), ListV(<<IntV(1), IntV(2)>>)), Const(Str16, StrV(<<65, 233>>))>>
Conditions(u) == <<
    Optional(I16), Optional(Z8), Optional(Instead(I16, IntV(9))), Optional(Dflt(I16, IntV(258))), Optional(Fct(Vlq, IntV(5))),
    Optional(NullBy(I16, <<255, 255>>)), Optional(Const(I16, IntV(258))), Optional(ArrOf(Vlq, 2)), Optional(Nest), Optional(Disc(I16)),
    Optional(Instead(Disc(Str), NoneV)), Optional(Val(I16, "ge", 0)), Optional(Comp(U8, "copy", 0, "a")),
    OptionalCtx(I16), OptionalCtx(Z8), OptionalCtx(Instead(Bytes(2), NoneV)), OptionalCtx(Nest),
    Simple(<<Tag("a", {0, 1, 2}), N("f", If(I16, "nobit", 1, "a")), N("g", If(Vlq, "eq", 2, "a")), N("h", If(Some(Z8), "ne", 0, "a"))>>),
    Simple(<<N("a", Dflt(Within(U8, {IntV(0)}), IntV(1))), N("f", If(I16, "bit", 1, "a")), Tail1>>),
    Simple(<<Disc(Tag("a", {0, 1})), N("f", If(I16, "bit", 1, "a")), Tail1>>),
    Simple(<<N("a", Comp(U8, "copy", 0, "z")), N("f", If(I16, "bit", 1, "a")), N("z", Within(U8, {IntV(0), IntV(1)}))>>),
    InContext(<<N("n", NoBad(Nest)), N("f", If(Some(I16), "ctx", 2, "")), N("u", NoBad(UniCtx))>>, {0, 1, 2, 3})>>

=============================================================================
