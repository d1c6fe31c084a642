-------------------------------- MODULE Props --------------------------------
(* The properties, stated of the specification. Each is about a structure x   *)
(* (a value) of program P and the context ctx, and holds for every such.      *)
EXTENDS Machine

Map(x) == MapOf(x.f)
Dump(P, x, ctx) == DumpStruct(P, x.c, Map(x), ctx)
Load(P, c, b, ctx) == LoadStruct(P, c, b, 0, ctx, EmptyMap)
LoadedUpTo(P, c, b, n, ctx) == LoadFields(P, Fields(P, c), b, 0, ctx, EmptyMap, n, 1)

\* The values that are serialised, and the marker for those that aren't.
Values(P, x, ctx) ==
    LET v == MapOf(ToDict(P, x.c, Map(x), TRUE, ctx).v.f) IN
    [n \in DOMAIN v |-> IF Present(P, FieldAt(P, x.c, n).pres, MapEnv(v), ctx).v THEN v[n] ELSE NP]

Same(P, v, w) == Alike(P, v, w) = OkV(TRUE, 0)
StartsWith(b, w) == Len(w) <= Len(b) /\ SubSeq(b, 1, Len(w)) = w
Before(parts, i) == Len(Concat(SubSeq(parts, 1, i - 1)))

\* Does the end of the field depend on where its input ends?
RECURSIVE OpenEnded(_, _)
OpenEnded(P, f) ==
    \/ f.k = "arr" /\ ((f.count.m = "none" /\ f.halt.m \in {"dflt", "peek"}) \/ OpenEnded(P, f.comp[1]))
    \/ f.k = "nest" /\ \E i \in 1..Len(Fields(P, f.cls)) : OpenEnded(P, Fields(P, f.cls)[i])
    \/ f.k = "uni" /\ (f.dec.m = "data" \/ \E i \in 1..Len(f.choices) : OpenEnded(P, f.choices[i]))
OpenEndedClass(P, c) == \E i \in 1..Len(Fields(P, c)) : OpenEnded(P, Fields(P, c)[i])

\* A value that looks like null is loaded as null, which is a matter of the
\* declaration. Only values of the field itself are looked at.
LooksNull(P, f, v, part, env) ==
    v # NP /\ v # NoneV /\ f.null.m # "no" /\
    LET n == NullBytes(P, f, env) IN n.r = "ok" /\ StartsWith(part, n.b)
\* An array ends where its halting criterion says, which is a matter of the declaration too.
Continues(f, v, ctx, env) ==
    /\ f.k = "arr" /\ v.t = "list"
    /\ \/ f.halt.m = "ctx" /\ Len(v.e) # ctx
       \/ f.halt.m = "ref" /\ Len(v.e) # Small(env[f.halt.r])
Ambiguous(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        v == Values(P, x, ctx)
    IN  \E i \in 1..Len(Fields(P, x.c)) :
            LET f == Fields(P, x.c)[i] IN
            LooksNull(P, f, v[f.name], d.parts[i], MapEnv(v)) \/ Continues(f, v[f.name], ctx, v)
Dumps(P, x, ctx) == Dump(P, x, ctx).r = "ok" /\ ~Ambiguous(P, x, ctx)

\* What loading gives for value v of field f.
RECURSIVE Kept(_, _, _, _)
Kept(P, f, v, env) ==
    CASE v.t = "np" -> f.npv
      [] f.null.m = "val" /\ v = f.null.v -> NoneV
      [] v.t = "str" /\ f.k = "str" /\ f.pad # -1 /\ f.fsize # -1 ->
            LET b == Encode(f.enc, v.c)
                size == IF f.fsize >= 0 THEN f.fsize ELSE Small(env[f.size.r]) IN
            [t |-> "str", c |-> Decode(f.enc, b \o [i \in 1..(size - Len(b)) |-> f.pad]).c]
      [] v.t = "float" /\ f.k = "float" -> [t |-> "float", d |-> Widen(Narrow(v.d, f.fsize).b, f.fsize)]
      [] v.t = "dt" /\ f.k = "ts" -> FromUnits(UnitsOf(v, P.tz, f.res), P.tz, f.res, f.aware).v
      [] v.t \in {"list", "iter"} /\ f.k = "arr" ->
            [t |-> "list", e |-> [i \in 1..Len(v.e) |-> Kept(P, f.comp[1], v.e[i], env)]]
      [] OTHER -> v

-----------------------------------------------------------------------------
\* C01. Loading what was dumped gives the same values, and dumping those the same bytes.
RoundTrip(P, x, ctx) ==
    Dumps(P, x, ctx) =>
        LET d == Dump(P, x, ctx)
            l == Load(P, x.c, d.b, ctx)
            v == Values(P, x, ctx)
        IN  /\ l.r = "ok"
            /\ \A i \in 1..Len(Fields(P, x.c)) :
                  LET f == Fields(P, x.c)[i] IN
                  IF f.disc THEN f.name \notin DOMAIN Map(l.v)
                  ELSE Same(P, Map(l.v)[f.name], Kept(P, f, v[f.name], v))
            /\ (\A i \in 1..Len(Fields(P, x.c)) : ~Fields(P, x.c)[i].disc) =>
                  Dump(P, l.v, ctx).r = "ok" /\ Dump(P, l.v, ctx).b = d.b

\* C02. The bytes are the encodings of the fields that are present, in order.
Layout(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        v == Values(P, x, ctx)
        fs == Fields(P, x.c)
        Part(f) == IF v[f.name] = NP THEN <<>> ELSE DumpField(P, f, v[f.name], ctx, MapEnv(v)).b
    IN  /\ d.r = "ok" => d.b = FlattenSeq([i \in 1..Len(fs) |-> Part(fs[i])])
        /\ P.cs[x.c].base # 0 =>        \* inherited fields come first
              LET bs == Fields(P, P.cs[x.c].base) IN
              \A i \in 1..Len(bs) : fs[i].name = bs[i].name
Untouched(ev, o) ==     \* writing to a stream leaves the rest of it alone
    \A s \in o.outs : /\ SubSeq(s, 1, MinOf(ev.p, Len(ev.pre))) = SubSeq(ev.pre, 1, MinOf(ev.p, Len(ev.pre)))
                      /\ o.res.r = "ok" => SubSeq(s, o.pos + 1, Len(s)) = SubSeq(ev.pre, o.pos + 1, Len(ev.pre))

\* C08. Length, static size and offsets are those of the bytes.
Sizes(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        l == LengthOf(P, x.c, Map(x))
        fs == Fields(P, x.c)
    IN  /\ (ctx = 0 /\ d.r = "ok" /\ l.r = "ok") => l.v = Len(d.b)
        /\ (ctx = 0 /\ d.r = "ok") => l.r # "err"
        /\ l.r = "err" => \A e \in l.e : e[1] = "MissingRequiredValueError"
        /\ d.r = "ok" => /\ P.cs[x.c].size >= 0 => Len(d.b) = P.cs[x.c].size
                         /\ \A i \in 1..Len(fs) : fs[i].off >= 0 => Before(d.parts, i) = fs[i].off

\* C09. Partial and single-field loads agree with full loads, of any bytes b.
PartsAgree(P, c, b, ctx) ==
    LET full == LoadedUpTo(P, c, b, "", ctx)
        fs == Fields(P, c)
    IN  full.r = "ok" =>
        \A i \in 1..Len(fs) :
            LET l == PartialLoad(P, c, b, 0, fs[i].name, ctx)
                m == Map(l.v)
            IN  /\ l.r = "ok"
                /\ DOMAIN m = {fs[j].name : j \in 1..i} \ Discarded(P, c)
                /\ \A n \in DOMAIN m : m[n] = full.m[n]
                /\ l.p <= full.p
                /\ i = Len(fs) => l.p = full.p
                /\ \A q \in {0, 3} : GetField(P, c, Zeros(q) \o b, q, fs[i].name, ctx) = {OkV(full.m[fs[i].name], q)}
\* ... and where each field starts is where the one before ends.
Positions(P, x, ctx) ==
    Dumps(P, x, ctx) =>
        LET d == Dump(P, x, ctx) IN
        \A i \in 1..Len(Fields(P, x.c)) :
            PartialLoad(P, x.c, d.b, 0, Fields(P, x.c)[i].name, ctx).p = Before(d.parts, i + 1)

\* C10. Input that ends too early is reported, or loaded as far as it goes.
Truncated(P, x, ctx) ==
    (Dumps(P, x, ctx) /\ ~OpenEndedClass(P, x.c)) =>
        LET d == Dump(P, x, ctx)
            fs == Fields(P, x.c)
        IN  \A k \in 0..(Len(d.b) - 1) :
            LET b == SubSeq(d.b, 1, k)
                l == Load(P, x.c, b, ctx)
                q == PartialLoad(P, x.c, b, 0, "", ctx)
                n == MaxOf(0, Cardinality({i \in 1..Len(fs) : Before(d.parts, i + 1) <= k}))   \* complete fields
            IN  /\ l.r = "err" /\ \A e \in l.e : e[1] = "UnexpectedEOFError"
                /\ q.r = "ok" /\ q.p = Before(d.parts, n + 1)
                /\ DOMAIN Map(q.v) = {fs[i].name : i \in 1..n} \ Discarded(P, x.c)
                /\ \A i \in 1..Len(fs) :
                      LET u == PartialLoad(P, x.c, b, 0, fs[i].name, ctx) IN
                      IF i <= n THEN u.r = "ok" ELSE u.r = "err" /\ \A e \in u.e : e[1] = "UnexpectedEOFError"

\* C11. Loads consume exactly the bytes of the structure, wherever it starts.
Consumes(P, x, ctx) ==
    (Dumps(P, x, ctx) /\ ~OpenEndedClass(P, x.c)) =>
        LET d == Dump(P, x, ctx).b IN
        \A pre \in {<<>>, <<255>>} : \A t \in {<<>>, <<0>>, <<255, 1, 65>>, d} :
            LET l == LoadStruct(P, x.c, pre \o d \o t, Len(pre), ctx, EmptyMap)
                e == Exactly(l, pre \o d \o t, TRUE)
            IN  /\ l.r = "ok" /\ l.p = Len(pre) + Len(d)
                /\ IF t = <<>> THEN e.r = "ok" ELSE e = Err1("ExtraneousDataError", "")
                /\ Exactly(l, pre \o d \o t, FALSE) = l

\* C12. Validators: nothing they reject is loaded, dumped or (for those of the field) assigned.
Valid(P, c, m) ==
    /\ \A i \in 1..Len(Fields(P, c)) :
          LET n == Fields(P, c)[i].name IN
          (n \in DOMAIN m /\ m[n] # NP) => AllPass(Fields(P, c)[i].vals \o P.cs[c].mv[i], m[n])
    /\ \A i \in 1..Len(P.cs[c].sv) :
          LET k == P.cs[c].sv[i] IN
          (k.a \in DOMAIN m /\ k.b \in DOMAIN m /\ IsInt(m[k.a]) /\ IsInt(m[k.b])) => IntLe(m[k.a], m[k.b])
Guarded(P, x, ctx) ==
    /\ Dump(P, x, ctx).r = "ok" => Valid(P, x.c, Map(x))
    /\ \A f \in {Fields(P, x.c)[i] : i \in 1..Len(Fields(P, x.c))} :
          f.name \in DOMAIN Map(x) => AllPass(f.vals, Map(x)[f.name])       \* only assignments lead here
    /\ P.cs[x.c].base # 0 =>            \* validators are inherited
          /\ \A i \in 1..Len(Fields(P, P.cs[x.c].base)) :
                StartsWith(P.cs[x.c].mv[i], P.cs[P.cs[x.c].base].mv[i])
          /\ StartsWith(P.cs[x.c].sv, P.cs[P.cs[x.c].base].sv)
LoadsValid(P, c, b, ctx) ==
    LET l == Load(P, c, b, ctx) IN l.r = "ok" => Valid(P, c, LoadedUpTo(P, c, b, "", ctx).m)

\* C13. Constants.
Constants_(P, x, ctx) ==
    \A i \in 1..Len(Fields(P, x.c)) :
        LET f == Fields(P, x.c)[i]
            d == Dump(P, x, ctx)
            w == DumpField(P, f, f.const[1], ctx, MapEnv(EmptyMap))
        IN  f.const # <<>> =>
                /\ (d.r = "ok" /\ Values(P, x, ctx)[f.name] # NP) => w.r = "ok" /\ d.parts[i] = w.b
                /\ f.k \in {"bytes", "str", "strz", "vint"} => f.fsize = Len(w.b)
                /\ SetResult(P, x, f.name, f.const[1]) = Err1("ImmutableFieldError", f.name)
LoadsConstants(P, c, b, ctx) ==
    LET l == LoadedUpTo(P, c, b, "", ctx) IN
    l.r = "ok" => \A i \in 1..Len(Fields(P, c)) :
        LET f == Fields(P, c)[i] IN
        f.const # <<>> => l.m[f.name] = f.npv \/ Same(P, l.m[f.name], f.const[1])

\* C14. Where values come from.
Sources(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        m == Map(x)
        t == ToDict(P, x.c, m, TRUE, ctx)
        v == MapOf(t.v.f)
        fs == Fields(P, x.c)
        Lacks(f) == /\ f.name \notin DOMAIN m /\ DefaultOf(f) = Undef /\ f.cfn.m = "no"
                    /\ Present(P, f.pres, SelfEnv(x.c, m), ctx) = OkV(TRUE, 0)
        lack == {i \in 1..Len(fs) : Lacks(fs[i])}
    IN  /\ lack # {} => d.r # "ok"
        /\ (lack # {} /\ d.r = "err" /\ Validate(P, x.c, m) = {} /\ t.r = "err") =>
              \A e \in d.e : e[1] = "MissingRequiredValueError"
        /\ d.r = "ok" =>
              \A i \in 1..Len(fs) :
                 LET f == fs[i]
                     here == Present(P, f.pres, MapEnv(v), ctx).v
                     src == IF f.name \in DOMAIN m THEN m[f.name]
                            ELSE IF DefaultOf(f) # Undef THEN DefaultOf(f)
                            ELSE Compute(P, f.cfn, MapEnv(v)).v
                 IN  /\ here => Dictify(P, src, TRUE, ctx).v = v[f.name]
                     /\ (here /\ f.pres.m # "ctx") => Dictify(P, Read(P, x.c, m, f.name).v, TRUE, ctx).v = v[f.name]
                     /\ d.parts[i] = IF here THEN DumpField(P, f, v[f.name], ctx, MapEnv(v)).b ELSE <<>>
        /\ \A i \in 1..Len(fs) : fs[i].cfn.m # "no" =>
              SetResult(P, x, fs[i].name, IntV(0)) = Err1("ImmutableFieldError", fs[i].name)

\* C15. Null.
NullRepr(P, f) ==
    CASE f.null.m = "bytes" -> f.null.b
      [] f.null.m = "val" -> DumpField(P, [f EXCEPT !.null.m = "no"], f.null.v, 0, MapEnv(EmptyMap)).b
      [] f.null.m = "dflt" -> Zeros(f.fsize)
Nulls(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        v == Values(P, x, ctx)
    IN  \A i \in 1..Len(Fields(P, x.c)) :
        LET f == Fields(P, x.c)[i] IN
        /\ (d.r = "ok" /\ v[f.name] = NoneV) => f.null.m # "no" /\ d.parts[i] = NullRepr(P, f)
        /\ f.null.m = "no" => DumpField(P, f, NoneV, ctx, MapEnv(EmptyMap)) = Err1("UnserializableValueError", f.name)
\* Loading field f from bytes b.
NullLoads(P, f, b) ==
    LET n == NullRepr(P, f)
        l == LoadField(P, f, b, 0, 0, MapEnv(EmptyMap))
        u == LoadField(P, [f EXCEPT !.null.m = "no"], b, 0, 0, MapEnv(EmptyMap))
    IN  f.null.m # "no" =>
        IF StartsWith(b, n) THEN l = OkV(NoneV, Len(n))
        ELSE IF f.null.m = "val" /\ u.r = "ok" /\ u.v = f.null.v THEN l = OkV(NoneV, u.p)
        ELSE l = u

\* C16. A structure with absent fields is one declared without them.
Dropped(P, c, ns) ==
    LET keep == SelectSeq([i \in 1..Len(Fields(P, c)) |-> i], LAMBDA i : Fields(P, c)[i].name \notin ns)
    IN  [P EXCEPT !.cs[c].fields = [k \in 1..Len(keep) |-> [Fields(P, c)[keep[k]] EXCEPT !.off = -1]],
                  !.cs[c].mv = [k \in 1..Len(keep) |-> P.cs[c].mv[keep[k]]]]
ReferredTo(P, c) ==
    UNION {LET f == Fields(P, c)[i] IN {f.pres.r, f.size.r, f.count.r, f.dec.r, f.cfn.r} \cup (IF "r" \in DOMAIN f.halt THEN {f.halt.r} ELSE {}) : i \in 1..Len(Fields(P, c))}
    \cup UNION {{P.cs[c].sv[i].a, P.cs[c].sv[i].b} : i \in 1..Len(P.cs[c].sv)}
Absent(P, x, ctx) ==
    LET v == Values(P, x, ctx)
        d == Dump(P, x, ctx)
        ns == {n \in DOMAIN v : v[n] = NP} \ ReferredTo(P, x.c)
        Q == Dropped(P, x.c, ns)
        y == StructV(Q, x.c, Without(Map(x), ns))
        e == Dump(Q, y, ctx)
        l == LoadedUpTo(P, x.c, d.b, "", ctx)
        k == LoadedUpTo(Q, x.c, d.b, "", ctx)
    IN  d.r = "ok" =>
            /\ e.r = "ok" /\ e.b = d.b
            /\ ~Ambiguous(P, x, ctx) =>
                  /\ l.r = "ok" /\ k.r = "ok" /\ l.p = k.p
                  /\ \A n \in DOMAIN k.m : l.m[n] = k.m[n]
                  /\ \A n \in ns : l.m[n] = FieldAt(P, x.c, n).npv
            /\ \A i \in 1..Len(d.parts) : Fields(P, x.c)[i].name \in ns => d.parts[i] = <<>>

\* C17. Arrays.
Arrays(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        v == Values(P, x, ctx)
    IN  d.r = "ok" => \A i \in 1..Len(Fields(P, x.c)) :
        LET f == Fields(P, x.c)[i]
            a == v[f.name]
        IN  (f.k = "arr" /\ a.t = "list") =>
            /\ f.count.m = "int" => Len(a.e) = f.count.n
            /\ f.count.m = "ref" => Len(a.e) = Small(v[f.count.r])
            /\ d.parts[i] = FlattenSeq([k \in 1..Len(a.e) |-> DumpField(P, f.comp[1], a.e[k], ctx, MapEnv(v)).b])
WrongCounts(P, x, ctx) ==       \* the wrong number of elements is refused
    LET v == Values(P, x, ctx) IN
    ToDict(P, x.c, Map(x), TRUE, ctx).r = "ok" =>
    \A i \in 1..Len(Fields(P, x.c)) :
        LET f == Fields(P, x.c)[i] IN
        (f.k = "arr" /\ v[f.name].t = "list" /\ f.halt.m = "dflt"
            /\ (\/ f.count.m = "int" /\ Len(v[f.name].e) # f.count.n
                \/ f.count.m = "ref" /\ IsInt(v[f.count.r]) /\ Len(v[f.name].e) # Small(v[f.count.r])))
        => Dump(P, x, ctx).r # "ok"
LoadsCounts(P, c, b, ctx) ==
    LET l == LoadedUpTo(P, c, b, "", ctx) IN
    l.r = "ok" => \A i \in 1..Len(Fields(P, c)) :
        LET f == Fields(P, c)[i]
            a == l.m[f.name]
        IN  (f.k = "arr" /\ a.t = "list") =>
            /\ (f.count.m = "int" /\ f.halt.m = "dflt") => Len(a.e) = f.count.n
            /\ (f.count.m = "ref" /\ IsInt(l.m[f.count.r])) => Len(a.e) = Small(l.m[f.count.r])
            /\ f.halt.m = "ref" => Len(a.e) = Small(l.m[f.halt.r])
            /\ f.halt.m = "pop" => \A k \in 1..Len(a.e) : Small(a.e[k]) # f.halt.n
            /\ f.halt.m = "last" => Len(a.e) > 0 /\ Small(a.e[Len(a.e)]) = f.halt.n
                                    /\ \A k \in 1..(Len(a.e) - 1) : Small(a.e[k]) # f.halt.n

\* C18. Nested structures and unions are those inner declarations.
Chosen(P, f, v, x, ctx) ==
    LET n == CASE f.dec.m = "tag" -> Remainder(Refers(P, MapEnv(x), f.dec).v, Len(f.choices)) + 1
               [] f.dec.m = "ctx" -> (ctx % Len(f.choices)) + 1
               [] f.dec.m = "data" -> IF IsInt(v) THEN 1 ELSE 2
    IN  f.choices[n]
Inner(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        v == Values(P, x, ctx)
        OwnDump(g, u) ==    \* of a structure by itself
            IF g.k = "nest" /\ u.t = "dict" THEN DumpStruct(P, g.cls, Map(u), ctx).b
            ELSE DumpField(P, g, u, ctx, MapEnv(v)).b
        OwnLoad(g, b) == IF g.k = "nest" THEN LoadStruct(P, g.cls, b, 0, ctx, EmptyMap)
                         ELSE LoadField(P, g, b, 0, ctx, MapEnv(v))
    IN  d.r = "ok" => \A i \in 1..Len(Fields(P, x.c)) :
        LET f == Fields(P, x.c)[i]
            u == v[f.name]
            g == IF f.k = "uni" THEN Chosen(P, f, u, v, ctx) ELSE f
            l == OwnLoad(g, d.parts[i])
            w == LoadedUpTo(P, x.c, d.b, f.name, ctx)
        IN  (f.k \in {"nest", "uni"} /\ u \notin {NP, NoneV} /\ ~Ambiguous(P, x, ctx)) =>
            /\ d.parts[i] = OwnDump(g, u)
            /\ l.r = "ok" /\ l.p = Len(d.parts[i]) /\ w.r = "ok" /\ w.m[f.name] = l.v

\* C19. Mappings.
Mapping(P, x, y) ==
    LET m == Map(x) IN
    /\ \A n \in DOMAIN m : Read(P, x.c, m, n) = OkV(m[n], 0) \/ m[n] = NP
    /\ \A n \in DOMAIN m : SetResult(P, x, n, m[n]).r = "ok" => SetResult(P, x, n, m[n]).v = x
    /\ \A n \in Names(P, x.c) : LET w == Put(m, n, IntV(1)) IN
          Read(P, x.c, w, n) = OkV(IntV(1), 0) \/ FieldAt(P, x.c, n).pres.m # "always"
    /\ LET e == Equal(P, x, x) IN e = OkV(TRUE, 0) \/ e.r # "ok"
    /\ y.t = "struct" => Equal(P, x, y) = Equal(P, y, x) \/ Equal(P, x, y).r = "err"
    /\ (y.t = "struct" /\ Equal(P, x, y).r = "ok" /\ x.f = y.f) => Equal(P, x, y).v
    /\ (y.t = "struct" /\ Equal(P, x, y).r = "ok" /\ DOMAIN m # DOMAIN Map(y)) => ~Equal(P, x, y).v

\* C20. Inheritance, of resolved classes cs declared as prog.
Inherits(prog, cs) ==
    \A c \in 1..Len(cs) : cs[c].errs = {} =>
        LET own == prog.classes[c].fields
            ad == IF prog.classes[c].meta THEN prog.classes[c].ad
                  ELSE IF cs[c].base # 0 THEN cs[cs[c].base].ad ELSE <<>>
            n == IF cs[c].base = 0 THEN 0 ELSE Len(cs[cs[c].base].fields)
        IN  /\ Len(cs[c].fields) = n + Len(own)
            /\ \A i \in 1..n : cs[c].fields[i] = cs[cs[c].base].fields[i]
            /\ \A i \in 1..Len(own) : LET f == cs[c].fields[n + i] IN
                  /\ f.name = own[i].name
                  /\ (f.k = "int" /\ own[i].endian # "") => f.endian = own[i].endian
                  /\ (f.k = "int" /\ own[i].endian = "" /\ ad = <<>>) => f.endian = "little"
                  /\ (f.k = "int" /\ own[i].endian = "") =>
                        \/ \E k \in 1..Len(ad) : ad[k][1] = f.cname \o "__endian" /\ ad[k][2] = f.endian
                        \/ /\ \A k \in 1..Len(ad) : ad[k][1] # f.cname \o "__endian"
                           /\ \/ \E k \in 1..Len(ad) : ad[k] = <<"endian", f.endian>>
                              \/ f.endian = "little" /\ \A k \in 1..Len(ad) : ad[k][1] # "endian"
            /\ \A i \in 1..n : StartsWith(cs[c].mv[i], cs[cs[c].base].mv[i])
Unchanged(prog, cs) ==           \* later declarations don't change earlier ones
    \A k \in 1..Len(cs) : ResolveAll(SubSeq(prog.classes, 1, k), <<>>) = SubSeq(cs, 1, k)
Contradictory(c, cs) ==
    \/ c.bad # "" \/ c.style = "mixed" \/ Len(c.bases) > 1
    \/ c.style = "dataclass" /\ c.fields = <<>>
    \/ \E i \in 1..Len(c.fields) : c.fields[i].bad # ""
    \/ c.bases # <<>> /\ \E i \in 1..Len(c.fields) : \E j \in 1..Len(cs[c.bases[1]].fields) :
          cs[c.bases[1]].fields[j].name = c.fields[i].name
Refused(prog, cs) == \A k \in 1..Len(cs) : (cs[k].errs # {}) = Contradictory(prog.classes[k], cs)

\* C21. How a class is written down doesn't matter.
Assigned(prog) ==
    [prog EXCEPT !.classes = [c \in 1..Len(@) |->
        IF @[c].style = "dataclass" THEN [@[c] EXCEPT !.style = "assign"] ELSE @[c]]]
Unannotated(cs) == [c \in 1..Len(cs) |-> [cs[c] EXCEPT !.fields = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ann = ""]]]]
StyleFree(prog, cs) ==
    (\A c \in 1..Len(cs) : cs[c].errs = {}) =>
        Unannotated(ResolveAll(Assigned(prog).classes, <<>>)) = Unannotated(cs)

\* C22. Failures change nothing, and say what's wrong.
Documented == {"UnserializableValueError", "ValueSizeError", "ArraySizeError", "MissingRequiredValueError", "ValidationError",
    "ImmutableFieldError", "UnexpectedValueError", "UnexpectedEOFError", "DeserializationError", "ExtraneousDataError",
    "SerializationError", "FieldReferenceError", "UndefinedSizeError", "CannotDetermineNullError", "KeyError", "ValueError",
    "BuggyFieldImplementationError", "*"}
Clean(P, objs, ev, o) ==
    o.res.r = "err" =>
        /\ o.objs = objs
        /\ \A e \in o.res.e : e[1] \in Documented
        /\ ev.op \in {"dumps", "pdump"} =>
              LET x == objs[ev.o]
                  v == MapOf(ToDict(P, x.c, Map(x), TRUE, ev.ctx).v.f)
                  fs == Fields(P, x.c)
                  Part(f) == IF v[f.name] = NP \/ ~Present(P, f.pres, MapEnv(v), ev.ctx).v THEN <<>>
                             ELSE DumpField(P, f, v[f.name], ev.ctx, MapEnv(v)).b
              IN  o.outs # {} /\
                  (ev.op = "dumps" => \A s \in o.outs : \/ s = ev.pre
                                   \/ \E k \in 1..Len(fs) : s = Written(ev.pre, ev.p, FlattenSeq([i \in 1..k |-> Part(fs[i])])))

\* C23. Partial dumps.
PrefixDumps(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        fs == Fields(P, x.c)
    IN  /\ d.r = "ok" =>
              /\ \A i \in 1..Len(fs) :
                    LET q == PartialDump(P, x.c, Map(x), fs[i].name, ctx) IN
                    q.r = "ok" /\ q.b = Concat(SubSeq(d.parts, 1, i))
              /\ PartialDump(P, x.c, Map(x), "", ctx).b = d.b
        /\ \A i \in 1..Len(fs) :        \* what can be written up to a field doesn't depend on later fields that have no value
              LET q == PartialDump(P, x.c, Map(x), fs[i].name, ctx) IN
              (fs[i].name \notin DOMAIN Map(x) /\ DefaultOf(fs[i]) = Undef /\ fs[i].cfn.m = "no"
                 /\ Present(P, fs[i].pres, SelfEnv(x.c, Map(x)), ctx) = OkV(TRUE, 0)) =>
                 q.r # "ok"

\* C24. Discarded fields and given values.
Kept_(P, c) == [P EXCEPT !.cs[c].fields = [i \in 1..Len(@) |-> [@[i] EXCEPT !.disc = FALSE]]]
Discards(P, x, ctx) ==
    LET d == Dump(P, x, ctx)
        Q == Kept_(P, x.c)
        l == Load(P, x.c, d.b, ctx)
        k == Load(Q, x.c, d.b, ctx)
        t == ToDict(P, x.c, Map(x), FALSE, ctx)
    IN  /\ d.r = "ok" => d.b = Dump(Q, x, ctx).b
        /\ (d.r = "ok" /\ l.r = "ok") =>
              /\ k.r = "ok" /\ k.p = l.p
              /\ Map(l.v) = Without(Map(k.v), Discarded(P, x.c))
        /\ d.r = "ok" => (l.r = "ok") = (k.r = "ok")
        /\ t.r = "ok" => {t.v.f[i][1] : i \in 1..Len(t.v.f)} \cap Discarded(P, x.c) = {}
Overrides(P, c, b, ctx, given) ==
    LET l == LoadStruct(P, c, b, 0, ctx, given)
        u == Load(P, c, b, ctx)
    IN  (l.r = "ok" /\ u.r = "ok") =>
            /\ \A n \in DOMAIN given \ Discarded(P, c) : Map(l.v)[n] = given[n]
            /\ (DOMAIN given \cap ReferredTo(P, c) = {}) =>
                  l.p = u.p /\ \A n \in DOMAIN Map(u.v) \ DOMAIN given : Map(l.v)[n] = Map(u.v)[n]
=============================================================================
