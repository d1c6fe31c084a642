------------------------------- MODULE Machine -------------------------------
(* A user of the library: declares classes, makes instances, changes, reads,  *)
(* serialises and loads them. Each operation is an event ev; Outcomes gives   *)
(* everything it may lead to, from the instances objs that exist before.      *)
EXTENDS Binobj

-----------------------------------------------------------------------------
(* Declarations. A class as it is written down is resolved to what it means.  *)

BadError(code) ==
    CASE code \in {"count", "noval", "valfn", "valobj"} -> "TypeError"
      [] code = "several" -> "InvalidTypeAnnotationError"
      [] OTHER -> "ConfigurationError"

RECURSIVE ResolveField(_, _, _, _)
ResolveField(f, ad, off, done) ==
    LET comp == [i \in 1..Len(f.comp) |-> ResolveField(f.comp[i], <<>>, -1, done)]
        chs  == [i \in 1..Len(f.choices) |-> ResolveField(f.choices[i], <<>>, -1, done)]
        Given(key) == {i \in 1..Len(ad) : ad[i][1] = key}
        en == IF f.endian # "" THEN f.endian
              ELSE IF f.k = "int" /\ Given(f.cname \o "__endian") # {}
                   THEN ad[CHOOSE i \in Given(f.cname \o "__endian") : TRUE][2]
              ELSE IF f.k = "int" /\ Given("endian") # {}
                   THEN ad[CHOOSE i \in Given("endian") : TRUE][2]
              ELSE "little"
        csize == IF f.const = <<>> \/ f.k \notin {"bytes", "str", "strz", "vint"} THEN -1
                 ELSE LET x == SizeForValue(f, f.const[1]) IN IF x.r = "ok" THEN x.v ELSE -1
        size == IF f.k = "uuid" THEN UuidSize(f.fmt)
                ELSE IF f.k = "nest" THEN done[f.cls].size
                ELSE IF f.k = "arr" THEN IF f.count.m = "int" /\ comp[1].fsize >= 0
                                         THEN f.count.n * comp[1].fsize ELSE -1
                ELSE IF f.size.m = "int" THEN f.size.n
                ELSE IF f.size.m = "ref" THEN -2
                ELSE csize
        dep == \/ f.pres.m # "always" \/ size = -2 \/ f.k = "uni"
               \/ f.k = "arr" /\ (f.count.m = "ref" \/ f.halt.m # "dflt" \/ comp[1].dep)
    IN  [f EXCEPT !.comp = comp, !.choices = chs, !.endian = en, !.fsize = size, !.off = off, !.dep = dep]

\* Own fields after those in acc; off is where the next one starts or -1.
RECURSIVE ResolveFields(_, _, _, _, _)
ResolveFields(fs, ad, off, done, acc) ==
    IF fs = <<>> THEN [fields |-> acc, end |-> off]
    ELSE LET f == ResolveField(Head(fs), ad, off, done)
             next == IF off >= 0 /\ f.fsize >= 0 /\ f.pres.m = "always" THEN off + f.fsize ELSE -1
         IN  ResolveFields(Tail(fs), ad, next, done, Append(acc, f))

ResolveClass(c, done) ==
    LET base == IF c.bases = <<>>
                THEN [base |-> 0, fields |-> <<>>, mv |-> <<>>, sv |-> <<>>, size |-> 0, ad |-> <<>>, extra |-> {}]
                ELSE done[c.bases[1]]
        ad   == IF c.meta THEN c.ad ELSE base.ad
        rf   == ResolveFields(c.fields, ad, base.size, done, base.fields)
        own  == {c.fields[i].name : i \in 1..Len(c.fields)}
        bads == {BadError(c.fields[i].bad) : i \in {j \in 1..Len(c.fields) : c.fields[j].bad # ""}}
        redef == {n \in own : \E i \in 1..Len(base.fields) : base.fields[i].name = n}
        errs == bads \cup (IF c.bad # "" THEN {BadError(c.bad)} ELSE {})
                \cup (IF redef # {} THEN {"FieldRedefinedError"} ELSE {})
                \cup (IF Len(c.bases) > 1 THEN {"MultipleInheritanceError"} ELSE {})
                \cup (IF c.style = "mixed" THEN {"MixedDeclarationsError"} ELSE {})
                \cup (IF c.style = "dataclass" /\ own = {} THEN {"NoDefinedFieldsError"} ELSE {})
        For(n) == LET k == SelectSeq(c.mv, LAMBDA v : \E j \in 1..Len(v.ns) : v.ns[j] = n)
                  IN  [j \in 1..Len(k) |-> k[j].v]
    IN  IF errs # {}
        THEN [base |-> 0, fields |-> <<>>, mv |-> <<>>, sv |-> <<>>, size |-> 0, ad |-> <<>>, extra |-> {}, errs |-> errs]
        ELSE [base |-> IF c.bases = <<>> THEN 0 ELSE c.bases[1],
              fields |-> rf.fields,
              mv |-> [i \in 1..Len(rf.fields) |->
                        (IF i <= Len(base.mv) THEN base.mv[i] ELSE <<>>) \o For(rf.fields[i].name)],
              sv |-> base.sv \o c.sv,
              size |-> rf.end, ad |-> ad, errs |-> {},
              \* what the constructor takes besides values of fields
              extra |-> IF c.xinit THEN {"extra"} ELSE base.extra]

RECURSIVE ResolveAll(_, _)
ResolveAll(cs, done) == IF Len(done) = Len(cs) THEN done
                        ELSE ResolveAll(cs, Append(done, ResolveClass(cs[Len(done) + 1], done)))

\* Classes cs at time t: what default factories make may change with time.
RECURSIVE FieldsAt(_, _)
FieldsAt(fs, t) ==
    [i \in 1..Len(fs) |->
        [fs[i] EXCEPT !.fct = IF @ = <<>> THEN <<>> ELSE <<@[(t % Len(@)) + 1]>>,
                      !.comp = FieldsAt(@, t), !.choices = FieldsAt(@, t)]]
ClassesAt(cs, t) == [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.fields = FieldsAt(@, t)]]

ResolveAt(prog, t) == [cs |-> ResolveAll(ClassesAt(prog.classes, t), <<>>), tz |-> prog.tz]
Resolve(prog) == ResolveAt(prog, 0)

-----------------------------------------------------------------------------
(* Operations                                                                 *)

Nil == [t |-> "nil"]
KeyErr == Err1("KeyError", "")

\* What an operation may lead to: a result, the instances after it, and what
\* may then be in the stream it wrote to (nothing is said if outs is empty) and
\* where in it (unless pos is -1).
Out(res, objs) == [res |-> res, objs |-> objs, outs |-> {}, pos |-> -1]
OutS(res, objs, outs, pos) == [res |-> res, objs |-> objs, outs |-> outs, pos |-> pos]

\* Stream content pre after writing b at position p.
Written(pre, p, b) ==
    IF b = <<>> THEN pre
    ELSE SubSeq(pre, 1, MinOf(p, Len(pre))) \o Zeros(MaxOf(0, p - Len(pre))) \o b
         \o SubSeq(pre, p + Len(b) + 1, Len(pre))

\* Instance v with the instance reached by path replaced by W of it.
RECURSIVE At(_, _), Update(_, _, _, _)
At(v, path) == IF path = <<>> THEN v ELSE At(MapOf(v.f)[path[1]], Tail(path))
Update(P, v, path, w) ==
    IF path = <<>> THEN w
    ELSE StructV(P, v.c, Put(MapOf(v.f), path[1], Update(P, MapOf(v.f)[path[1]], Tail(path), w)))

SetResult(P, v, n, val) ==
    LET f == FieldAt(P, v.c, n) IN
    IF f.cfn.m # "no" \/ f.const # <<>> THEN Err1("ImmutableFieldError", n)
    ELSE IF ~AllPass(f.vals, val) THEN Err1("ValidationError", n)
    ELSE OkV(StructV(P, v.c, Put(MapOf(v.f), n, val)), 0)

\* The result of loading all of b when x is that of loading a prefix of it.
Exactly(x, b, exact) ==
    IF x.r = "ok" /\ exact /\ x.p < Len(b) THEN Err1("ExtraneousDataError", "") ELSE x

Outcomes(P, objs, ev) ==
    LET obj == objs[ev.o]
        m   == MapOf(obj.f)
        Same(res) == {Out(res, objs)}
        Plain(x) == Same(IF x.r = "ok" THEN OkV(x.v, 0) ELSE x)
        Store(x, o) ==          \* x.v is the instance now in slot o
            IF x.r = "ok" THEN {[Out(OkV(0, 0), [objs EXCEPT ![o] = x.v]) EXCEPT !.pos = x.p]}
            ELSE Same(x)
        Stream(x) ==            \* x.b was written
            IF x.r = "ok" THEN {OutS(OkV(0, 0), objs, {Written(ev.pre, ev.p, x.b)}, ev.p + Len(x.b))}
            ELSE IF x.r = "any" THEN Same(Unspecified)
            ELSE {OutS(Err(x.e), objs, {Written(ev.pre, ev.p, w) : w \in x.w}, -1)}
        fld == Fields(P, ev.c)[ev.f]
        env == MapEnv(MapOf(ev.env))
    IN
    CASE ev.op = "decl" ->
            Same(IF P.cs[ev.c].errs = {} THEN OkV(0, 0)
                 ELSE Err({<<e, "">> : e \in P.cs[ev.c].errs}))
      [] ev.op = "size" ->
            Same(OkV(<<P.cs[ev.c].size, [i \in 1..Len(Fields(P, ev.c)) |-> Fields(P, ev.c)[i].off],
                       [i \in 1..Len(Fields(P, ev.c)) |-> i - 1]>>, 0))
      \* One field by itself
      [] ev.op = "fdump" ->
            LET v == IF ev.v = <<>> THEN DefaultOf(fld) ELSE ev.v[1]
                x == DumpField(P, fld, v, ev.ctx, env)
            IN  IF v = Undef THEN Same(Err1("MissingRequiredValueError", fld.name))
                ELSE Same(IF x.r = "ok" THEN OkV(x.b, 0) ELSE x)
      [] ev.op = "fload" ->
            Plain(Exactly(LoadField(P, fld, ev.b, 0, ev.ctx, env), ev.b, ev.exact))
      [] ev.op = "floads" ->
            LET x == LoadField(P, fld, ev.b, ev.p, ev.ctx, env) IN
            {[Out(IF x.r = "ok" THEN OkV(x.v, 0) ELSE x, objs) EXCEPT
                 !.pos = IF x.r = "ok" THEN x.p ELSE -1]}
      \* Instances
      [] ev.op = "new" ->
            IF \E i \in 1..Len(ev.kw) : ev.kw[i][1] \notin Names(P, ev.c) \cup P.cs[ev.c].extra
            THEN Same(Err1("UnexpectedValueError", ""))
            ELSE Store(OkV(StructV(P, ev.c, Without(MapOf(ev.kw), P.cs[ev.c].extra)), -1), ev.o)
      [] ev.op = "set" ->
            LET v == At(obj, ev.path) IN
            IF ev.n \notin Names(P, v.c) THEN Same(KeyErr)
            ELSE LET x == SetResult(P, v, ev.n, ev.v) IN
                 IF x.r = "ok" THEN Store(OkV(Update(P, obj, ev.path, x.v), -1), ev.o) ELSE Same(x)
      [] ev.op = "append" ->    \* to a list held by the instance, or just made for it
            LET v == At(obj, ev.path)
                l == MapOf(v.f)[ev.n]
                w == StructV(P, v.c, Put(MapOf(v.f), ev.n, [t |-> "list", e |-> Append(l.e, ev.v)]))
            IN  IF ev.n \in DOMAIN MapOf(v.f) THEN Store(OkV(Update(P, obj, ev.path, w), -1), ev.o)
                ELSE Same(OkV(0, 0))
      [] ev.op = "clone" -> Store(OkV(obj, -1), ev.o2)
      [] ev.op = "tick" -> Same(OkV(0, 0))      \* time passes
      [] ev.op = "del" ->
            LET v == At(obj, ev.path) IN
            IF ev.n \notin Names(P, v.c) THEN Same(KeyErr)
            ELSE Store(OkV(Update(P, obj, ev.path, StructV(P, v.c, Without(MapOf(v.f), {ev.n}))), -1), ev.o)
      [] ev.op = "get" ->
            LET v == At(obj, ev.path) IN
            IF ev.n \notin Names(P, v.c) THEN Same(KeyErr)
            ELSE Plain(Read(P, v.c, MapOf(v.f), ev.n))
      [] ev.op = "in" -> Same(OkV(ev.n \in DOMAIN m, 0))
      [] ev.op = "iter" -> Same(OkV([i \in 1..Len(obj.f) |-> obj.f[i][1]], 0))
      [] ev.op = "view" -> Same(OkV(<<Len(obj.f), obj.f>>, 0))
      [] ev.op = "len" -> Plain(LengthOf(P, obj.c, m))
      [] ev.op = "dict" -> Plain(ToDict(P, obj.c, m, ev.keep, ev.ctx))
      [] ev.op = "eq" -> Plain(Equal(P, obj, IF ev.d = <<>> THEN objs[ev.o2] ELSE ev.d[1]))
      [] ev.op = "valid" ->
            LET e == Validate(P, obj.c, m) IN Same(IF e = {} THEN OkV(0, 0) ELSE Err(e))
      [] ev.op = "dump" ->
            LET x == DumpStruct(P, obj.c, m, ev.ctx) IN
            Same(IF x.r = "ok" THEN OkV(x.b, 0) ELSE IF x.r = "err" THEN Err(x.e) ELSE Unspecified)
      [] ev.op = "dumps" -> Stream(DumpStruct(P, obj.c, m, ev.ctx))
      [] ev.op = "pdump" -> Stream(PartialDump(P, obj.c, m, ev.last, ev.ctx))
      [] ev.op = "load" ->
            LET x == Exactly(LoadStruct(P, ev.c, ev.b, 0, ev.ctx, MapOf(ev.kw)), ev.b, ev.exact) IN
            Store(IF x.r = "ok" THEN OkV(x.v, -1) ELSE x, ev.o)
      [] ev.op = "loads" -> Store(LoadStruct(P, ev.c, ev.b, ev.p, ev.ctx, MapOf(ev.kw)), ev.o)
      [] ev.op = "pload" ->
            IF ev.last # "" /\ ev.last \notin Names(P, ev.c) THEN Same(Err1("ValueError", ""))
            ELSE Store(PartialLoad(P, ev.c, ev.b, ev.p, ev.last, ev.ctx), ev.o)
      [] ev.op = "getf" ->
            IF ev.n \notin Names(P, ev.c)
            THEN {[Out(Err1("ValueError", ""), objs) EXCEPT !.pos = ev.p]}
            ELSE {[Out(IF x.r = "ok" THEN OkV(x.v, 0) ELSE x, objs) EXCEPT !.pos = ev.p] :
                     x \in GetField(P, ev.c, ev.b, ev.p, ev.n, ev.ctx)}

-----------------------------------------------------------------------------
(* Does what was observed, got, agree with outcome out? The empty string, or  *)
(* what doesn't agree.                                                        *)

ErrMatches(e, got) ==
    \E x \in e : /\ x[1] = "*" \/ \E i \in 1..Len(got.mro) : got.mro[i] = x[1]
                 /\ x[2] = "" \/ x[2] = got.field

Disagreement(out, got, st) ==
    CASE out.res.r = "any" -> ""
      [] out.res.r # got.r -> "outcome"
      [] out.res.r = "ok" /\ out.res.v # got.v -> "value"
      [] out.res.r = "err" /\ ~ErrMatches(out.res.e, got) -> "error"
      [] out.outs # {} /\ got.out \notin out.outs -> "stream"
      [] out.pos # -1 /\ got.pos # out.pos -> "position"
      [] ~got.args -> "arguments"
      [] out.objs # st -> "instances"
      [] OTHER -> ""
=============================================================================
